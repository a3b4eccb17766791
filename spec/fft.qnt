// Polynomials over a prime field and their values on power-of-two root-of-unity domains.
module fft {
  import arith.* from "./arith"
  const FP: int   // modulus
  const FG: int   // multiplicative generator; the domain of size 2^k is generated by FG^((FP-1)/2^k), its coset is shifted by FG
  const KMAX: int // largest dense domain
  const KBIG: int // largest domain for polynomials with few terms
  const TOY: bool

  var k: int
  var polys: List[List[int]] // two polynomials, lowest coefficient first, without leading zeros
  var pts: List[List[int]]   // two lists of values
  var ev: { op: str, a: List[int], out: List[int] }

  pure def trim(l: List[int]): List[int] = {
    val top = l.indices().filter(i => l[i] != 0).fold(-1, (m, i) => maxi(m, i))
    l.slice(0, top + 1)
  }
  pure def omega(kk: int): int = powm(FG, (FP - 1) / 2^kk, FP)
  pure def pows(x: int, n: int): List[int] = range(1, n).foldl([1 % FP], (l, i) => l.append(l[i - 1] * x % FP))
  pure def horner(l: List[int], x: int): int = rev(l).foldl(0, (s, c) => (s * x + c) % FP)
  pure def terms(l: List[int]): int = l.foldl(0, (s, c) => s + b2i(c != 0))
  // values on shift * <omega>
  pure def values(l: List[int], kk: int, shift: int): List[int] = {
    val n = 2^kk
    val w = pows(omega(kk), n)
    if (terms(l) <= 3) {
      val nz = range(0, l.length()).foldl(List(), (s, i) => if (l[i] != 0) s.append([l[i] * powm(shift, i, FP) % FP, i]) else s)
      range(0, n).foldl(List(), (s, j) => s.append(nz.foldl(0, (t, c) => t + c[0] * w[(j * c[1]) % n]) % FP))
    } else range(0, n).foldl(List(), (s, j) => s.append(horner(l, md(w[j] * shift, FP))))
  }
  // the polynomial of degree below 2^k with these values on shift * <omega>
  pure def interpolate(v: List[int], kk: int, shift: int): List[int] = {
    val n = 2^kk
    val w = pows(omega(kk), n)
    val ni = inv(n, FP)
    val si = pows(inv(shift, FP), n)
    val full = range(0, n).foldl(List(), (s, i) =>
      s.append(ni * si[i] % FP * (range(0, mini(n, v.length())).foldl(0, (t, j) => t + v[j] * w[(n - (i * j) % n) % n]) % FP) % FP))
    trim(full)
  }
  pure def at(l: List[int], i: int): int = if (i < l.length()) l[i] else 0
  pure def zip(a: List[int], b: List[int], f: (int, int) => int): List[int] =
    range(0, maxi(a.length(), b.length())).foldl(List(), (s, i) => s.append(md(f(at(a, i), at(b, i)), FP)))
  pure def scale(a: List[int], c: int): List[int] = a.foldl(List(), (s, x) => s.append(x * c % FP))
  pure def polyMul(a: List[int], b: List[int]): List[int] =
    range(0, a.length() + b.length()).foldl(List(), (s, i) =>
      s.append(range(maxi(0, i + 1 - b.length()), mini(i + 1, a.length())).foldl(0, (t, j) => t + a[j] * b[i - j]) % FP))
  // quotient of l by (X - x), remainder discarded
  pure def divLinear(l: List[int], x: int): List[int] =
    if (l.length() == 0) List() else rev(rev(l).slice(0, l.length() - 1).foldl({ acc: 0, out: List() }, (s, c) => { val t = (s.acc * x + c) % FP
      { acc: t, out: s.out.append(t) } }).out)
  // at most one list is long
  pure def lcg(seed: int, n: int, sparse: int): List[int] =
    range(0, n).foldl({ s: seed, l: List() }, (st, i) => { val nx = (st.s * 6364136223846793005 + 1442695040888963407 + i) % 2^250
      { s: nx, l: st.l.append(if (sparse > 0 and (nx / 2^100) % sparse != 0) 0 else if ((nx / 2^80) % 7 == 0) FP - 1 - (nx % 3) else nx % FP) } }).l

  action init = all { k' = 1, polys' = [[], []], pts' = [[], []], ev' = { op: "init", a: [], out: [] } }
  def other(i: int): int = 1 - i
  action upd(i: int, p: List[int], w: List[int], o: str, a: List[int], out: List[int]): bool = all {
    k' = k, polys' = polys.replaceAt(i, trim(p)), pts' = pts.replaceAt(i, w), ev' = { op: o, a: if (TOY) [] else a, out: if (TOY) [] else out }
  }
  // transforms are only asked of polynomials and value lists that fit the domain
  def fits(i: int): bool = polys[i].length() <= 2^k and (k <= KMAX or terms(polys[i]) <= 3)
  def fitsV(i: int): bool = pts[i].length() <= 2^k and k <= KMAX

  action load = {
    nondet i = oneOf(Set(0, 1))
    nondet kk = oneOf(if (k <= KMAX) Set(k) else 1.to(KMAX))
    nondet n = oneOf(Set(0, 1, 2, 2^kk - 1, 2^kk, 2^(kk - 1) + 1).filter(x => x <= 2^kk))
    nondet s = oneOf(0.to(2^48))
    nondet sp = oneOf(Set(0, 0, 2, 5))
    val l = lcg(s, n, sp)
    all { k' = kk, polys' = if (kk == k) polys.replaceAt(i, trim(l)) else [[], []].replaceAt(i, trim(l)),
          pts' = if (kk == k) pts else [[], []], ev' = { op: "load", a: [i, kk].concat(trim(l)), out: [] } }
  }
  action loadV = {
    nondet i = oneOf(Set(0, 1))
    nondet n = oneOf(Set(0, 1, 2^k - 1, 2^k))
    nondet s = oneOf(0.to(2^48))
    nondet sp = oneOf(Set(0, 3))
    val l = lcg(s, n, sp)
    all { k <= KMAX, upd(i, polys[i], l, "loadv", [i].concat(l), []) }
  }
  action resize = {
    nondet kk = 1.to(KMAX).oneOf()
    nondet big = oneOf(0.to(3))
    nondet kb = (KMAX + 1).to(KBIG).oneOf()
    val n = if (big == 0) kb else kk
    all { k' = n, polys' = [[], []], pts' = [[], []], ev' = { op: "resize", a: [n], out: [] } }
  }
  // few terms anywhere in a large domain
  action loadSparse = {
    nondet i = oneOf(Set(0, 1))
    nondet e1 = 0.to(2^k - 1).oneOf()
    nondet e2 = 0.to(2^k - 1).oneOf()
    nondet c1 = 1.to(FP - 1).oneOf()
    nondet c2 = 1.to(FP - 1).oneOf()
    val l = range(0, maxi(e1, e2) + 1).foldl(List(), (s, j) => s.append(if (j == e1) c1 else if (j == e2) c2 else 0))
    all { k' = k, polys' = polys.replaceAt(i, trim(l)), pts' = pts, ev' = { op: "load", a: [i, k].concat(trim(l)), out: [] } }
  }
  action dft = { nondet i = oneOf(Set(0, 1))
    all { fits(i), upd(i, polys[i], values(polys[i], k, 1), "dft", [i], []) } }
  action cdft = { nondet i = oneOf(Set(0, 1))
    all { fits(i), upd(i, polys[i], values(polys[i], k, FG), "cdft", [i], []) } }
  action idft = { nondet i = oneOf(Set(0, 1))
    all { fitsV(i), upd(i, interpolate(pts[i], k, 1), pts[i], "idft", [i], []) } }
  action cidft = { nondet i = oneOf(Set(0, 1))
    all { fitsV(i), upd(i, interpolate(pts[i], k, FG), pts[i], "cidft", [i], []) } }
  action pmul = { nondet i = oneOf(Set(0, 1))
    upd(i, polys[i], zip(pts[0], pts[1], (a, b) => a * b), "pmul", [i], []) }
  action psub = { nondet i = oneOf(Set(0, 1)) nondet r = oneOf(Set(0, 1))
    upd(i, polys[i], zip(pts[r], pts[other(r)], (a, b) => a - b), "psub", [i, r], []) }
  action divz = { nondet i = oneOf(Set(0, 1))
    val z = md(powm(FG, 2^k, FP) - 1, FP)
    all { z != 0, upd(i, polys[i], scale(pts[i], inv(z, FP)), "divz", [i], []) } }
  action add = { nondet i = oneOf(Set(0, 1)) nondet sp = oneOf(Set(0, 1))
    upd(i, zip(polys[0], polys[1], (a, b) => a + b), pts[i], "add", [i, sp], []) }
  action sub = { nondet i = oneOf(Set(0, 1)) nondet r = oneOf(Set(0, 1))
    upd(i, zip(polys[r], polys[other(r)], (a, b) => a - b), pts[i], "sub", [i, r], []) }
  action smul = { nondet i = oneOf(Set(0, 1)) nondet c = oneOf(Set(0, 1, FP - 1, 123456789 % FP, FP / 2))
    upd(i, scale(polys[i], c), pts[i], "smul", [i, c], []) }
  pure val xs: Set[int] = Set(0, 1, 2, FP - 1, FG, FP / 3)
  action evaluate = { nondet i = oneOf(Set(0, 1)) nondet x = oneOf(xs)
    upd(i, polys[i], pts[i], "eval", [i, x], [horner(polys[i], x)]) }
  action divide = { nondet i = oneOf(Set(0, 1)) nondet x = oneOf(xs)
    all { polys[i].length() > 0, upd(i, divLinear(polys[i], x), pts[i], "divide", [i, x], []) } }
  action degree = { nondet i = oneOf(Set(0, 1))
    upd(i, polys[i], pts[i], "degree", [i], [maxi(0, polys[i].length() - 1)]) }
  action zat = { nondet x = oneOf(xs.union(Set(omega(k), md(powm(omega(k), 3, FP), FP), md(FG * omega(k), FP))))
    upd(0, polys[0], pts[0], "z", [x], [md(powm(x, 2^k, FP) - 1, FP), md(powm(FG, 2^k, FP) - 1, FP)]) }
  action step = any { load, loadV, load, dft, cdft, idft, cidft, dft, cdft, idft, cidft, pmul, psub, divz, add, sub, smul, evaluate, divide, degree, zat, resize, loadSparse }

  // exhaustive over a toy field
  action stepToy = {
    nondet a = 0.to(FP - 1).oneOf() nondet b = 0.to(FP - 1).oneOf() nondet c = 0.to(FP - 1).oneOf() nondet d = 0.to(FP - 1).oneOf()
    nondet kk = 1.to(KMAX).oneOf()
    all { k' = kk, polys' = [trim([a, b, c, d].slice(0, mini(4, 2^kk))), trim([c, a])], pts' = pts, ev' = ev }
  }
  val toyInv = {
    val p = polys[0]
    val q = polys[1]
    val m = trim(polyMul(p, q))
    and {
      interpolate(values(p, k, 1), k, 1) == p,
      interpolate(values(p, k, FG), k, FG) == p,
      m.length() <= 2^k implies interpolate(zip(values(p, k, 1), values(q, k, 1), (a, b) => a * b), k, 1) == m,
      p.length() > 0 implies xs.forall(x => trim(zip(polyMul(divLinear(p, x), [md(-x, FP), 1]), [horner(p, x)], (a, b) => a + b)) == p),
      // the vanishing polynomial vanishes on the domain and nowhere on the coset
      range(0, 2^k).foldl(true, (s, j) => s and powm(powm(omega(k), j, FP), 2^k, FP) == 1),
      range(1, 2^k).foldl(true, (s, j) => s and powm(omega(k), j, FP) != 1),
    }
  }
}
module fft_fr {
  import fft(FP = 21888242871839275222246405745257275088548364400416034343698204186575808495617, FG = 7, KMAX = 5, KBIG = 9, TOY = false).* from "./fft"
}
module fft_t5 { import fft(FP = 5, FG = 2, KMAX = 2, KBIG = 2, TOY = true).* from "./fft" }
module fft_t13 { import fft(FP = 13, FG = 2, KMAX = 2, KBIG = 2, TOY = true).* from "./fft" }
