// Sums of products of scalars and points. A point of the prime-order group is its multiple of the generator (0: identity).
module msm {
  import arith.* from "./arith"
  const MP: int // order of the group
  const BIG: List[int] // lengths beyond the small ones
  var bases: List[int]
  var scalars: List[int]
  var sum: int
  var ev: { op: str, a: List[int], out: List[int] }

  pure def total(b: List[int], s: List[int]): int =
    range(0, mini(b.length(), s.length())).foldl(0, (t, i) => (t + b[i] * s[i]) % MP)
  pure def shapes(x: int, i: int): int =
    if (x % 23 == 0) 0
    else if (x % 23 == 1) 1
    else if (x % 23 == 2) MP - 1
    else if (x % 23 == 3) 2^(x / 32 % 254) % MP
    else if (x % 23 == 4) (2^(x / 32 % 254) - 1) % MP
    else if (x % 23 == 5) MP - 2^(x / 32 % 200) % MP
    else if (x % 23 == 6) (MP - 1) / 2 + x / 32 % 2
    else if (x % 23 == 7) x / 32 % 64
    else if (x % 23 == 8) (MP / (2^(x / 32 % 200))) % MP
    else if (x % 23 == 9) (2^(64 * (1 + x / 32 % 3)) - 1 + x / 128 % 3) % MP
    else x / 32 % MP
  pure def lcg(seed: int, n: int, kind: int, pts: bool): List[int] =
    range(0, n).foldl({ s: seed, l: List() }, (st, i) => { val nx = (st.s * 6364136223846793005 + 1442695040888963407 + i) % 2^290
      // few different points, so that buckets meet equal, opposite and identity entries
      val v = if (pts) (if (kind < 4) nx / 2^60 % 5 * (if (nx / 2^70 % 2 == 0) 1 else MP - 1) % MP else nx / 2^40 % MP)
              else if (kind % 4 == 0) nx / 2^60 % 4 else if (kind % 4 == 1) nx / 2^40 % MP else shapes(nx / 2^30, i)
      { s: nx, l: st.l.append(v) } }).l

  action init = all { bases' = [], scalars' = [], sum' = 0, ev' = { op: "init", a: [], out: [] } }
  action sumOf(b: List[int], s: List[int]): bool = all {
    bases' = b, scalars' = s, sum' = total(b, s), ev' = { op: "msm", a: [b.length(), s.length()], out: [total(b, s)] }
  }
  action fresh = {
    nondet n = oneOf(Set(0, 1, 2, 3, 4, 5, 8, 15, 31, 32, 33, 40))
    nondet big = oneOf(0.to(9))
    nondet nb = oneOf(BIG.indices())
    nondet s = oneOf(0.to(2^48))
    nondet k1 = oneOf(0.to(7))
    nondet k2 = oneOf(0.to(7))
    val m = if (big == 0) BIG[nb] else n
    sumOf(lcg(s, m, k1, true), lcg(s + 77, m, k2, false))
  }
  // the prover hands over lists of different lengths; what has no partner does not count
  action uneven = {
    nondet n = oneOf(Set(0, 1, 3, 4, 31, 33))
    nondet m = oneOf(Set(0, 1, 3, 4, 31, 33))
    nondet s = oneOf(0.to(2^48))
    nondet k1 = oneOf(0.to(7))
    sumOf(lcg(s, n, k1, true), lcg(s + 77, m, k1, false))
  }
  // same lists with one entry changed
  action tweak = {
    nondet i = oneOf(bases.indices())
    nondet j = oneOf(scalars.indices())
    nondet x = oneOf(Set(0, 1, 2, MP - 1, MP / 2))
    nondet y = oneOf(Set(0, 1, 2, MP - 1, MP / 2, 2^64 % MP, 2^253 % MP))
    all { bases.length() > 0, scalars.length() > 0, sumOf(bases.replaceAt(i, x), scalars.replaceAt(j, y)) }
  }
  // every term opposed by another: the sum is the identity
  action cancel = {
    nondet n = oneOf(Set(1, 2, 4, 16, 17))
    nondet s = oneOf(0.to(2^48))
    nondet k = oneOf(0.to(7))
    nondet w = oneOf(Set(0, 1))
    val b = lcg(s, n, k, true)
    val c = lcg(s + 5, n, k, false)
    if (w == 0) sumOf(b.concat(b.foldl(List(), (l, x) => l.append(md(-x, MP)))), c.concat(c))
    else sumOf(b.concat(b), c.concat(c.foldl(List(), (l, x) => l.append(md(-x, MP)))))
  }
  action step = any { fresh, fresh, uneven, tweak, tweak, cancel }

  // bucket accumulation with windows of c bits gives the same sum, exhaustively over a toy group
  pure def bucketed(b: List[int], s: List[int], c: int, windows: int): int =
    range(0, windows).foldl(0, (t, i) => {
      val bucket = range(0, mini(b.length(), s.length())).foldl(range(0, 2^c).foldl(List(), (l, _j) => l.append(0)), (bk, j) => {
        val d = s[j] / 2^(c * i) % 2^c
        bk.replaceAt(d, bk[d] + b[j]) })
      val parts = range(1, 2^c).foldl({ sum: 0, acc: 0 }, (st, j) => { sum: st.sum + bucket[2^c - j], acc: st.acc + st.sum + bucket[2^c - j] })
      md(t + 2^(c * i) * parts.acc, MP) })
  action stepToy = {
    nondet a = 0.to(MP - 1).oneOf() nondet b = 0.to(MP - 1).oneOf() nondet x = 0.to(MP - 1).oneOf() nondet y = 0.to(MP - 1).oneOf()
    all { bases' = [a, b, 1], scalars' = [x, y, x], sum' = total([a, b, 1], [x, y, x]), ev' = ev }
  }
  val toyInv = Set(1, 2, 3).forall(c => bucketed(bases, scalars, c, 4) == sum)
  val msmInv = if (bases.length() > 8) true else Set(1, 3).forall(c => bucketed(bases, scalars, c, 256 / c + 1) == sum)
}
module msm_r { import msm(MP = 21888242871839275222246405745257275088548364400416034343698204186575808495617, BIG = [64, 128, 150]).* from "./msm" }
module msm_q { import msm(MP = 21888242871839275222246405745257275088696311157297823662689037894645226208583, BIG = [64, 128]).* from "./msm" }
module msm_big { import msm(MP = 21888242871839275222246405745257275088548364400416034343698204186575808495617, BIG = [256, 512, 1030]).* from "./msm" }
module msm_t7 { import msm(MP = 7, BIG = [4]).* from "./msm" }
