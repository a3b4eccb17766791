// The extension tower Fq2 = Fq[u]/(u^2+1), Fq6 = Fq2[v]/(v^3 - xi), Fq12 = Fq6[w]/(w^2 - v), xi = EXI0 + u.
// Elements are flat coefficient lists of length 2, 6 and 12; every operation is the textbook one on polynomials.
module ext {
  import arith.* from "./arith"
  const EP: int
  const EXI0: int

  pure def slice2(a: List[int], i: int): List[int] = [a[2 * i], a[2 * i + 1]]
  pure def eadd(a: List[int], b: List[int]): List[int] = range(0, a.length()).foldl(List(), (l, i) => l.append(md(a[i] + b[i], EP)))
  pure def esub(a: List[int], b: List[int]): List[int] = range(0, a.length()).foldl(List(), (l, i) => l.append(md(a[i] - b[i], EP)))
  pure def eneg(a: List[int]): List[int] = range(0, a.length()).foldl(List(), (l, i) => l.append(md(-a[i], EP)))
  pure def escale(a: List[int], k: int): List[int] = range(0, a.length()).foldl(List(), (l, i) => l.append(md(a[i] * k, EP)))
  pure def ezero(n: int): List[int] = range(0, n).foldl(List(), (l, _i) => l.append(0))
  pure def eone(n: int): List[int] = range(0, n).foldl(List(), (l, i) => l.append(if (i == 0) 1 else 0))
  pure def eisz(a: List[int]): bool = a.indices().forall(i => a[i] == 0)
  pure def wf(a: List[int], n: int): bool = a.length() == n and a.indices().forall(i => 0 <= a[i] and a[i] < EP)

  // ---- Fq2
  pure def mul2(a: List[int], b: List[int]): List[int] =
    [md(a[0] * b[0] - a[1] * b[1], EP), md(a[0] * b[1] + a[1] * b[0], EP)]
  pure def conj2(a: List[int]): List[int] = [a[0], md(-a[1], EP)]
  pure def inv2(a: List[int]): List[int] = { val n = inv(a[0] * a[0] + a[1] * a[1], EP)
    [md(a[0] * n, EP), md(-a[1] * n, EP)] }
  pure val XI: List[int] = [EXI0 % EP, 1]
  pure def pow2(a: List[int], e: int): List[int] =
    range(0, nbits(e)).foldl({ r: [1, 0], b: a, e: e }, (s, _i) =>
      if (s.e == 0) s else { r: if (s.e % 2 == 1) mul2(s.r, s.b) else s.r, b: mul2(s.b, s.b), e: s.e / 2 }).r

  // ---- Fq6 over Fq2
  pure def mul6(a: List[int], b: List[int]): List[int] = {
    val a0 = slice2(a, 0)   val a1 = slice2(a, 1)   val a2 = slice2(a, 2)
    val b0 = slice2(b, 0)   val b1 = slice2(b, 1)   val b2 = slice2(b, 2)
    // v^3 = xi, v^4 = xi v
    val c0 = eadd(mul2(a0, b0), mul2(XI, eadd(mul2(a1, b2), mul2(a2, b1))))
    val c1 = eadd(eadd(mul2(a0, b1), mul2(a1, b0)), mul2(XI, mul2(a2, b2)))
    val c2 = eadd(eadd(mul2(a0, b2), mul2(a1, b1)), mul2(a2, b0))
    c0.concat(c1).concat(c2)
  }
  pure def inv6(a: List[int]): List[int] = {
    val a0 = slice2(a, 0)   val a1 = slice2(a, 1)   val a2 = slice2(a, 2)
    val t0 = esub(mul2(a0, a0), mul2(XI, mul2(a1, a2)))
    val t1 = esub(mul2(XI, mul2(a2, a2)), mul2(a0, a1))
    val t2 = esub(mul2(a1, a1), mul2(a0, a2))
    val n = inv2(eadd(mul2(a0, t0), mul2(XI, eadd(mul2(a1, t2), mul2(a2, t1)))))
    mul2(t0, n).concat(mul2(t1, n)).concat(mul2(t2, n))
  }
  pure val V6: List[int] = [0, 0, 1, 0, 0, 0]

  // ---- Fq12 over Fq6
  pure def lo6(a: List[int]): List[int] = a.slice(0, 6)
  pure def hi6(a: List[int]): List[int] = a.slice(6, 12)
  pure def mul12(a: List[int], b: List[int]): List[int] = {
    val c0 = eadd(mul6(lo6(a), lo6(b)), mul6(V6, mul6(hi6(a), hi6(b))))
    val c1 = eadd(mul6(lo6(a), hi6(b)), mul6(hi6(a), lo6(b)))
    c0.concat(c1)
  }
  pure def conj12(a: List[int]): List[int] = lo6(a).concat(eneg(hi6(a)))
  pure def inv12(a: List[int]): List[int] = {
    val n = inv6(esub(mul6(lo6(a), lo6(a)), mul6(V6, mul6(hi6(a), hi6(a)))))
    mul6(lo6(a), n).concat(eneg(mul6(hi6(a), n)))
  }
  pure def mulE(a: List[int], b: List[int]): List[int] = if (a.length() == 2) mul2(a, b) else if (a.length() == 6) mul6(a, b) else mul12(a, b)
  pure def invE(a: List[int]): List[int] = if (a.length() == 2) inv2(a) else if (a.length() == 6) inv6(a) else inv12(a)
  pure def pow12(a: List[int], e: int): List[int] =
    range(0, nbits(e)).foldl({ r: eone(12), b: a, e: e }, (s, _i) =>
      if (s.e == 0) s else { r: if (s.e % 2 == 1) mul12(s.r, s.b) else s.r, b: mul12(s.b, s.b), e: s.e / 2 }).r

  // ---- Frobenius x -> x^p, the ring homomorphism fixing Fq with u -> -u, v -> xi^((p-1)/3) v, w -> xi^((p-1)/6) w
  pure def frob2(a: List[int]): List[int] = conj2(a)
  pure def frob6(a: List[int]): List[int] = {
    val g = pow2(XI, (EP - 1) / 3)
    conj2(slice2(a, 0)).concat(mul2(conj2(slice2(a, 1)), g)).concat(mul2(conj2(slice2(a, 2)), mul2(g, g)))
  }
  pure def frob12(a: List[int]): List[int] = {
    val g = pow2(XI, (EP - 1) / 6)
    val h = frob6(hi6(a))
    frob6(lo6(a)).concat(mul2(slice2(h, 0), g)).concat(mul2(slice2(h, 1), g)).concat(mul2(slice2(h, 2), g))
  }
  pure def frobE(a: List[int]): List[int] = if (a.length() == 2) frob2(a) else if (a.length() == 6) frob6(a) else frob12(a)

  // ---- square roots in Fq2: an element is a square iff its norm is a square in Fq
  pure def isSq2(a: List[int]): bool = isSquare(a[0] * a[0] + a[1] * a[1], EP)
  // lexicographically smaller root, ordered by (c1, c0)
  pure def small2(a: List[int]): List[int] = { val b = eneg(a)
    if (a[1] < b[1] or (a[1] == b[1] and a[0] <= b[0])) a else b }
  pure def sqrt2(a: List[int], nr: int): List[int] =
    if (eisz(a)) a
    else if (a[1] == 0) (if (isSquare(a[0], EP)) small2([sqrtm(a[0], EP, nr), 0]) else small2([0, sqrtm(-a[0], EP, nr)]))
    else {
      val s = sqrtm(a[0] * a[0] + a[1] * a[1], EP, nr)
      val half = inv(2, EP)
      val d0 = md((a[0] + s) * half, EP)
      val d = if (isSquare(d0, EP)) d0 else md((a[0] - s) * half, EP)
      val x0 = sqrtm(d, EP, nr)
      small2([x0, md(a[1] * inv(2 * x0, EP), EP)])
    }
}
