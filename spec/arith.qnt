// Integer and modular arithmetic shared by the whole specification (pure definitions).
module arith {
  // canonical residue (Quint's % follows the sign of the dividend)
  pure def md(a: int, p: int): int = { val r = a % p
    if (r < 0) r + p else r }

  // loop bounds chosen by the size of the operand (a bound, not a semantic parameter)
  pure def nbits(e: int): int = if (e < 256) 9 else if (e < 65536) 17 else if (e / (2^64) == 0) 65 else if (e / (2^256) == 0) 257 else if (e / (2^384) == 0) 385 else 3100

  pure def powm(b: int, e: int, p: int): int =
    range(0, nbits(e)).foldl({r: 1 % p, b: md(b, p), e: e}, (s, _i) =>
      if (s.e == 0) s
      else { r: if (s.e % 2 == 1) (s.r * s.b) % p else s.r, b: (s.b * s.b) % p, e: s.e / 2 }).r

  // inverse by extended Euclid; 0 when not invertible
  pure def inv(a: int, p: int): int = {
    val s = range(0, if (p < 1024) 16 else 2 * nbits(p)).foldl({r0: p, r1: md(a, p), t0: 0, t1: 1}, (s, _i) =>
      if (s.r1 == 0) s
      else { val q = s.r0 / s.r1
             { r0: s.r1, r1: s.r0 - q * s.r1, t0: s.t1, t1: s.t0 - q * s.t1 } })
    if (s.r0 == 1) md(s.t0, p) else 0
  }

  // inverses of several non-zero residues at the price of one
  pure def invAll(l: List[int], p: int): List[int] = {
    val pre = l.foldl([1], (s, x) => s.append(s[s.length() - 1] * md(x, p) % p))
    range(0, l.length()).foldl({ t: inv(pre[l.length()], p), o: List() }, (s, k) => {
      val i = l.length() - 1 - k
      { t: s.t * md(l[i], p) % p, o: [s.t * pre[i] % p].concat(s.o) } }).o
  }

  pure def maxi(a: int, b: int): int = if (a > b) a else b
  pure def mini(a: int, b: int): int = if (a < b) a else b
  pure def absi(a: int): int = if (a < 0) -a else a
  pure def b2i(b: bool): int = if (b) 1 else 0

  // little-endian bits / digits
  pure def digits(v: int, base: int, n: int): List[int] =
    range(0, n).foldl({v: v, l: List()}, (s, _i) => { v: s.v / base, l: s.l.append(s.v % base) }).l
  pure def bitsLE(v: int, n: int): List[int] = digits(v, 2, n)
  pure def undigits(l: List[int], base: int): int =
    range(0, l.length()).foldl({w: 1, s: 0}, (a, i) => { w: a.w * base, s: a.s + a.w * l[i] }).s
  pure def bitlen(v: int): int =
    range(0, 600).foldl({v: v, n: 0}, (s, _i) => if (s.v == 0) s else { v: s.v / 2, n: s.n + 1 }).n
  pure def rev(l: List[int]): List[int] = range(0, l.length()).foldl(List(), (a, i) => a.append(l[l.length() - 1 - i]))
  pure def sumL(l: List[int]): int = l.foldl(0, (a, x) => a + x)

  // bitwise and / xor on naturals of at most n bits
  pure def band(a: int, b: int, n: int): int =
    range(0, n).foldl({a: a, b: b, w: 1, s: 0}, (t, _i) =>
      { a: t.a / 2, b: t.b / 2, w: t.w * 2, s: t.s + (if (t.a % 2 == 1 and t.b % 2 == 1) t.w else 0) }).s
  pure def bxor(a: int, b: int, n: int): int =
    range(0, n).foldl({a: a, b: b, w: 1, s: 0}, (t, _i) =>
      { a: t.a / 2, b: t.b / 2, w: t.w * 2, s: t.s + (if (t.a % 2 != t.b % 2) t.w else 0) }).s

  // Euler criterion: 1 for a non-zero square, 0 for zero, p-1 otherwise
  pure def isSquare(a: int, p: int): bool = md(a, p) == 0 or powm(a, (p - 1) / 2, p) == 1

  // the smaller square root of a square modulo an odd prime (Tonelli-Shanks); -1 for a non-square.
  // nr is any quadratic non-residue.
  pure def sqrtm(a0: int, p: int, nr: int): int = {
    val a = md(a0, p)
    if (a == 0) 0
    else if (not(isSquare(a, p))) -1
    else {
      val f = range(0, if (p < 1024) 10 else 300).foldl({q: p - 1, s: 0}, (t, _i) => if (t.q % 2 == 0) { q: t.q / 2, s: t.s + 1 } else t)
      val start = { m: f.s, c: powm(nr, f.q, p), t: powm(a, f.q, p), r: powm(a, (f.q + 1) / 2, p) }
      val e = range(0, if (p < 1024) 10 else 70).foldl(start, (st, _i) =>
        if (st.t == 1) st
        else {
          val lo = range(0, if (p < 1024) 10 else 70).foldl({t: st.t, i: 0}, (u, _j) => if (u.t == 1) u else { t: (u.t * u.t) % p, i: u.i + 1 })
          val b = range(0, st.m - lo.i - 1).foldl(st.c, (x, _j) => (x * x) % p)
          { m: lo.i, c: (b * b) % p, t: (((st.t * b) % p) * b) % p, r: (st.r * b) % p }
        })
      mini(e.r, p - e.r)
    }
  }

  // exhaustively checked facts (instantiated at toy primes by models.qnt)
  pure def okInv(a: int, p: int): bool = if (md(a, p) == 0) inv(a, p) == 0 else md(a * inv(a, p), p) == 1
  pure def okSqrt(a: int, p: int, nr: int): bool = {
    val s = sqrtm(a, p, nr)
    val ex = 0.to(p - 1).exists(x => md(x * x, p) == md(a, p))
    if (ex) md(s * s, p) == md(a, p) else s == -1
  }
}
