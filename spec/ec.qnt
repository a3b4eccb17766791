// Elliptic-curve groups in affine coordinates: short Weierstrass y^2 = x^3 + b over Fp or Fp2 (KIND 0) and
// twisted Edwards -x^2 + y^2 = 1 + d x^2 y^2 over Fp (KIND 1). A point is a flat coordinate list x ++ y, the
// Weierstrass identity is the empty list. CB holds b (as a coefficient list) or [d].
module ec {
  import arith.* from "./arith"
  const CP: int
  const KIND: int
  const CB: List[int]
  const CNR: int
  import ext(EP = CP, EXI0 = 9).* from "./ext"

  pure val DEG = CB.length()
  pure def fmul(a: List[int], b: List[int]): List[int] = if (DEG == 1) [md(a[0] * b[0], CP)] else mul2(a, b)
  pure def finv(a: List[int]): List[int] = if (DEG == 1) [inv(a[0], CP)] else inv2(a)
  pure def fsq(a: List[int]): List[int] = fmul(a, a)
  pure def fissq(a: List[int]): bool = if (DEG == 1) isSquare(a[0], CP) else isSq2(a)
  pure def fsqrt(a: List[int]): List[int] = if (DEG == 1) [sqrtm(a[0], CP, CNR)] else sqrt2(a, CNR)
  pure val F0: List[int] = ezero(DEG)
  pure val F1: List[int] = eone(DEG)

  pure def px(p: List[int]): List[int] = p.slice(0, DEG)
  pure def py(p: List[int]): List[int] = p.slice(DEG, 2 * DEG)
  pure val O: List[int] = if (KIND == 0) List() else [0, 1]

  pure def onCurve(p: List[int]): bool =
    if (p.length() == 0) KIND == 0
    else if (KIND == 0) fsq(py(p)) == eadd(fmul(fsq(px(p)), px(p)), CB)
    else { val xx = fsq(px(p))  val yy = fsq(py(p))
           esub(yy, xx) == eadd(F1, fmul(CB, fmul(xx, yy))) }

  pure def pneg(p: List[int]): List[int] =
    if (KIND == 1) eneg(px(p)).concat(py(p)) else if (p.length() == 0) p else px(p).concat(eneg(py(p)))

  // Weierstrass chord and tangent; Edwards complete law with a = -1
  pure def padd(p: List[int], q: List[int]): List[int] =
    if (KIND == 1) {
      val x1 = px(p)   val y1 = py(p)   val x2 = px(q)   val y2 = py(q)
      val dd = fmul(CB, fmul(fmul(x1, x2), fmul(y1, y2)))
      fmul(eadd(fmul(x1, y2), fmul(x2, y1)), finv(eadd(F1, dd))).concat(fmul(eadd(fmul(y1, y2), fmul(x1, x2)), finv(esub(F1, dd))))
    }
    else if (p.length() == 0) q
    else if (q.length() == 0) p
    else if (px(p) == px(q) and (py(p) != py(q) or eisz(py(p)))) O
    else {
      val m = if (px(p) == px(q)) fmul(escale(fsq(px(p)), 3), finv(escale(py(p), 2)))
              else fmul(esub(py(q), py(p)), finv(esub(px(q), px(p))))
      val x = esub(esub(fsq(m), px(p)), px(q))
      x.concat(esub(fmul(m, esub(px(p), x)), py(p)))
    }
  pure def psub(p: List[int], q: List[int]): List[int] = padd(p, pneg(q))

  // ---- multiplication by an integer, in Jacobian (Weierstrass) or projective (Edwards) coordinates
  pure def jdbl(j: { x: List[int], y: List[int], z: List[int] }): { x: List[int], y: List[int], z: List[int] } = {
    val b = fsq(j.y)
    val d = escale(fmul(j.x, b), 4)
    val e = escale(fsq(j.x), 3)
    val x3 = esub(fsq(e), escale(d, 2))
    { x: x3, y: esub(fmul(e, esub(d, x3)), escale(fsq(b), 8)), z: escale(fmul(j.y, j.z), 2) }
  }
  pure def jadd(j: { x: List[int], y: List[int], z: List[int] }, p: List[int]): { x: List[int], y: List[int], z: List[int] } =
    if (eisz(j.z)) { x: px(p), y: py(p), z: F1 }
    else {
      val zz = fsq(j.z)
      val u = fmul(px(p), zz)
      val s = fmul(py(p), fmul(zz, j.z))
      if (u == j.x) (if (s == j.y) jdbl(j) else { x: F1, y: F1, z: F0 })
      else {
        val h = esub(u, j.x)
        val hh = fsq(h)
        val hhh = fmul(h, hh)
        val r = esub(s, j.y)
        val v = fmul(j.x, hh)
        val x3 = esub(esub(fsq(r), hhh), escale(v, 2))
        { x: x3, y: esub(fmul(r, esub(v, x3)), fmul(j.y, hhh)), z: fmul(j.z, h) }
      }
    }
  pure def jaff(j: { x: List[int], y: List[int], z: List[int] }): List[int] =
    if (eisz(j.z)) O
    else { val zi = finv(j.z)
           val z2 = fsq(zi)
           fmul(j.x, z2).concat(fmul(j.y, fmul(z2, zi))) }
  pure def edbl(j: { x: List[int], y: List[int], z: List[int] }): { x: List[int], y: List[int], z: List[int] } = {
    val c = fsq(j.x)
    val d = fsq(j.y)
    val e = esub(fsq(eadd(j.x, j.y)), eadd(c, d))
    val f = esub(d, c)
    val g = esub(f, escale(fsq(j.z), 2))
    { x: fmul(e, g), y: fmul(f, eneg(eadd(c, d))), z: fmul(f, g) }
  }
  pure def eaddp(j: { x: List[int], y: List[int], z: List[int] }, p: List[int]): { x: List[int], y: List[int], z: List[int] } = {
    val b = fsq(j.z)
    val c = fmul(j.x, px(p))
    val d = fmul(j.y, py(p))
    val e = fmul(CB, fmul(c, d))
    val f = esub(b, e)
    val g = eadd(b, e)
    { x: fmul(fmul(j.z, f), esub(fmul(eadd(j.x, j.y), eadd(px(p), py(p))), eadd(c, d))), y: fmul(fmul(j.z, g), eadd(d, c)), z: fmul(f, g) }
  }
  pure def bitsMSB(k: int): List[int] = rev(bitsLE(k, bitlen(k)))
  pure def pmul(k: int, p: List[int]): List[int] =
    if (KIND == 1) {
      val j = bitsMSB(k).foldl({ x: F0, y: F1, z: F1 }, (s, b) => { val d = edbl(s)
                                                                    if (b == 1) eaddp(d, p) else d })
      val zi = finv(j.z)
      fmul(j.x, zi).concat(fmul(j.y, zi))
    }
    else if (p.length() == 0) p
    else jaff(bitsMSB(k).foldl({ x: F1, y: F1, z: F0 }, (s, b) => { val d = if (eisz(s.z)) s else jdbl(s)
                                                                    if (b == 1) jadd(d, p) else d }))

  // first point of the curve with x-coordinate at or after x (Weierstrass), y-coordinate at or after x (Edwards)
  pure def rhs(x: List[int]): List[int] =
    if (KIND == 0) eadd(fmul(fsq(x), x), CB)
    else { val yy = fsq(x)
           fmul(esub(yy, F1), finv(eadd(F1, fmul(CB, yy)))) }
  pure def liftx(x: List[int]): List[int] = {
    val f = range(0, 40).foldl({ x: x, ok: false }, (s, _i) =>
      if (s.ok) s else if (fissq(rhs(s.x))) { x: s.x, ok: true } else { x: eadd(s.x, F1), ok: false })
    if (not(f.ok)) O
    else if (KIND == 0) f.x.concat(fsqrt(rhs(f.x))) else fsqrt(rhs(f.x)).concat(f.x)
  }
}
