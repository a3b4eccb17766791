// State machine over registers holding points of one curve.
module curve {
  import arith.* from "./arith"
  const P: int          // base field
  const K: int          // 0 Weierstrass, 1 twisted Edwards
  const B: List[int]    // b, or [d]
  const NR: int
  const ORD: int        // prime order of the subgroup (Weierstrass), of scalars reduced modulo SC otherwise
  const COF: int        // cofactor
  const SC: int         // modulus of the scalar type
  const G: List[int]
  const SMALLF: int     // a small prime factor of the cofactor, or 1
  const TOY: bool
  import ec(CP = P, KIND = K, CB = B, CNR = NR).* from "./ec"
  import ext(EP = P, EXI0 = 9).* from "./ext"

  pure val NREG = if (TOY) 2 else 4
  pure val GPOW: List[List[int]] = range(0, if (TOY) 3 else 9).foldl(List(), (l, i) => l.append(pmul(i, G)))
  pure val REGS0: List[List[int]] = range(0, NREG).foldl(List(), (l, i) => l.append(if (i == 0) O else if (i == 1) G else GPOW[2]))

  pure val SCALARS: List[int] = if (TOY) range(0, SC) else [
    0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, SC - 1, SC - 2, SC - 3, (SC - 1) / 2, (SC + 1) / 2, ORD % SC, (ORD - 1) % SC, (ORD + 1) % SC,
    2^64 - 1, 2^64, 2^64 + 1, 2^128 - 1, 2^128, 2^192 - 1, 2^192, 2^253, 2^253 - 1, 2^252 + 2^251, (2^254 - 1) / 3, (2^253 - 1) / 3 * 2 % SC,
    (2^64 - 1) * 2^64, (2^64 - 1) * 2^128, 3 * 2^62, 3 * 2^126, 11 * 2^188, (SC / 2^192) * 2^192, (SC / 2^128) * 2^128, (SC / 2^64) * 2^64]

  var regs: List[List[int]]
  var ev: { op: str, a: List[int], out: List[int] }
  action init = all { regs' = REGS0, ev' = { op: "init", a: List(), out: List() } }
  action setr(k: int, v: List[int], op: str, a: List[int], out: List[int]): bool = all {
    regs' = regs.replaceAt(k, v), ev' = { op: op, a: a, out: out } }

  pure def felt(r: int, c: int): List[int] = if (DEG == 1) [md(r, P)] else [md(r, P), md(if (c == 0) r * r + 1 else if (c == 1) 0 else c - 2, P)]
  // a coordinate list from seeds: on the curve
  pure def gen(c: int, r: int, m: int): List[int] =
    if (c == 0) O
    else if (c == 1) GPOW[m % GPOW.length()]
    else if (c == 2) pneg(GPOW[m % GPOW.length()])
    else if (c == 3) pmul(r, G)
    else if (c == 4) liftx(felt(r, m % 4))
    else if (c == 5) liftx(felt(m % 12, m % 4))
    else if (c == 6) pneg(liftx(felt(-(m % 12), 1)))
    else pmul(SCALARS[m % SCALARS.length()], G)

  action load = {
    nondet k = oneOf(0.to(NREG - 1))
    nondet c = oneOf(0.to(7))
    nondet r = oneOf(0.to(SC - 1))
    nondet m = oneOf(0.to(100000))
    nondet z = oneOf(Set(1, 1, 2, 3, P - 1, r))
    val v = gen(c, r, m)
    // z: the projective coordinate the register's projective form is scaled by
    setr(k, v, "load", [k, if (z % P == 0) 1 else z % P].concat(v), List())
  }
  // a point related to register i by a symmetry of the curve: equal y (the cube-root endomorphism), equal x, opposite
  // coordinates, translation by a small-order point
  pure val W3: int = if (KIND == 1 or (P - 1) % 3 != 0) 1 else range(2, 9).foldl(1, (w, x) => if (w != 1) w else powm(x, (P - 1) / 3, P))
  pure def relate(c: int, p: List[int]): List[int] =
    if (p.length() == 0) p
    else if (KIND == 1) (if (c == 0) px(p).concat(eneg(py(p))) else if (c == 1) eneg(px(p)).concat(eneg(py(p))) else if (c == 2) pneg(p) else padd(p, p))
    else if (c == 0) escale(px(p), W3).concat(py(p))
    else if (c == 1) escale(px(p), W3 * W3).concat(eneg(py(p)))
    else if (c == 2) pneg(p)
    else padd(p, p)
  action related = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet c = oneOf(0.to(3))
    nondet z = oneOf(Set(1, 2, P - 2))
    setr(k, relate(c, regs[i]), "load", [k, z].concat(relate(c, regs[i])), List())
  }
  action copy = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    setr(k, regs[i], "copy", [k, i], List())
  }
  // f selects affine/projective operands, by-value/by-reference and assigning spellings
  action binary = {
    nondet op = oneOf(Set("add", "sub"))
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet f = oneOf(0.to(if (TOY) 0 else 20))
    setr(k, if (op == "add") padd(regs[i], regs[j]) else psub(regs[i], regs[j]), op, [k, i, j, f], List())
  }
  action unary = {
    nondet op = oneOf(Set("neg", "dbl", "conv"))
    nondet i = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet f = oneOf(0.to(if (TOY) 0 else 5))
    val p = regs[i]
    setr(k, if (op == "neg") pneg(p) else if (op == "dbl") padd(p, p) else p, op, [k, i, f], List())
  }
  action sum = {
    nondet k = oneOf(0.to(NREG - 1))
    nondet f = oneOf(0.to(if (TOY) 0 else 1))
    setr(k, regs.foldl(O, (a, p) => padd(a, p)), "sum", [k, f], List())
  }
  action compare = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    all { regs' = regs, ev' = { op: "cmp", a: [i, j], out: [b2i(regs[i] == regs[j]), b2i(regs[i] == O)] } }
  }
  action konst = {
    nondet k = oneOf(0.to(NREG - 1))
    nondet c = oneOf(Set("id", "gen", "default"))
    setr(k, if (c == "gen") G else O, c, [k], List())
  }
  action step = any { load, related, related, binary, binary, binary, binary, unary, unary, compare, compare, copy, sum, konst }

  // --- C06
  action mulc = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet c = oneOf(0.to(2))
    nondet m = oneOf(0.to(SCALARS.length() - 1))
    nondet r = oneOf(0.to(SC - 1))
    nondet f = oneOf(0.to(if (TOY) 0 else 17))
    val s = if (c == 0) r else if (c == 1) SCALARS[m] else md(SCALARS[m] + r % 33 - 16, SC)
    setr(k, pmul(s, regs[i]), "mul", [k, i, s, f], List())
  }
  action stepMul = any { load, mulc, mulc, mulc, mulc, copy, binary }

  // --- C07: arbitrary coordinate pairs
  pure def twist(c: int, p: List[int], r: int): List[int] = {
    val x = px(p)   val y = py(p)
    if (c == 0) eadd(x, F1).concat(y)
    else if (c == 1) x.concat(eadd(y, F1))
    else if (c == 2) y.concat(x)
    else if (c == 3) felt(r, 0).concat(felt(r * r + 5, 2))
    else if (c == 4) F0.concat(felt(r % 9, 1))
    else if (c == 5) felt(r % 9, 1).concat(F0)
    else if (c == 6) eneg(x).concat(y)
    else if (c == 7) escale(x, 2).concat(escale(y, 2))
    else if (c == 8) F0.concat(F0)
    // the same x on a curve with another constant, or last coefficient perturbed
    else x.concat(y).replaceAt(2 * DEG - 1, md(p[2 * DEG - 1] + r, P))
  }
  action loadSub = {
    nondet k = oneOf(0.to(NREG - 1))
    nondet c = oneOf(0.to(3))
    nondet m = oneOf(0.to(100000))
    nondet r = oneOf(0.to(SC - 1))
    val p = liftx(felt(r, m % 4))
    val v = if (c == 0) pmul(ORD, p) else if (c == 1) pmul(COF, p) else if (c == 2) pmul(COF / SMALLF, pmul(ORD, p)) else padd(pmul(COF / SMALLF, pmul(ORD, p)), G)
    setr(k, v, "load", [k, 1].concat(v), List())
  }
  action offCurve = {
    nondet k = oneOf(0.to(NREG - 1))
    nondet c = oneOf(0.to(9))
    nondet i = oneOf(0.to(NREG - 1))
    nondet r = oneOf(0.to(SC - 1))
    nondet z = oneOf(Set(1, 1, 2, r))
    val p = if (regs[i].length() == 0) G else regs[i]
    val v = twist(c, p, r)
    setr(k, v, "load", [k, if (z % P == 0) 1 else z % P].concat(v), List())
  }
  action member = {
    nondet k = oneOf(0.to(NREG - 1))
    val on = onCurve(regs[k])
    all { regs' = regs, ev' = { op: "member", a: [k], out: [b2i(on), if (not(on)) 2 else b2i(pmul(ORD, regs[k]) == O)] } }
  }
  action stepMember = any { load, loadSub, offCurve, offCurve, member, member, member, member }

  // --- invariants of the specification
  val closed = regs.indices().forall(i => onCurve(regs[i]))
  // toy instances: group laws for every pair and against every third point
  val curveInv = closed
  val toyLaws = {
    val p = regs[0]
    val q = regs[1]
    and {
      padd(p, q) == padd(q, p), padd(p, O) == p, padd(p, pneg(p)) == O,
      GPOW.indices().forall(i => padd(padd(p, q), GPOW[i]) == padd(p, padd(q, GPOW[i]))),
      onCurve(padd(p, q)),
    }
  }
  val toyMul = range(0, SC).foldl({ s: O, ok: true }, (t, i) => { s: padd(t.s, regs[0]), ok: t.ok and pmul(i, regs[0]) == t.s }).ok
  val toyOrder = pmul(ORD * COF, regs[0]) == O
  val toyInv = closed and toyLaws and toyMul and toyOrder
  // every pair of points
  action stepToy = {
    nondet a = oneOf(0.to(P - 1))
    nondet b = oneOf(0.to(P - 1))
    nondet c = oneOf(0.to(P - 1))
    nondet d = oneOf(0.to(P - 1))
    nondet e = oneOf(0.to(2))
    val p = if (e == 0) O else [a, b]
    val q = if (e == 1) O else [c, d]
    all { onCurve(p), onCurve(q), regs' = [p, q], ev' = { op: "pair", a: List(), out: List() } }
  }
}
