// Rank-1 constraint systems as the builder constructs them: wires with values, linear combinations of wires held in
// registers, and rows A, B, C. A linear combination is a dense coefficient list over MX public wires (wire 0 is the
// constant one) followed by MW private wires.
module r1cs {
  import arith.* from "./arith"
  const RP: int
  const TOY: bool
  pure val MX = if (TOY) 2 else 5
  pure val MW = if (TOY) 1 else 7
  pure val MR = if (TOY) 1 else 14
  pure val NREG = if (TOY) 2 else 4
  pure val LEN = MX + MW
  pure val ZERO: List[int] = range(0, LEN).foldl(List(), (l, _i) => l.append(0))
  pure def unit(i: int, c: int): List[int] = ZERO.replaceAt(i, md(c, RP))
  pure def ladd(a: List[int], b: List[int]): List[int] = range(0, LEN).foldl(List(), (l, i) => l.append(md(a[i] + b[i], RP)))
  pure def lscale(a: List[int], k: int): List[int] = range(0, LEN).foldl(List(), (l, i) => l.append(md(a[i] * k, RP)))
  // value of a linear combination under an assignment (public values then private ones, padded with zeros)
  pure def leval(a: List[int], z: List[int]): int = md(range(0, LEN).foldl(0, (s, i) => s + a[i] * z[i]), RP)
  pure def pad(l: List[int], n: int): List[int] = range(0, n).foldl(List(), (m, i) => m.append(if (i < l.length()) l[i] else 0))
  type Row = { a: List[int], b: List[int], c: List[int] }
  pure def holds(r: Row, z: List[int]): bool = md(leval(r.a, z) * leval(r.b, z) - leval(r.c, z), RP) == 0
  // a linear combination that is a constant (only then may gadgets treat it as such)
  pure def isConst(a: List[int]): bool = 1.to(LEN - 1).forall(i => a[i] == 0)

  var xs: List[int]
  var ws: List[int]
  var rows: List[Row]
  var regs: List[List[int]]
  var ev: { op: str, a: List[int], out: List[int] }
  pure val REGS0: List[List[int]] = range(0, NREG).foldl(List(), (l, i) => l.append(unit(0, i)))
  pure val XS0: List[int] = [1]
  action init = all { xs' = XS0, ws' = List(), rows' = List(), regs' = REGS0, ev' = { op: "init", a: List(), out: List() } }
  val z = pad(xs, MX).concat(pad(ws, MW))
  action st(x: List[int], w: List[int], r: List[Row], g: List[List[int]], op: str, a: List[int], out: List[int]): bool = all {
    xs' = x, ws' = w, rows' = r, regs' = g, ev' = if (TOY) { op: "toy", a: List(), out: List() } else { op: op, a: a, out: out } }

  pure def val0(c: int, r: int): int = if (c == 0) r else if (c == 1) r % 4 else if (c == 2) RP - 1 - r % 3 else 0
  action reset = st(XS0, List(), List(), REGS0, "reset", List(), List())
  action alloc = {
    nondet pub = oneOf(0.to(1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet c = oneOf(0.to(3))
    nondet r = oneOf(0.to(RP - 1))
    val v = val0(c, r)
    all {
      if (pub == 1) xs.length() < MX else ws.length() < MW,
      st(if (pub == 1) xs.append(v) else xs, if (pub == 1) ws else ws.append(v), rows,
        regs.replaceAt(k, unit(if (pub == 1) xs.length() else MX + ws.length(), 1)), "alloc", [k, pub, v], List()),
    }
  }
  action wire = {
    nondet k = oneOf(0.to(NREG - 1))
    nondet i = oneOf(0.to(LEN - 1))
    all { if (i < MX) i < xs.length() else i - MX < ws.length(), st(xs, ws, rows, regs.replaceAt(k, unit(i, 1)), "wire", [k, b2i(i < MX), if (i < MX) i else i - MX], List()) }
  }
  action konst = {
    nondet k = oneOf(0.to(NREG - 1))
    nondet c = oneOf(0.to(3))
    nondet r = oneOf(0.to(RP - 1))
    st(xs, ws, rows, regs.replaceAt(k, unit(0, val0(c, r))), "const", [k, val0(c, r)], List())
  }
  // f: by-value and by-reference spellings, on rows or on field assignments
  action lin = {
    nondet op = oneOf(Set("ladd", "lsub", "lneg", "lmul"))
    nondet k = oneOf(0.to(NREG - 1))
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    nondet c = oneOf(0.to(3))
    nondet r = oneOf(0.to(RP - 1))
    nondet f = oneOf(0.to(if (TOY) 0 else 5))
    val v = if (op == "ladd") ladd(regs[i], regs[j]) else if (op == "lsub") ladd(regs[i], lscale(regs[j], -1))
            else if (op == "lneg") lscale(regs[i], -1) else lscale(regs[i], val0(c, r))
    st(xs, ws, rows, regs.replaceAt(k, v), op, [k, i, j, f, val0(c, r)], List())
  }
  pure def rowOf(op: int, x: List[int], y: List[int], w: List[int]): Row =
    if (op == 0) { a: x, b: y, c: w }
    else if (op == 1) { a: ladd(x, y), b: unit(0, 1), c: w }
    else if (op == 2) { a: ladd(x, lscale(y, -1)), b: unit(0, 1), c: w }
    else { a: x, b: unit(0, 1), c: y }
  action gate = {
    nondet op = oneOf(0.to(3))
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    nondet l = oneOf(0.to(NREG - 1))
    all { rows.length() < MR, st(xs, ws, rows.append(rowOf(op, regs[i], regs[j], regs[l])), regs, "gate", [op, i, j, l], List()) }
  }
  // a gate whose output wire is allocated with the value that satisfies it
  action gateHold = {
    nondet op = oneOf(0.to(2))
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet pub = oneOf(0.to(1))
    val x = leval(regs[i], z)
    val y = leval(regs[j], z)
    val v = md(if (op == 0) x * y else if (op == 1) x + y else x - y, RP)
    val u = unit(if (pub == 1) xs.length() else MX + ws.length(), 1)
    all {
      rows.length() < MR, if (pub == 1) xs.length() < MX else ws.length() < MW,
      st(if (pub == 1) xs.append(v) else xs, if (pub == 1) ws else ws.append(v), rows.append(rowOf(op, regs[i], regs[j], u)), regs.replaceAt(k, u),
        "gatehold", [k, op, i, j, pub, v], List()),
    }
  }
  action evalLc = {
    nondet i = oneOf(0.to(NREG - 1))
    st(xs, ws, rows, regs, "eval", [i], [leval(regs[i], z), b2i(isConst(regs[i]))])
  }
  action isSat = st(xs, ws, rows, regs, "sat", List(), [b2i(rows.indices().forall(i => holds(rows[i], z))), xs.length(), ws.length(), rows.length()])
  // the matrices applied to another assignment, close to the current one: which rows hold
  action view = {
    nondet i = oneOf(0.to(LEN - 1))
    nondet c = oneOf(0.to(3))
    nondet r = oneOf(0.to(RP - 1))
    nondet all0 = oneOf(0.to(3))
    val zz = if (all0 == 0) range(0, LEN).foldl(List(), (l, t) => l.append(md(r * (t + 1) + c * t * t, RP))) else z.replaceAt(i, md(z[i] + val0(c, r), RP))
    val z2 = zz.slice(0, xs.length()).concat(zz.slice(MX, MX + ws.length()))
    val zp = pad(zz.slice(0, xs.length()), MX).concat(pad(zz.slice(MX, MX + ws.length()), MW))
    st(xs, ws, rows, regs, "view", z2, rows.foldl(List(), (l, t) => l.append(b2i(holds(t, zp)))))
  }
  action step = any { reset, alloc, alloc, wire, konst, lin, lin, lin, gate, gateHold, gateHold, gateHold, evalLc, isSat, isSat, view, view }

  // satisfied gates never make a satisfied system unsatisfied; coefficients stay reduced
  val rcsInv = and {
    regs.indices().forall(i => regs[i].length() == LEN and regs[i].indices().forall(j => 0 <= regs[i][j] and regs[i][j] < RP)),
    xs[0] == 1, xs.length() <= MX, ws.length() <= MW,
  }
  // toy: evaluation is linear in the registers and in the assignment
  val toyInv = and {
    rcsInv,
    leval(ladd(regs[0], regs[1]), z) == md(leval(regs[0], z) + leval(regs[1], z), RP),
    0.to(RP - 1).forall(k => leval(lscale(regs[0], k), z) == md(k * leval(regs[0], z), RP)),
    ladd(regs[0], lscale(regs[0], -1)) == ZERO,
  }
  action stepToy = any { alloc, wire, konst, lin }
}
module r1cs_fr { import r1cs(RP = 21888242871839275222246405745257275088548364400416034343698204186575808495617, TOY = false).* from "./r1cs" }
module r1cs_fq { import r1cs(RP = 21888242871839275222246405745257275088696311157297823662689037894645226208583, TOY = false).* from "./r1cs" }
module r1cs_t3 { import r1cs(RP = 3, TOY = true).* from "./r1cs" }
