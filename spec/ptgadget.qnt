// Curve points carried by circuit wires (the curve's base field is the circuit's field): registers of points, bit
// registers, and whether every assertion made so far is true.
module ptgadget {
  import arith.* from "./arith"
  const P: int
  const B: List[int]
  const NR: int
  const ORD: int
  const G: List[int]
  import ec(CP = P, KIND = 0, CB = B, CNR = NR).* from "./ec"

  pure val NREG = 4
  pure val GPOW: List[List[int]] = range(0, 9).foldl(List(), (l, i) => l.append(pmul(i, G)))
  pure val SCALARS: List[int] = [0, 1, 2, 3, 4, 5, 8, 15, 16, 17, P - 1, P - 2, (P - 1) / 2, (P + 1) / 2, ORD % P, (ORD - 1) % P, (ORD + 1) % P,
    2^64 - 1, 2^64, 2^128 - 1, 2^128, 2^192, 2^253, 2^253 - 1, (2^254 - 1) / 3, (2^64 - 1) * 2^64]
  var regs: List[List[int]]
  var bits: List[int]
  var sat: bool
  var cost: int
  var ev: { op: str, a: List[int], out: List[int] }
  pure val R0: List[List[int]] = [O, G, O, G]
  pure val B0: List[int] = [0, 1]
  action init = all { regs' = R0, bits' = B0, sat' = true, cost' = 0, ev' = { op: "init", a: List(), out: List() } }
  action st(r: List[List[int]], b: List[int], s: bool, c: int, op: str, a: List[int], out: List[int]): bool = all {
    regs' = r, bits' = b, sat' = s, cost' = cost + c, ev' = { op: op, a: a, out: out } }
  action reset = st(R0, B0, true, -cost, "reset", List(), List())
  pure def gen(c: int, r: int, m: int): List[int] =
    if (c == 0) O
    else if (c == 1) GPOW[m % 9]
    else if (c == 2) pneg(GPOW[m % 9])
    else if (c == 3) pmul(r, G)
    else if (c == 4) liftx([md(r, P)])
    else liftx([m % 50])
  // how: 0 public, 1 private, 2 private with another scale is not offered by the interface; identity constant when c = 0
  action load = {
    nondet how = oneOf(Set("pinst", "pwit", "pid"))
    nondet k = oneOf(0.to(NREG - 1))
    nondet c = oneOf(0.to(5))
    nondet r = oneOf(0.to(P - 1))
    nondet m = oneOf(0.to(10000))
    val v = if (how == "pid") O else gen(c, r, m)
    st(regs.replaceAt(k, v), bits, sat, 1, how, [k].concat(v), List())
  }
  // a fresh public or private point related to a register: the same, opposite, double, its translate by the generator
  action related = {
    nondet how = oneOf(Set("pinst", "pwit"))
    nondet k = oneOf(0.to(NREG - 1))
    nondet i = oneOf(0.to(NREG - 1))
    nondet c = oneOf(0.to(4))
    val p = regs[i]
    val v = if (c == 0) p else if (c == 1) pneg(p) else if (c == 2) padd(p, p) else if (c == 3) padd(p, G) else pneg(padd(p, p))
    st(regs.replaceAt(k, v), bits, sat, 1, how, [k].concat(v), List())
  }
  action bit = {
    nondet k = oneOf(0.to(1))
    nondet b = oneOf(0.to(1))
    nondet how = oneOf(0.to(1))
    st(regs, bits.replaceAt(k, b), sat, 1, "bit", [k, b, how], List())
  }
  action group = {
    nondet op = oneOf(Set("padd", "padd", "pdbl"))
    nondet k = oneOf(0.to(NREG - 1))
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    st(regs.replaceAt(k, if (op == "padd") padd(regs[i], regs[j]) else padd(regs[i], regs[i])), bits, sat, 15, op, [k, i, j], List())
  }
  action mulAct = {
    nondet k = oneOf(0.to(NREG - 1))
    nondet i = oneOf(0.to(NREG - 1))
    nondet c = oneOf(0.to(2))
    nondet r = oneOf(0.to(P - 1))
    nondet m = oneOf(0.to(10000))
    nondet how = oneOf(0.to(1))
    val s = if (c == 0) r else SCALARS[m % SCALARS.length()]
    all { cost < 6000, st(regs.replaceAt(k, pmul(s, regs[i])), bits, sat, 8000, "pmul", [k, i, how, s], List()) }
  }
  action selectPt = {
    nondet op = oneOf(Set("pcsel", "pselid"))
    nondet k = oneOf(0.to(NREG - 1))
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    nondet b = oneOf(0.to(1))
    val v = if (op == "pcsel") (if (bits[b] == 1) regs[i] else regs[j]) else (if (bits[b] == 1) regs[i] else O)
    st(regs.replaceAt(k, v), bits, sat, 6, op, [k, i, j, b], List())
  }
  action descale = {
    nondet k = oneOf(0.to(NREG - 1))
    nondet i = oneOf(0.to(NREG - 1))
    st(regs.replaceAt(k, regs[i]), bits, sat, 12, "descale", [k, i], List())
  }
  // against a public point given in projective coordinates with scale z
  action assertPt = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet c = oneOf(0.to(7))
    nondet z = oneOf(Set(1, 2, P - 1))
    val p = regs[i]
    val v = if (c == 6) pneg(p) else if (c == 7) padd(p, G) else if (c == 5) (if (p == O) G else O) else p
    st(regs, bits, sat and v == p, 4, "passert", [i, z].concat(v), List())
  }
  action check = st(regs, bits, sat, 0, "sat", List(), [b2i(sat)])
  action step = if (not(sat) and ev.op != "sat") check else if (not(sat) or cost > 9000) reset
    else any { reset, load, load, related, related, bit, group, group, group, mulAct, selectPt, selectPt, descale, assertPt, check, check }
  val ptInv = and { regs.indices().forall(i => onCurve(regs[i])), bits.indices().forall(i => bits[i] == 0 or bits[i] == 1) }
}
module ptgadget_g1 { import ptgadget(P = 21888242871839275222246405745257275088696311157297823662689037894645226208583, B = [3], NR = 3,
  ORD = 21888242871839275222246405745257275088548364400416034343698204186575808495617, G = [1, 2]).* from "./ptgadget" }
module ptgadget_gk { import ptgadget(P = 21888242871839275222246405745257275088548364400416034343698204186575808495617,
  B = [21888242871839275222246405745257275088548364400416034343698204186575808495600], NR = 5,
  ORD = 21888242871839275222246405745257275088696311157297823662689037894645226208583,
  G = [1, 17631683881184975370165255887551781615748388533673675138860]).* from "./ptgadget" }
