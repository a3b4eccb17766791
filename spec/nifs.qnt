// The folding verifier as a circuit over the base field of the curve, the hash that links steps, and the step circuit that
// uses both. Commitments are exponents of one generator together with their coordinates, which is what the circuit sees.
module stepcircuit {
  import arith.* from "./arith"
  const R: int  // order of the curve
  const P: int  // field of the circuit
  const CS: List[int]
  const B: List[int]
  const NR: int
  const G: List[int]
  import mimc(HP = P, HS = R, HC = CS).* from "./mimc"
  import ec(CP = P, KIND = 0, CB = B, CNR = NR).* from "./ec"

  type Relaxed = { cw: int, ce: int, u: int, x0: int, x1: int, cwp: List[int], cep: List[int] }
  type Plain = { cw: int, x0: int, x1: int, cwp: List[int] }
  var big: Relaxed  // the running instance
  var one: Plain    // the fresh instance
  var t: { e: int, p: List[int] } // the commitment to the cross term
  var ev: { op: str, a: List[int], out: List[int] }

  pure val M: int = mini(R, P)
  pure def pt(e: int): List[int] = pmul(md(e, R), G)
  pure def limbs(v: int): List[int] = digits(v, 2^64, 4)
  pure def items(i: Relaxed): List[int] = pointItems(i.cwp).concat(pointItems(i.cep)).append(md(i.u, P)).concat(limbs(i.x0)).concat(limbs(i.x1))
  pure def challenge(tp: List[int], i: Relaxed): int = low(oracle(pointItems(tp).concat(items(i))), 128)
  pure def hashOf(i: Relaxed, n: int, z0: List[int], zi: List[int]): int = low(oracle([md(n, P)].concat(z0).concat(zi).concat(items(i))), 252)
  pure def mk(cw: int, ce: int, u: int, x0: int, x1: int): Relaxed = { cw: md(cw, R), ce: md(ce, R), u: u, x0: x0, x1: x1, cwp: pt(cw), cep: pt(ce) }
  pure def foldOf(i: Relaxed, j: Plain, te: int, r: int): Relaxed =
    mk(i.cw + r * j.cw, i.ce + r * te, md(i.u + r, R), md(i.x0 + r * j.x0, R), md(i.x1 + r * j.x1, R))
  pure val EMPTYI: Relaxed = { cw: 0, ce: 0, u: 0, x0: 0, x1: 0, cwp: [], cep: [] }
  pure def relaxOf(j: Plain): Relaxed = { cw: j.cw, ce: 0, u: 1, x0: j.x0, x1: j.x1, cwp: j.cwp, cep: [] }
  // step functions on states of the circuit's field
  pure def apply(f: int, z: List[int]): List[int] =
    if (f == 0) z.indices().fold(z, (l, i) => l.replaceAt(i, md(z[i] * z[i] * z[i] + z[i] + 5, P)))
    else if (f == 1) z
    else if (f == 2) z.indices().fold(z, (l, i) => l.replaceAt(i, md(3 * z[i] + 7, P)))
    else if (z.length() < 2) z else z.slice(1, z.length()).append(md(z[0] * z[1], P))

  action init = all { big' = EMPTYI, one' = { cw: 0, x0: 0, x1: 0, cwp: [] }, t' = { e: 0, p: [] }, ev' = { op: "init", a: [], out: [] } }
  action go(b: Relaxed, o: Plain, c: int, op: str, a: List[int], out: List[int]): bool = all {
    big' = b, one' = o, t' = if (c == t.e) t else { e: md(c, R), p: pt(c) }, ev' = { op: op, a: a, out: out } }
  pure def scal(c: int, r: int, m: int): int = md(if (c == 0) 0 else if (c == 1) 1 else if (c == 2) -1 else if (c == 3) 2^64 - 1 else if (c == 4) 2^192 * (r % 2^60) else if (c == 5) 2^128 + r % 3 - 1 else r, m)
  pure def expo(c: int, r: int): int = if (c == 0) 0 else if (c == 1) 1 else if (c == 2) R - 1 else if (c == 3) 2 else r % R
  pure def nxt(s: int): int = (s * 6364136223846793005 + 1442695040888963407) % 2^330
  pure def rnd(s: int, i: int): int = range(0, i + 2).foldl(s + 7919 * i, (x, _j) => nxt(x)) / 2^20
  action setBig = {
    nondet c = oneOf(0.to(12)) nondet d = oneOf(0.to(12)) nondet s = oneOf(0.to(2^320)) nondet k = oneOf(0.to(5))
    val b = if (k == 0) EMPTYI else if (k == 1) relaxOf(one)
      else mk(expo(md(c * d, 7), rnd(s, 0)), if (k == 2) expo(md(c + d, 5), rnd(s, 0)) else expo(md(c + d, 9), rnd(s, 1)), scal(md(c + 2 * d, 9), rnd(s, 2), 2^200), scal(c, rnd(s, 3), R), scal(d, rnd(s, 4), R))
    go(b, one, t.e, "running", [], [])
  }
  action setOne = {
    nondet c = oneOf(0.to(12)) nondet d = oneOf(0.to(12)) nondet s = oneOf(0.to(2^320)) nondet k = oneOf(0.to(4))
    val e = if (k == 0) big.cw else if (k == 1) R - big.cw else expo(md(c * d, 7), rnd(s, 0))
    go(big, { cw: md(e, R), x0: scal(c, rnd(s, 1), M), x1: scal(d, rnd(s, 2), M), cwp: pt(e) }, t.e, "fresh", [], [])
  }
  action setT = { nondet c = oneOf(0.to(8)) nondet r = oneOf(0.to(R - 1)) go(big, one, expo(c, r), "cross", [], []) }
  action folding = {
    val r = challenge(t.p, big)
    go(foldOf(big, one, t.e, r), one, t.e, "fold", [], [r])
  }
  action relax = go(big, one, t.e, "relax", [], [])
  pure def zs(s: int, n: int): List[int] = range(0, n).foldl(List(), (l, i) => l.append(scal(rnd(s, i) % 14, rnd(s, i + 4), P)))
  action hashing = {
    nondet c = oneOf(0.to(5)) nondet s = oneOf(0.to(2^320)) nondet n0 = oneOf(0.to(3)) nondet n1 = oneOf(0.to(3))
    val i = if (c == 0) 0 else if (c == 1) 1 else if (c == 2) 2^64 - 1 else if (c == 3) 2^32 else s % 2^64
    val z0 = zs(s, n0) val zi = zs(s + 1, n1)
    go(big, one, t.e, "hash", [i, n0].concat(z0).concat(zi), [hashOf(big, i, z0, zi)])
  }
  // one step: whether the circuit is satisfied, its two public values, the next state
  pure def stepOf(primary: int, i: int, z0: List[int], zi: List[int], f: int, b: Relaxed, o: Plain, c: { e: int, p: List[int] }): List[int] = {
    val after = if (i != 0) foldOf(b, o, c.e, challenge(c.p, b)) else if (primary == 1) EMPTYI else relaxOf(o)
    val z = apply(f, if (i == 0) z0 else zi)
    [b2i(i == 0 or o.x0 == hashOf(b, i, z0, zi)), o.x1, hashOf(after, i + 1, z0, z)].concat(z)
  }
  action augmentAs(op: str, primary: int, i: int, s: int, n: int, given: int, f: int, ok: bool, lies: List[int]): bool = {
    val z0 = zs(s, n)
    val zi = if (given == 1) zs(s + 1, n) else z0
    val o = if (ok) one.with("x0", hashOf(big, i, z0, zi)) else one
    go(big, o, t.e, op, [primary, i, n, given, f].concat(z0).concat(zi).concat(lies), stepOf(primary, i, z0, zi, f, big, o, t))
  }
  action augment = {
    nondet primary = oneOf(0.to(1)) nondet c = oneOf(0.to(6)) nondet s = oneOf(0.to(2^320)) nondet n = oneOf(Set(1, 1, 1, 2)) nondet given = oneOf(0.to(3)) nondet f = oneOf(0.to(3)) nondet ok = oneOf(0.to(4))
    val i = if (c <= 1) 0 else if (c == 2) 1 else if (c == 3) 2 else if (c == 4) 2^64 - 1 else s % 2^64
    augmentAs("augment", primary, i, s, n, if (given > 0) 1 else 0, f, ok > 0, [])
  }
  action step = any { setBig, setOne, setT, folding, folding, relax, hashing, hashing }
  action stepAug = if (ev.op == "init") setBig else if (ev.op == "running") setOne else if (ev.op == "fresh") setT else if (ev.op == "augment") any { setBig, folding } else augment

  // ---- a prover that does not compute what it should ----
  pure def liesOf(seed: int, n: int): List[int] = range(0, n).foldl({ l: List(), s: seed }, (x, _i) => {
    val s = (x.s * 6364136223846793005 + 1442695040888963407) % 2^230
    { l: x.l.concat([s / 2^100 % 2^31, s / 2^80 % 6, s / 2^60 % 12, s % 2^60]), s: s } }).l
  action lieFold = {
    nondet s = oneOf(0.to(2^200))
    val r = challenge(t.p, big)
    val n = foldOf(big, one, t.e, r)
    go(n, one, t.e, "lie_fold", liesOf(s, 10), [r])
  }
  action lieHash = {
    nondet s = oneOf(0.to(2^320)) nondet l = oneOf(0.to(2^200))
    val z0 = zs(s, 1) val zi = zs(s + 1, 1)
    go(big, one, t.e, "lie_hash", [s % 2^64].concat(z0).concat(zi).concat(liesOf(l, 16)), [hashOf(big, s % 2^64, z0, zi)])
  }
  // states and instances are random here, so that they are told apart from everything else
  pure def zr(s: int): List[int] = [rnd(s, 9) % P]
  action lieStep = {
    nondet primary = oneOf(0.to(1)) nondet c = oneOf(0.to(2)) nondet s = oneOf(0.to(2^320)) nondet f = oneOf(Set(0, 2)) nondet l = oneOf(0.to(2^200))
    val i = if (c < 2) 0 else 1 + s % (2^64 - 1)
    val z0 = zr(s) val zi = zr(s + 1)
    val o = if (i == 0) one else one.with("x0", hashOf(big, i, z0, zi))
    go(big, o, t.e, "lie_augment", [primary, i, 1, 1, f].concat(z0).concat(zi).concat(liesOf(l, 8)), stepOf(primary, i, z0, zi, f, big, o, t))
  }
  // (coordinates that stand for the identity are not told apart by value, so it does not occur here)
  action rndAll = {
    nondet s = oneOf(0.to(2^320))
    go(mk(rnd(s, 0) % R, rnd(s, 1) % R, rnd(s, 2) % 2^200, rnd(s, 3) % R, rnd(s, 4) % R), { cw: rnd(s, 5) % R, x0: rnd(s, 6) % M, x1: rnd(s, 7) % M, cwp: pt(rnd(s, 5) % R) }, 1 + rnd(s, 8) % (R - 1), "random", [], [])
  }
  action stepLie = if (ev.op == "init" or ev.op == "lie_augment") rndAll else any { lieFold, lieHash, lieStep, lieStep, rndAll }
  // the edge cases are attacked too
  action stepLieFold = any { setBig, setOne, setT, lieFold, lieFold, lieHash }

  val stepInv = and {
    big.x0 < R, big.x1 < R, big.cwp == [] iff big.cw == 0, big.cep == [] iff big.ce == 0, onCurve(big.cwp), onCurve(big.cep), onCurve(one.cwp), onCurve(t.p),
    ev.op == "fold" implies ev.out[0] < 2^128,
    ev.op == "augment" implies (ev.a[1] == 0 implies ev.out[0] == 1),
  }
}
module nifs_gk {
  import mimcdata.* from "./mimcdata"
  import stepcircuit(R = 21888242871839275222246405745257275088696311157297823662689037894645226208583, P = 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    CS = MIMC_R, B = [21888242871839275222246405745257275088548364400416034343698204186575808495600], NR = 5,
    G = [1, 17631683881184975370165255887551781615748388533673675138860]).* from "./nifs"
}
module nifs_g1 {
  import mimcdata.* from "./mimcdata"
  import stepcircuit(P = 21888242871839275222246405745257275088696311157297823662689037894645226208583, R = 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    CS = MIMC_Q, B = [3], NR = 3, G = [1, 2]).* from "./nifs"
}
