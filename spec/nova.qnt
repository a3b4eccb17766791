// Folding of R1CS instances. A session fixes a circuit and a list of commitment generators (known multiples of one
// generator), holds plain and relaxed instance-witness pairs, folds them, and asks whether they satisfy the circuit.
module folding {
  import arith.* from "./arith"
  const R: int  // circuit field = order of the curve
  const P: int  // base field of the curve = field of the transcript
  const CS: List[int]
  const B: List[int]
  const NR: int
  const G: List[int]
  const TOY: bool
  import progs(PR = R).* from "./progs"
  import mimc(HP = P, HS = R, HC = CS).* from "./mimc"
  import ec(CP = P, KIND = 0, CB = B, CNR = NR).* from "./ec"

  // commitments are exponents; cwp, cep, their coordinates (the transcript absorbs coordinates)
  type Plain = { x: List[int], w: List[int], cw: int, cwp: List[int] }
  type Relaxed = { x: List[int], w: List[int], e: List[int], u: int, cw: int, ce: int, cwp: List[int], cep: List[int] }
  var prog: Prog
  var ck: List[int]
  var plain: List[Plain]
  var relaxed: List[Relaxed]
  var truth: { plain: List[bool], relaxed: List[bool] } // whether each pair satisfies the circuit, commitments included
  var ev: { op: str, a: List[int], out: List[int] }

  pure def pt(e: int): List[int] = if (TOY) [] else pmul(md(e, R), G)
  pure def dot(a: List[int], b: List[int]): int = md(range(0, mini(a.length(), b.length())).foldl(0, (s, i) => s + a[i] * b[i]), R)
  pure def commit(g: List[int], v: List[int]): int = dot(v, g)
  pure def axpy(a: List[int], r: int, b: List[int]): List[int] = range(0, a.length()).foldl(List(), (l, i) => l.append(md(a[i] + r * b[i], R)))
  pure def nx(p: Prog): int = ofKind(p, 0).length() - 1
  pure def nw(p: Prog): int = ofKind(p, 1).length()
  // the wires of a pair, the constant wire carrying u
  pure def zvec(p: Prog, u: int, x: List[int], w: List[int]): List[int] =
    range(1, p.kinds.length()).foldl({ z: [u], i: 0, j: 0 }, (s, k) =>
      if (p.kinds[k] == 0) { z: s.z.append(x[s.i]), i: s.i + 1, j: s.j } else { z: s.z.append(w[s.j]), i: s.i, j: s.j + 1 }).z
  pure def mv(p: Prog, k: int, z: List[int]): List[int] = p.rows.foldl(List(), (l, r) => l.append(lc(r[k], z)))
  pure def rowsHold(p: Prog, u: int, x: List[int], w: List[int], e: List[int]): bool = {
    val z = zvec(p, u, x, w)
    val a = mv(p, 0, z) val b = mv(p, 1, z) val c = mv(p, 2, z)
    p.rows.indices().forall(i => md(a[i] * b[i] - u * c[i] - e[i], R) == 0)
  }
  pure def zeros(n: int): List[int] = range(0, n).foldl(List(), (l, _i) => l.append(0))
  // a vector of rows that the relaxed equation leaves over: what e has to be
  pure def rest(p: Prog, u: int, x: List[int], w: List[int]): List[int] = {
    val z = zvec(p, u, x, w)
    val a = mv(p, 0, z) val b = mv(p, 1, z) val c = mv(p, 2, z)
    range(0, p.rows.length()).foldl(List(), (l, i) => l.append(md(a[i] * b[i] - u * c[i], R)))
  }
  pure def sized(p: Prog, x: List[int], w: List[int]): bool = x.length() == nx(p) and w.length() == nw(p)
  // what the two satisfaction checks decide
  pure def satPlain(p: Prog, g: List[int], i: Plain): bool = sized(p, i.x, i.w) and i.cw == commit(g, i.w) and rowsHold(p, 1, i.x, i.w, zeros(p.rows.length()))
  pure def satRelaxed(p: Prog, i: Relaxed): bool = sized(p, i.x, i.w) and i.e.length() == p.rows.length() and rowsHold(p, i.u, i.x, i.w, i.e)
  pure def opens(g: List[int], i: Relaxed): bool = i.cw == commit(g, i.w) and i.ce == commit(g, i.e)

  // ---- folding ----
  pure def crossTerm(p: Prog, i: Relaxed, j: Plain): List[int] = {
    val z1 = zvec(p, i.u, i.x, i.w)
    val z2 = zvec(p, 1, j.x, j.w)
    val a1 = mv(p, 0, z1) val b1 = mv(p, 1, z1) val c1 = mv(p, 2, z1)
    val a2 = mv(p, 0, z2) val b2 = mv(p, 1, z2) val c2 = mv(p, 2, z2)
    range(0, p.rows.length()).foldl(List(), (l, k) => l.append(md(a1[k] * b2[k] + a2[k] * b1[k] - i.u * c2[k] - c1[k], R)))
  }
  pure def instanceItems(cwp: List[int], cep: List[int], u: int, x: List[int]): List[int] =
    pointItems(cwp).concat(pointItems(cep)).append(md(u, P)).concat(x.foldl(List(), (l, v) => l.concat(digits(v, 2^64, 4))))
  pure def challenge(tp: List[int], i: Relaxed): int = low(oracle(pointItems(tp).concat(instanceItems(i.cwp, i.cep, i.u, i.x))), 128)
  pure def foldWith(i: Relaxed, j: Plain, t: List[int], ct: int, r: int): Relaxed = {
    val cw = md(i.cw + r * j.cw, R)
    val ce = md(i.ce + r * ct, R)
    { x: axpy(i.x, r, j.x), w: axpy(i.w, r, j.w), e: axpy(i.e, r, t), u: md(i.u + r, R), cw: cw, ce: ce, cwp: pt(cw), cep: pt(ce) }
  }

  // ---- sessions ----
  pure val NOP: Plain = { x: [], w: [], cw: 0, cwp: [] }
  pure val NOR: Relaxed = { x: [], w: [], e: [], u: 0, cw: 0, ce: 0, cwp: [], cep: [] }
  pure def rnd(seed: int, i: int): int = {
    val x = range(0, 3).foldl(seed + 7919 * (i + 1), (s, j) => (s * 6364136223846793005 + 1442695040888963407 + j) % 2^270)
    if (x / 2^200 % 11 == 0) x % 3 else if (x / 2^200 % 11 == 1) R - 1 - x % 3 else x / 8 % R
  }
  pure def big(seed: int, i: int): int = md(range(0, 4).foldl(seed + 104729 * (i + 1), (s, j) => (s * 6364136223846793005 + 3037000493 + j) % 2^300) / 2^8, R - 3) + 2
  pure def logUp(n: int): int = Set(0, 1, 2, 3, 4, 5, 6).filter(k => 2^k >= n).fold(6, (a, k) => mini(a, k))
  pure def dummy(p: Prog): Relaxed = { x: zeros(nx(p)), w: zeros(nw(p)), e: zeros(p.rows.length()), u: 0, cw: 0, ce: 0, cwp: [], cep: [] }
  pure def honestWires(p: Prog, s: int): List[int] = wires(p, range(0, p.kinds.length()).foldl(List(), (l, i) => l.append(rnd(s, i))))
  pure def pairOf(p: Prog, g: List[int], z: List[int]): Plain = {
    val w = ofKind(p, 1).foldl(List(), (l, k) => l.append(z[k]))
    val cw = commit(g, w)
    { x: pubOf(p, z), w: w, cw: cw, cwp: pt(cw) }
  }
  action init = all { prog' = EMPTY, ck' = [], plain' = [NOP, NOP], relaxed' = [NOR, NOR], truth' = { plain: [true, true], relaxed: [true, true] },
    ev' = { op: "init", a: [], out: [] } }
  action keepAll(op: str, a: List[int], out: List[int]): bool = all {
    prog' = prog, ck' = ck, plain' = plain, relaxed' = relaxed, truth' = truth, ev' = { op: op, a: a, out: out } }
  action begin(p: Prog, s: int): bool = {
    val n = maxi(p.rows.length(), nw(p))
    val g = range(0, 2^(logUp(n)) + 1).foldl(List(), (l, i) => l.append(big(s, i)))
    val q = pairOf(p, g, honestWires(p, s + 1))
    all { prog' = p, ck' = g, plain' = [q, q], relaxed' = [dummy(p), dummy(p)], truth' = { plain: [true, true], relaxed: [true, true] },
      ev' = { op: "shape", a: [], out: [] } }
  }
  action shape = { nondet s = oneOf(0.to(2^48)) nondet n = oneOf(1.to(12)) begin(gen(s, n), s) }
  action setPlain(k: int, q: Plain, op: str, a: List[int]): bool = all {
    prog' = prog, ck' = ck, plain' = plain.replaceAt(k, q), relaxed' = relaxed,
    truth' = truth.with("plain", truth.plain.replaceAt(k, satPlain(prog, ck, q))), ev' = { op: op, a: [k].concat(a), out: [] } }
  action setRelaxed(k: int, q: Relaxed, op: str, a: List[int], out: List[int]): bool = all {
    prog' = prog, ck' = ck, plain' = plain, relaxed' = relaxed.replaceAt(k, q),
    truth' = truth.with("relaxed", truth.relaxed.replaceAt(k, satRelaxed(prog, q) and opens(ck, q))), ev' = { op: op, a: [k].concat(a), out: out } }
  action honest = {
    nondet k = oneOf(Set(0, 1)) nondet s = oneOf(0.to(2^48))
    val z = honestWires(prog, s)
    all { holds(prog, z), setPlain(k, pairOf(prog, ck, z), "plain", z) }
  }
  // one wire off: usually some row fails
  action dishonest = {
    nondet k = oneOf(Set(0, 1)) nondet s = oneOf(0.to(2^48)) nondet i = oneOf(1.to(maxi(1, prog.kinds.length() - 1))) nondet d = oneOf(Set(1, R - 1, R / 2))
    val z = honestWires(prog, s)
    all { prog.kinds.length() > 1, setPlain(k, pairOf(prog, ck, z.replaceAt(i, md(z[i] + d, R))), "plain", z.replaceAt(i, md(z[i] + d, R))) }
  }
  pure def bump(l: List[int], i: int): List[int] = if (l.length() == 0) l else l.replaceAt(i % l.length(), md(l[i % l.length()] + 1, R))
  pure def shorter(l: List[int]): List[int] = if (l.length() == 0) l else l.slice(0, l.length() - 1)
  action spoilPlain = {
    nondet k = oneOf(Set(0, 1)) nondet how = oneOf(0.to(7)) nondet i = oneOf(0.to(30))
    val q = plain[k]
    val n = if (how == 0) q.with("x", bump(q.x, i)) else if (how == 1) q.with("w", bump(q.w, i)) else if (how == 2) q.with("cw", md(q.cw + 1, R)).with("cwp", pt(q.cw + 1))
      else if (how == 3) q.with("x", shorter(q.x)) else if (how == 4) q.with("x", q.x.append(0)) else if (how == 5) q.with("w", shorter(q.w))
      else if (how == 6) q.with("w", q.w.append(0)) else q.with("cw", 0).with("cwp", [])
    setPlain(k, n, "spoil", [n.cw])
  }
  action relax = {
    nondet k = oneOf(Set(0, 1)) nondet i = oneOf(Set(0, 1).filter(j => sized(prog, plain[j].x, plain[j].w)))
    val q = plain[i]
    setRelaxed(k, { x: q.x, w: q.w, e: zeros(prog.rows.length()), u: 1, cw: q.cw, ce: 0, cwp: q.cwp, cep: [] }, "relax", [i], [])
  }
  action empty = { nondet k = oneOf(Set(0, 1)) setRelaxed(k, dummy(prog), "dummy", [], []) }
  // any relaxed pair whose error vector is what is left over satisfies the circuit
  action arbitrary = {
    nondet k = oneOf(Set(0, 1)) nondet s = oneOf(0.to(2^48)) nondet u = oneOf(Set(0, 1, 2, R - 1, R / 3)) nondet d = oneOf(0.to(3))
    val x = range(0, nx(prog)).foldl(List(), (l, i) => l.append(rnd(s, i)))
    val w = range(0, nw(prog)).foldl(List(), (l, i) => l.append(rnd(s, 100 + i)))
    val e0 = rest(prog, u, x, w)
    val e = if (d == 0) bump(e0, s % 50) else e0
    setRelaxed(k, { x: x, w: w, e: e, u: u, cw: commit(ck, w), ce: commit(ck, e), cwp: pt(commit(ck, w)), cep: pt(commit(ck, e)) }, "load", [], [])
  }
  action spoilRelaxed = {
    nondet k = oneOf(Set(0, 1)) nondet how = oneOf(0.to(11)) nondet i = oneOf(0.to(30))
    val q = relaxed[k]
    val n = if (how == 0) q.with("x", bump(q.x, i)) else if (how == 1) q.with("w", bump(q.w, i)) else if (how == 2) q.with("e", bump(q.e, i))
      else if (how == 3) q.with("u", md(q.u + 1, R)) else if (how == 4) q.with("x", shorter(q.x)) else if (how == 5) q.with("x", q.x.append(0))
      else if (how == 6) q.with("w", shorter(q.w)) else if (how == 7) q.with("w", q.w.append(0)) else if (how == 8) q.with("e", shorter(q.e))
      else if (how == 9) q.with("e", q.e.append(0)) else if (how == 10) q.with("u", 0) else q.with("u", md(-q.u, R))
    setRelaxed(k, n, "load", [], [])
  }
  def foldable(i: int, j: int): bool = sized(prog, relaxed[i].x, relaxed[i].w) and relaxed[i].e.length() == prog.rows.length() and sized(prog, plain[j].x, plain[j].w)
  def folds: Set[(int, int)] = tuples(Set(0, 1), Set(0, 1)).filter(p => foldable(p._1, p._2))
  action fold1(i: int, j: int): bool = {
    val t = crossTerm(prog, relaxed[i], plain[j])
    val ct = commit(ck, t)
    val r = challenge(pt(ct), relaxed[i])
    setRelaxed(i, foldWith(relaxed[i], plain[j], t, ct, r), "fold", [j, ct, r].concat(t), [b2i(truth.relaxed[i])])
  }
  action foldAny = { nondet p = oneOf(folds) fold1(p._1, p._2) }
  // the verifier alone, given any cross-term commitment
  action verifyOnly = {
    nondet p = oneOf(folds) nondet c = oneOf(0.to(4)) nondet s = oneOf(0.to(2^48))
    val i = p._1
    val ct = if (c == 0) 0 else if (c == 1) relaxed[i].ce else if (c == 2) 1 else big(s, 1)
    val r = challenge(pt(ct), relaxed[i])
    val n = foldWith(relaxed[i], plain[p._2], zeros(prog.rows.length()), ct, r)
    keepAll("verify", [i, p._2, ct], [n.u].concat(pointItems(n.cwp)).concat(pointItems(n.cep)).concat(n.x))
  }
  action askPlain = { nondet k = oneOf(Set(0, 1)) keepAll("satplain", [k], [b2i(satPlain(prog, ck, plain[k]))]) }
  action askRelaxed = { nondet k = oneOf(Set(0, 1)) keepAll("satrelaxed", [k], [b2i(satRelaxed(prog, relaxed[k]))]) }
  // commitments to arbitrary vectors no longer than the key
  action commitAny = {
    nondet n = oneOf(0.to(ck.length())) nondet s = oneOf(0.to(2^48)) nondet c = oneOf(0.to(5))
    val v = range(0, n).foldl(List(), (l, i) => l.append(if (c == 0) 0 else if (c == 1) b2i(i == s % 16) else if (c == 2) R - 1 else rnd(s, i)))
    keepAll("commit", v, pt(commit(ck, v)))
  }
  // two vectors and a scalar
  action linear = {
    nondet n = oneOf(0.to(ck.length())) nondet s = oneOf(0.to(2^48)) nondet m = oneOf(0.to(ck.length()))
    val a = range(0, n).foldl(List(), (l, i) => l.append(rnd(s, i)))
    val b = range(0, m).foldl(List(), (l, i) => l.append(rnd(s, 50 + i)))
    val r = rnd(s, 99)
    keepAll("linear", [n, m, r].concat(a).concat(b), pt(commit(ck, a) + r * commit(ck, b)))
  }

  // An adversary who fixes the cross-term commitment first, learns the challenge, and only then picks the plain pair. With
  // the empty running pair a fold of a pair that leaves d * v over satisfies the circuit when the error vector carries
  // r * d * v; the scheme is only sound if the challenge depends on the plain instance, so that the pair cannot be picked late.
  action late = {
    nondet s = oneOf(0.to(2^48)) nondet i = oneOf(range(1, prog.kinds.length()).foldl(Set(), (o, x) => if (prog.defs[x].length() > 0) o.union(Set(x)) else o))
    val k = big(s, 7)
    val fr = range(0, prog.kinds.length()).foldl(List(), (l, j) => l.append(rnd(s, j)))
    def off(d: int): List[int] = range(1, prog.kinds.length()).foldl([1], (z, w) =>
      z.append(if (prog.defs[w].length() == 0) fr[w] else md(lc(prog.defs[w][0], z) * lc(prog.defs[w][1], z) - (if (w == i) d else 0), R)))
    def left(d: int): List[int] = { val q = pairOf(prog, ck, off(d)) rest(prog, 1, q.x, q.w) }
    val v = left(1)
    val t = v.foldl(List(), (l, x) => l.append(md(k * x, R)))
    val ct = commit(ck, t)
    val r = challenge(pt(ct), dummy(prog))
    val d = md(k * inv(r, R), R)
    val q = pairOf(prog, ck, off(d))
    all { prog' = prog, ck' = ck, plain' = plain.replaceAt(0, q), relaxed' = relaxed.replaceAt(0, dummy(prog)),
          truth' = { plain: truth.plain.replaceAt(0, satPlain(prog, ck, q)), relaxed: truth.relaxed.replaceAt(0, true) },
          ev' = { op: "late", a: [ct].concat(t), out: [] } }
  }
  def products: bool = prog.defs.indices().exists(i => prog.defs[i].length() > 0)
  action stepLate = if (prog.rows.length() == 0 or not(products) or ev.op == "late") shape else late
  action genkey = { nondet k = oneOf(0.to(4)) nondet s = oneOf(0.to(2^40)) keepAll("genkey", [k, s], [2^k + 1]) }

  action stepHonest = if (prog.rows.length() == 0) shape
    else any { shape, honest, honest, relax, empty, foldAny, foldAny, foldAny, foldAny, foldAny, verifyOnly, askPlain, askRelaxed, askRelaxed, askRelaxed }
  action step = if (prog.rows.length() == 0) shape
    else if (folds == Set()) any { honest, relax, empty, arbitrary, askPlain, askRelaxed, shape }
    else any { shape, honest, dishonest, dishonest, spoilPlain, relax, empty, arbitrary, arbitrary, spoilRelaxed, spoilRelaxed, foldAny, foldAny, foldAny, verifyOnly,
               askPlain, askPlain, askRelaxed, askRelaxed, askRelaxed }
  action stepCommit = if (ck.length() == 0) shape else any { shape, commitAny, commitAny, commitAny, linear, linear, genkey }

  val honestInv = truth.plain.indices().forall(k => truth.plain[k]) and truth.relaxed.indices().forall(k => truth.relaxed[k])
  // the cached coordinates are those of the exponents, and the generators are distinct
  val sane = and {
    relaxed.indices().forall(k => (relaxed[k].cwp == []) == (relaxed[k].cw == 0) and (relaxed[k].cep == []) == (relaxed[k].ce == 0)),
    ck.indices().forall(i => ck[i] != 0 and ck.indices().forall(j => i == j or ck[i] != ck[j])),
  }
  // a fold of pairs of which one is not satisfied, or does not open, is not satisfied
  val foldInv = sane and (ev.op == "fold" implies truth.relaxed[ev.a[0]] == (ev.out[0] == 1 and truth.plain[ev.a[1]]))

  // ---- every pair of pairs over a small field, for the circuit x * x = y with y private ----
  pure val SQUARE: Prog = { kinds: [0, 0, 1], defs: [[], [], [[1, 1], [1, 1]]], rows: [[[1, 1], [1, 1], [2, 1]]] }
  action initToy = all { prog' = SQUARE, ck' = [1, 2], plain' = [NOP, NOP], relaxed' = [NOR, NOR], truth' = { plain: [], relaxed: [] }, ev' = { op: "", a: [], out: [] } }
  action stepToy = if (plain.length() == 1) keepAll("", [], []) else pickToy
  action pickToy = {
    nondet x1 = oneOf(0.to(R - 1)) nondet w1 = oneOf(0.to(R - 1)) nondet e1 = oneOf(0.to(R - 1)) nondet u1 = oneOf(0.to(R - 1))
    nondet x2 = oneOf(0.to(R - 1)) nondet w2 = oneOf(0.to(R - 1))
    all { prog' = prog, ck' = ck, truth' = truth, ev' = ev,
      plain' = [{ x: [x2], w: [w2], cw: md(w2, R), cwp: [] }], relaxed' = [{ x: [x1], w: [w1], e: [e1], u: u1, cw: md(w1, R), ce: md(e1, R), cwp: [], cep: [] }] }
  }
  // folding is complete for every challenge; with an unsatisfied pair at most two challenges go wrong
  val toyInv = plain.length() == 2 or {
    val i = relaxed[0] val j = plain[0]
    val t = crossTerm(prog, i, j)
    val good = 0.to(R - 1).filter(r => satRelaxed(prog, foldWith(i, j, t, commit(ck, t), r)))
    and {
      0.to(R - 1).forall(r => opens(ck, foldWith(i, j, t, commit(ck, t), r))),
      if (satRelaxed(prog, i) and satPlain(prog, ck, j)) good == 0.to(R - 1) else good.size() <= 2,
      // whatever cross term is claimed, a pair fixed before the challenge fails for all but two of them
      0.to(R - 1).forall(c => satPlain(prog, ck, j) or 0.to(R - 1).filter(r => satRelaxed(prog, foldWith(i, j, [c], c, r))).size() <= 2),
      // but for every challenge some unsatisfied pair passes: the pair must be fixed first
      u1zero(i) implies 1.to(R - 1).forall(r => 1.to(R - 1).exists(c => 0.to(R - 1).exists(w =>
        md(w - j.x[0] * j.x[0], R) != 0 and satRelaxed(prog, foldWith(i, { x: j.x, w: [w], cw: w, cwp: [] }, [c], c, r))))),
    }
  }
  pure def u1zero(i: Relaxed): bool = i.u == 0 and i.x == [0] and i.w == [0] and i.e == [0]
}
module fold_gk {
  import mimcdata.* from "./mimcdata"
  import folding(R = 21888242871839275222246405745257275088696311157297823662689037894645226208583, P = 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    CS = MIMC_R, B = [21888242871839275222246405745257275088548364400416034343698204186575808495600], NR = 5,
    G = [1, 17631683881184975370165255887551781615748388533673675138860], TOY = false).* from "./nova"
}
module fold_g1 {
  import mimcdata.* from "./mimcdata"
  import folding(R = 21888242871839275222246405745257275088548364400416034343698204186575808495617, P = 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    CS = MIMC_Q, B = [3], NR = 3, G = [1, 2], TOY = false).* from "./nova"
}
module fold_t5 { import folding(R = 5, P = 7, CS = [1], B = [3], NR = 3, G = [1, 2], TOY = true).* from "./nova" }
