// Groth16 over a bilinear group, written in exponents: every group element is its multiple of the generator, a pairing
// multiplies exponents. The state is a session: a circuit under construction, parameters set up for circuits, and proofs.
module groth {
  import arith.* from "./arith"
  const R: int  // group order
  const FG: int // generator of the multiplicative group, fixes the evaluation domains
  const MAXW: int
  const MAXR: int
  const MAXD: int
  const TOY: bool
  import progs(PR = R).* from "./progs"
  // ic, u, v, w: evaluated once at set-up
  type Setup = { prog: Prog, trap: List[int], ok: bool, ic: List[int], qap: List[List[int]] }
  // kind 0: none, 1: exponents known, 2: made from an assignment that breaks a row
  type Proof = { kind: int, s: int, gen: int, z: List[int], pub: List[int], a: int, b: int, c: int }
  var draft: Prog
  var setups: List[Setup]
  var gens: List[int] // how often each slot was set up
  var proofs: List[Proof]
  var ev: { op: str, a: List[int], out: List[int] }

  pure val NOSETUP: Setup = { prog: EMPTY, trap: [], ok: false, ic: [], qap: [] }
  pure val NOPROOF: Proof = { kind: 0, s: 0, gen: 0, z: [], pub: [], a: 0, b: 0, c: 0 }
  pure val SETUPS0 = [NOSETUP, NOSETUP]
  pure val PROOFS0 = [NOPROOF, NOPROOF, NOPROOF]

  // ---- the scheme ----
  pure def logSize(m: int): int = Set(1, 2, 3, 4, 5, 6).filter(k => 2^k >= m).fold(6, (a, k) => mini(a, k))
  pure def dom(m: int): int = 2^(logSize(m))
  pure def omega(m: int): int = powm(FG, (R - 1) / dom(m), R)
  pure def zed(p: Prog, tau: int): int = md(powm(tau, dom(p.rows.length()), R) - 1, R)
  // Lagrange basis of the domain at tau (tau outside the domain)
  pure def lagrange(p: Prog, tau: int): List[int] = {
    val n = dom(p.rows.length())
    val w = omega(p.rows.length())
    val xs = range(1, n).foldl([1], (l, k) => l.append(md(l[k - 1] * w, R)))
    val z = zed(p, tau)
    // z / (n * (tau - x)) * x
    val ds = invAll(xs.foldl(List(), (l, x) => l.append(md((tau - x) * n, R))), R)
    range(0, n).foldl(List(), (l, k) => l.append(md(z * xs[k] % R * ds[k], R)))
  }
  // QAP polynomial k (0: A, 1: B, 2: C) of every wire, at tau
  pure def qap(p: Prog, la: List[int], k: int): List[int] =
    range(0, p.kinds.length()).foldl(List(), (l, w) => l.append(md(range(0, p.rows.length()).foldl(0, (s, j) => s + coef(p.rows[j][k], w) * la[j]), R)))
  pure def pick(l: List[int], ws: List[int]): List[int] = ws.foldl(List(), (o, w) => o.append(l[w]))
  pure def combined(t: List[int], u: int, v: int, w: int, di: int): int = md((t[1] * u + t[0] * v + w) * di, R)
  type Params = { qap: List[List[int]], ic: List[int], h: List[int], l: List[int], a: List[int], b: List[int] }
  pure def params(p: Prog, t: List[int]): Params = {
    val la = lagrange(p, t[4])
    val u = qap(p, la, 0) val v = qap(p, la, 1) val w = qap(p, la, 2)
    val order = ofKind(p, 0).concat(ofKind(p, 1))
    val ds = invAll([t[2], t[3]], R)
    val z = md(zed(p, t[4]) * ds[1], R)
    { qap: [u, v, w], ic: ofKind(p, 0).foldl(List(), (o, i) => o.append(combined(t, u[i], v[i], w[i], ds[0]))),
      l: ofKind(p, 1).foldl(List(), (o, i) => o.append(combined(t, u[i], v[i], w[i], ds[1]))),
      a: pick(u, order), b: pick(v, order),
      h: range(0, dom(p.rows.length()) - 1).foldl({ x: z, l: List() }, (s, _i) => { x: md(s.x * t[4], R), l: s.l.append(s.x) }).l }
  }
  pure def dot(l: List[int], z: List[int]): int = md(range(0, z.length()).foldl(0, (s, i) => s + l[i] * z[i]), R)
  pure def prove(p: Prog, t: List[int], qa: List[List[int]], z: List[int], r: int, s: int): List[int] = {
    val u = qa[0] val v = qa[1] val w = qa[2]
    val uz = dot(u, z) val vz = dot(v, z) val wz = dot(w, z)
    val a = md(t[0] + uz + r * t[3], R)
    val b = md(t[1] + vz + s * t[3], R)
    val di = inv(t[3], R)
    val priv = ofKind(p, 1).foldl(0, (x, i) => x + z[i] * combined(t, u[i], v[i], w[i], di))
    // the quotient by the vanishing polynomial, times that polynomial over delta
    val h = md(md(uz * vz - wz, R) * di, R)
    [a, b, md(priv + h + a * s + b * r - r * s * t[3], R)]
  }
  pure def icSum(ic: List[int], pub: List[int]): int = md(range(0, pub.length()).foldl(ic[0], (s, i) => s + ic[i + 1] * pub[i]), R)
  // A * B = alpha * beta + inputs * gamma + C * delta
  pure def accepts(t: List[int], ic: List[int], a: int, b: int, c: int, pub: List[int]): bool =
    pub.length() + 1 == ic.length() and md(a * b - t[0] * t[1] - icSum(ic, pub) * t[2] - c * t[3], R) == 0

  // ---- the session ----
  action init = all { draft' = EMPTY, setups' = SETUPS0, gens' = [0, 0], proofs' = PROOFS0, ev' = { op: "init", a: [], out: [] } }
  action grow(p: Prog): bool = all { draft' = p, setups' = setups, gens' = gens, proofs' = proofs, ev' = { op: "draft", a: [], out: [] } }
  pure val coefs: Set[int] = Set(1, 1, 2, R - 1, 5 % R, R / 2)
  action addFree = { nondet k = oneOf(Set(0, 1)) grow(free(draft, k)) }
  action addProduct = {
    nondet k = oneOf(Set(0, 1, 2))
    nondet i = oneOf(draft.kinds.indices()) nondet j = oneOf(draft.kinds.indices())
    nondet i2 = oneOf(draft.kinds.indices()) nondet j2 = oneOf(draft.kinds.indices())
    nondet c1 = oneOf(coefs) nondet c2 = oneOf(coefs)
    nondet shape = oneOf(0.to(3))
    val a = if (shape == 0 or i == i2) [i, c1] else [i, c1, i2, c2]
    val b = if (shape <= 1 or j == j2) [j, 1] else [j, c2, j2, 1]
    grow(product(draft, mini(k, 1), a, b))
  }
  // further rows that follow from the wires already defined: scaled, swapped, restated through one, trivial
  action addRow = {
    nondet w = oneOf(draft.kinds.indices())
    nondet c = oneOf(coefs)
    nondet shape = oneOf(0.to(4))
    val d = draft.defs[w]
    {
      if (shape == 4) grow(row(draft, [], [0, 1], []))
      else if (shape == 3 or d.length() == 0) grow(row(draft, [w, c], [0, 1], [w, c]))
      else if (shape == 2) grow(row(draft, d[1], d[0], [w, 1]))
      else if (shape == 1) grow(row(draft, d[0].concat([0, 1]), d[1], [w, 1].concat(d[1])))
      else grow(row(draft, range(0, d[0].length()).foldl(List(), (l, i) => l.append(if (i % 2 == 1) md(d[0][i] * c, R) else d[0][i])), d[1], [w, c]))
    }
  }
  pure def rnd(seed: int, i: int): int = {
    val x = range(0, 3).foldl(seed + 7919 * (i + 1), (s, j) => (s * 6364136223846793005 + 1442695040888963407 + j) % 2^270)
    if (x / 2^200 % 11 == 0) x % 3 else if (x / 2^200 % 11 == 1) R - 1 - x % 3 else x / 8 % R
  }
  pure def big(seed: int, i: int): int = md(range(0, 4).foldl(seed + 104729 * (i + 1), (s, j) => (s * 6364136223846793005 + 3037000493 + j) % 2^300) / 2^8, R - 3) + 2

  action draw = { nondet s = oneOf(0.to(2^48)) nondet n = oneOf(0.to(MAXD)) grow(gen(s, n)) }

  action doSetup(k: int, t: List[int]): bool = {
    val ok = t[2] != 0 and t[3] != 0
    val q = if (ok) params(draft, t) else { qap: [], ic: [], h: [], l: [], a: [], b: [] }
    all {
      zed(draft, t[4]) != 0,
      draft' = draft,
      setups' = setups.replaceAt(k, { prog: draft, trap: t, ok: ok, ic: q.ic, qap: q.qap }),
      gens' = gens.replaceAt(k, gens[k] + 1),
      proofs' = proofs,
      ev' = { op: "setup", a: [k, b2i(ok)].concat(t), out: if (TOY or not(ok)) [] else t.slice(0, 4).concat(q.ic).concat(q.h).concat(q.l).concat(q.a).concat(q.b) }
    }
  }
  // trapdoors of every size; zero where the scheme can still be set up, and where it must be refused
  action setup = {
    nondet k = oneOf(Set(0, 1))
    nondet s = oneOf(0.to(2^48))
    nondet sp = oneOf(0.to(12))
    val t0 = range(0, 5).foldl(List(), (l, i) => l.append(big(s, i)))
    val t = if (sp == 0) t0.replaceAt(2, 0) else if (sp == 1) t0.replaceAt(3, 0) else if (sp == 2) t0.replaceAt(4, 0)
            else if (sp == 3) t0.replaceAt(0, R - 1).replaceAt(1, 1) else if (sp == 4) t0.replaceAt(4, 2) else t0
    doSetup(k, t)
  }
  action clear = grow(EMPTY)
  // a guard under a `nondet` makes the simulator search its values, so choices are drawn from the sets where they are allowed
  def lives: Set[int] = setups.indices().filter(k => setups[k].ok and gens[k] > 0)
  def known: Set[int] = proofs.indices().filter(j => proofs[j].kind == 1)
  def fresh(j: int): bool = setups[proofs[j].s].ok and gens[proofs[j].s] == proofs[j].gen
  def ours: Set[int] = proofs.indices().filter(j => proofs[j].kind > 0 and fresh(j))
  def honests: Set[int] = known.filter(j => proofs[j].z.length() > 0 and fresh(j))

  action doProve(j: int, k: int, z: List[int], r: int, s: int): bool = {
    val p = setups[k].prog
    val good = holds(p, z)
    val e = if (good) prove(p, setups[k].trap, setups[k].qap, z, r, s) else [0, 0, 0]
    all {
      draft' = draft, setups' = setups, gens' = gens,
      proofs' = proofs.replaceAt(j, { kind: if (good) 1 else 2, s: k, gen: gens[k], z: z, pub: pubOf(p, z), a: e[0], b: e[1], c: e[2] }),
      ev' = { op: "prove", a: [j, k, r, s, b2i(good)].concat(z), out: if (good) e else [] }
    }
  }
  action honest = {
    nondet j = oneOf(Set(0, 1, 2)) nondet k = oneOf(lives) nondet s = oneOf(0.to(2^48)) nondet z0 = oneOf(0.to(9))
    val p = setups[k].prog
    val z = wires(p, range(0, p.kinds.length()).foldl(List(), (l, i) => l.append(if (z0 == 0) 0 else if (z0 == 1) 1 else rnd(s, i))))
    all { holds(p, z), doProve(j, k, z, if (z0 == 2) 0 else big(s, 50), if (z0 == 3) 0 else big(s, 51)) }
  }
  // same statement, fresh blinding
  action again = {
    nondet j = oneOf(Set(0, 1, 2)) nondet i = oneOf(honests) nondet s = oneOf(0.to(2^48))
    val q = proofs[i]
    doProve(j, q.s, q.z, big(s, 50), big(s, 51))
  }
  // one wire changed so that some row fails
  action dishonest = {
    nondet j = oneOf(Set(0, 1, 2)) nondet k = oneOf(lives.filter(x => setups[x].prog.kinds.length() > 1)) nondet s = oneOf(0.to(2^48))
    nondet w = oneOf(1.to(setups[k].prog.kinds.length() - 1)) nondet d = oneOf(Set(1, R - 1, 3, R / 2))
    val p = setups[k].prog
    val z = wires(p, range(0, p.kinds.length()).foldl(List(), (l, i) => l.append(rnd(s, i))))
    val z2 = z.replaceAt(w, md(z[w] + d, R))
    all { not(holds(p, z2)), doProve(j, k, z2, big(s, 50), big(s, 51)) }
  }
  action alter(j: int, n: Proof, x: List[int]): bool = all {
    draft' = draft, setups' = setups, gens' = gens, proofs' = proofs.replaceAt(j, n), ev' = { op: "alter", a: [j].concat(x), out: [n.a, n.b, n.c] }
  }
  // the altered proof is no longer the prover's, so its wires are forgotten
  pure def setABC(q: Proof, a: int, b: int, c: int): Proof = q.with("a", md(a, R)).with("b", md(b, R)).with("c", md(c, R)).with("z", [])
  action tamper = {
    nondet j = oneOf(known.filter(x => setups[proofs[x].s].ok)) nondet i = oneOf(known) nondet how = oneOf(0.to(13)) nondet s = oneOf(0.to(2^48))
    val q = proofs[j]
    val o = proofs[i]
    val x = big(s, 3)
    val t = setups[q.s].trap
    all {
      alter(j, if (how == 0) setABC(q, -q.a, q.b, q.c) else if (how == 1) setABC(q, q.a, -q.b, q.c) else if (how == 2) setABC(q, q.a, q.b, -q.c)
        else if (how == 3) setABC(q, o.a, q.b, q.c) else if (how == 4) setABC(q, q.a, o.b, q.c) else if (how == 5) setABC(q, q.a, q.b, o.c)
        else if (how == 6) setABC(q, q.a + 1, q.b, q.c) else if (how == 7) setABC(q, 0, q.b, q.c) else if (how == 8) setABC(q, q.a, q.b, 0)
        // these still satisfy the equation
        else if (how == 9) setABC(q, -q.a, -q.b, q.c)
        else if (how == 10) setABC(q, q.a * x, q.b * inv(x, R), q.c)
        else if (how == 11) setABC(q, q.a, q.b + x * t[3], q.c + x * q.a)
        else if (how == 12) setABC(q, o.a, o.b, q.c)
        else setABC(q, q.a, 0, q.c), [how])
    }
  }
  // the holder of the trapdoors can make a proof of anything: the verifier must take it, and only for those inputs
  action simulate = {
    nondet j = oneOf(Set(0, 1, 2)) nondet k = oneOf(lives) nondet s = oneOf(0.to(2^48)) nondet id = oneOf(0.to(5))
    val p = setups[k].prog
    val t = setups[k].trap
    val pub = range(1, ofKind(p, 0).length()).foldl(List(), (l, i) => l.append(rnd(s, i)))
    val a = if (id == 0) 0 else big(s, 60)
    val b = if (id == 1) 0 else big(s, 61)
    all { alter(j, { kind: 1, s: k, gen: gens[k], z: [], pub: pub, a: a, b: b,
      c: md((a * b - t[0] * t[1] - icSum(setups[k].ic, pub) * t[2]) * inv(t[3], R), R) }, [20]) }
  }
  action doVerify(j: int, k: int, pub: List[int]): bool = {
    val q = proofs[j]
    val st = setups[k]
    val ic = st.ic
    all {
      // a proof from a broken assignment is only tried where the scheme promises rejection
      q.kind == 1 or q.kind == 2 and k == q.s and gens[k] == q.gen,
      draft' = draft, setups' = setups, gens' = gens, proofs' = proofs,
      ev' = { op: "verify", a: [j, k].concat(pub), out: [if (pub.length() + 1 != ic.length()) 2 else b2i(q.kind == 1 and accepts(st.trap, ic, q.a, q.b, q.c, pub))] }
    }
  }
  action verifyOwn = { nondet j = oneOf(ours) doVerify(j, proofs[j].s, proofs[j].pub) }
  action verifyHonest = { nondet j = oneOf(honests) doVerify(j, proofs[j].s, proofs[j].pub) }
  // other inputs, or the key of another circuit
  action verifyOther = {
    nondet j = oneOf(known) nondet k = oneOf(lives) nondet how = oneOf(0.to(8)) nondet s = oneOf(0.to(2^48))
    val q = proofs[j]
    val pub = q.pub
    val n = pub.length()
    val i = if (n == 0) 0 else s % n
    val d = if (how == 0) 1 else if (how == 1) R - 1 else big(s, 70)
    doVerify(j, k, if (how <= 2 and n > 0) pub.replaceAt(i, md(pub[i] + d, R))
        else if (how == 3) pub.append(0) else if (how == 4 and n > 0) pub.slice(0, n - 1) else if (how == 5 and n > 1) pub.replaceAt(0, pub[n - 1]).replaceAt(n - 1, pub[0])
        else if (how == 6 and n > 0) pub.replaceAt(i, md(-pub[i], R)) else if (how == 7) pub.append(pub.foldl(1, (_a, x) => x)) else pub)
  }
  val roomW = draft.kinds.length() < MAXW
  val roomR = draft.rows.length() < MAXR
  action build = any { all { roomW, addFree }, all { roomW, addFree }, all { roomW, roomR, addProduct }, all { roomW, roomR, addProduct },
    all { roomW, roomR, addProduct }, all { roomR, addRow } }
  val some = lives != Set()
  val proved = known != Set()
  val open = ours != Set()
  val standing = honests != Set()
  // C15, C17: honest sessions
  action stepHonest = any { build, draw, all { draft.rows.length() > 0, setup }, setup, all { some, honest }, all { some, honest }, all { standing, verifyHonest }, all { standing, verifyHonest },
    all { standing, again }, all { draft.rows.length() > 2, clear } }
  // C16: adversarial sessions
  action step = any { build, draw, setup, all { some, honest }, all { some, dishonest }, all { proved, tamper }, all { proved, tamper }, all { some, simulate },
    all { open, verifyOwn }, all { open, verifyOwn }, all { proved, some, verifyOther }, all { proved, some, verifyOther }, all { proved, some, verifyOther },
    all { draft.rows.length() > 4, clear } }

  // completeness: what the honest prover makes is accepted for its own inputs under its own key
  val complete = proofs.indices().forall(j => {
    val q = proofs[j]
    (q.kind == 1 and q.z.length() > 0 and gens[q.s] == q.gen) implies
      accepts(setups[q.s].trap, setups[q.s].ic, q.a, q.b, q.c, q.pub) })
  val grothInv = complete

  // ---- exhaustive over a toy group ----
  pure val P1: Prog = product(free(free(EMPTY, 0), 1), 0, [1, 1], [2, 1, 0, 1])
  pure val P2: Prog = product(P1, 1, [3, 2], [2, 1])
  pure val P3: Prog = row(P2, [4, 3], [0, 1], [4, 3])
  action stepToy = {
    nondet c = oneOf(0.to(4)) nondet x = oneOf(Set(0, 1, 3)) nondet y = oneOf(Set(0, 2, R - 1)) nondet tau = oneOf(0.to(R - 1))
    nondet r = oneOf(Set(0, 1, 5)) nondet s = oneOf(Set(0, 2)) nondet d = oneOf(Set(1, 4)) nondet bad = oneOf(0.to(2))
    val p = if (c == 0) EMPTY else if (c == 1) P1 else if (c == 2) P2 else if (c == 3) P3 else row(P3, [], [0, 1], [])
    val t = [3, 5, 2, d, tau]
    val z0 = wires(p, [1, x, y, 0, 0].slice(0, p.kinds.length()))
    val w = p.kinds.length() - 1
    val z = if (bad == 0) z0 else z0.replaceAt(w, md(z0[w] + bad, R))
    val pa = params(p, t)
    val q = prove(p, t, pa.qap, z, r, s)
    all { ev.op == "init", zed(p, tau) != 0, bad == 0 or w > 0,
      draft' = p, setups' = setups.replaceAt(0, { prog: p, trap: t, ok: true, ic: pa.ic, qap: pa.qap }), gens' = [1, 0], ev' = { op: "toy", a: [], out: [] },
      proofs' = proofs.replaceAt(0, { kind: 1, s: 0, gen: 1, z: z, pub: pubOf(p, z), a: q[0], b: q[1], c: q[2] }) }
  }
  // over all tau: a broken assignment is accepted only where the error polynomial happens to vanish
  val toyInv = {
    val q = proofs[0]
    val st = setups[0]
    q.kind == 1 implies {
      val ic = st.ic
      and {
        holds(st.prog, q.z) implies complete,
        // every other single input or component breaks the equation
        1.to(R - 1).forall(d => not(holds(st.prog, q.z)) or not(accepts(st.trap, ic, q.a, q.b, q.c + d, q.pub))),
        1.to(R - 1).forall(d => q.b == 0 or not(holds(st.prog, q.z)) or not(accepts(st.trap, ic, q.a + d, q.b, q.c, q.pub))),
        q.pub.indices().forall(i => ic[i + 1] == 0 or not(holds(st.prog, q.z)) or not(accepts(st.trap, ic, q.a, q.b, q.c, q.pub.replaceAt(i, md(q.pub[i] + 1, R))))),
        // the quotient is a polynomial of the size the parameters provide for
        params(st.prog, st.trap).h.length() + 1 == dom(st.prog.rows.length()),
      }
    }
  }
}
module groth_bn {
  import groth(R = 21888242871839275222246405745257275088548364400416034343698204186575808495617, FG = 7, MAXW = 9, MAXR = 9, MAXD = 20, TOY = false).* from "./groth"
}
module groth_t13 { import groth(R = 13, FG = 2, MAXW = 5, MAXR = 4, MAXD = 4, TOY = true).* from "./groth" }
