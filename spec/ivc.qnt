// Incremental verifiable computation over the cycle of curves. Commitments, witnesses and hashes are symbols (equal exactly
// when what they stand for is), states are field elements, and a proof is accepted exactly when every part of it is that
// of one honest execution. The forger builds its own instances out of the step circuits.
module ivc {
  import arith.* from "./arith"
  const P: int // field of the primary states
  const Q: int // field of the secondary states
  const F: int // step functions
  const G: int
  const ZS: Set[int]  // states the forger claims
  const DEPTH: int    // how many instances the forger makes

  type Exec = { z0p: int, z0s: int, zp: List[int], zs: List[int] }
  type Hash = { side: int, u: int, i: int, z0: int, z: int }
  type Fresh = { side: int, met: bool, x0: int, x1: int, key: List[int] }
  type Relaxed = { side: int, kind: int, a: int, b: int, sat: bool }
  type Forge = { hs: List[Hash], us: List[Fresh], rs: List[Relaxed] }
  var execs: List[Exec]
  var forge: Forge
  var ev: { op: str, a: List[int], m: List[List[int]], out: List[int] }

  pure def apply(f: int, z: int, p: int): int =
    if (f == 0) md(z * z * z + z + 5, p) else if (f == 1) z else if (f == 2) md(3 * z + 7, p) else md(z + 1, p)
  pure def iter(f: int, z: int, n: int, p: int): int = range(0, n).foldl(z, (x, _i) => apply(f, x, p))

  pure val DUMMYP: Relaxed = { side: 0, kind: 0, a: 0, b: 0, sat: true }
  pure val DUMMYS: Relaxed = { side: 1, kind: 0, a: 0, b: 0, sat: true }
  action init = all {
    execs' = [], forge' = { hs: [], us: [], rs: [DUMMYP, DUMMYS] }, ev' = { op: "init", a: [], m: [], out: [] }
  }
  action did(op: str, a: List[int], m: List[List[int]], out: List[int]): bool = ev' = { op: op, a: a, m: m, out: out }

  // ---- honest executions ----
  action start(zp: int, zs: int): bool = all {
    execs' = execs.append({ z0p: zp, z0s: zs, zp: [], zs: [] }), forge' = forge, did("start", [zp, zs], [], [])
  }
  pure def after(e: Exec): Exec = {
    val n = e.zp.length()
    val p = if (n == 0) e.z0p else e.zp[n - 1]
    val s = if (n == 0) e.z0s else e.zs[n - 1]
    { ...e, zp: e.zp.append(apply(F, p, P)), zs: e.zs.append(apply(G, s, Q)) }
  }
  // one more step; the proof states the number of steps, the initial and the current states
  action prove(k: int): bool = {
    val e = after(execs[k])
    all { execs' = execs.replaceAt(k, e), forge' = forge, did("prove", [k], [], [e.zp.length(), e.z0p, e.z0s, e.zp[e.zp.length() - 1], e.zs[e.zs.length() - 1]]) }
  }

  // ---- altered proofs: 23 parts ----
  // 0 i, 1 z0p, 2 z0s, 3 zip, 4 zis, 5 uS.w, 6 uS.x0, 7 uS.x1, 8 wS, 9 uP.w, 10 uP.e, 11 uP.u, 12 uP.x0, 13 uP.x1, 14 wP.w, 15 wP.e, 16-22 the same of the secondary
  type Parts = List[List[int]]
  pure val ZERO: List[int] = [-1]
  pure def firstP(l: List[Exec], e: int): int = l.indices().fold(e, (b, k) => if (k < b and l[k].z0p == l[e].z0p) k else b)
  pure def firstE(l: List[Exec], e: int): int = l.indices().fold(e, (b, k) => if (k < b and l[k].z0p == l[e].z0p and l[k].z0s == l[e].z0s) k else b)
  pure def partOf(l: List[Exec], e: int, n: int, s: int): List[int] =
    if (s == 0) [n] else if (s == 1) [l[e].z0p] else if (s == 2) [l[e].z0s] else if (s == 3) [l[e].zp[n - 1]] else if (s == 4) [l[e].zs[n - 1]]
    else if (n == 1) (
      // the first primary instance does not depend on the secondary side, and nothing is folded yet
      if (Set(6, 9, 13, 14).contains(s)) [-3, s, firstP(l, e)]
      else if (Set(10, 12, 15).contains(s) or s >= 16) ZERO
      else if (s == 11) [1]
      else [-3, s, 1, firstE(l, e)]
    )
    // the first fold is with the dummy instance: no cross term, one challenge for all
    else if (n == 2 and Set(17, 22).contains(s)) ZERO
    else if (n == 2 and s == 18) [-3, s, 2]
    else if (n == 2 and s == 19) [-3, s, 2, firstP(l, e)]
    else [-3, s, n, firstE(l, e)]
  pure def partsOf(l: List[Exec], e: int, n: int): Parts = range(0, 23).foldl(List(), (p, s) => p.append(partOf(l, e, n, s)))
  pure def isVector(s: int): bool = Set(7, 8, 13, 14, 15, 20, 21, 22).contains(s)
  pure def partner(s: int): int =
    if (Set(1, 2).contains(s)) s + 2 else if (Set(3, 4).contains(s)) s - 2 else if (Set(6, 9, 12, 16, 19).contains(s)) s + 1
    else if (Set(7, 10, 13, 17, 20).contains(s)) s - 1 else s
  pure def zeros(n: int): List[int] = range(0, n).foldl(List(), (l, _i) => l.append(0))
  // the m-th alteration: part, kind, which proof is taken from (execution, step), a number
  pure def alter(l: List[Exec], p: Parts, m: List[int], k: int): Parts = {
    val s = m[0] val kind = m[1]
    val q = p[s]
    val z = s >= 1 and s <= 4
    val mod = if (s == 1 or s == 3) P else Q
    val fresh = [-2, k, s]
    val src = partsOf(l, m[2], m[3])
    if (kind == 0) p.replaceAt(s, if (s == 0) [md(q[0] + 1, 2^64)] else if (z and q.length() > 0) q.replaceAt(0, md(q[0] + 1, mod)) else if (z) q else fresh)
    else if (kind == 1) p.replaceAt(s, if (s == 0) [0] else if (z) zeros(q.length()) else ZERO)
    else if (kind == 2) p.replaceAt(s, if (z) (if (q.length() == 0) q else q.slice(0, q.length() - 1)) else if (isVector(s)) fresh else q)
    else if (kind == 3) p.replaceAt(s, if (z) q.append(0) else if (isVector(s)) fresh else q)
    else if (kind == 4) p.replaceAt(s, src[s])
    else if (kind == 5) p.replaceAt(s, p[partner(s)]).replaceAt(partner(s), q)
    // the boundary between the initial and the current state elsewhere
    else if (kind == 6) (
      val a = if (m[4] % 2 == 0) 1 else 2
      val j = p[a].concat(p[a + 2])
      val cut = m[4] / 2 % (j.length() + 1)
      p.replaceAt(a, j.slice(0, cut)).replaceAt(a + 2, j.slice(cut, j.length()))
    )
    // another witness with the error that satisfies the relaxed constraints; another witness with its own commitment; another error with its own
    else if (kind == 7) (val a = if (m[4] % 2 == 0) 14 else 21 p.replaceAt(a, fresh).replaceAt(a + 1, fresh))
    else if (kind == 8) (val a = if (m[4] % 2 == 0) 14 else 21 p.replaceAt(a, fresh).replaceAt(a - 5, fresh))
    else if (kind == 9) (val a = if (m[4] % 2 == 0) 15 else 22 p.replaceAt(a, fresh).replaceAt(a - 5, fresh))
    // parts of another proof
    else (
      val g = m[4] % 7
      val which = if (g == 0) 5.to(8) else if (g == 1) 9.to(15) else if (g == 2) 16.to(22) else if (g == 3) 1.to(4) else if (g == 4) Set(1, 3) else if (g == 5) Set(2, 4) else 9.to(22)
      range(0, 23).foldl(List(), (r, j) => r.append(if (which.contains(j)) src[j] else p[j]))
    )
  }
  // the latest instance states the hashes of everything else
  pure def proofs(l: List[Exec]): Set[(int, int)] = tuples(l.indices(), 1.to(8)).filter(x => x._2 <= l[x._1].zp.length())
  pure def rehash(l: List[Exec], p: Parts): Parts = {
    pure def like(ss: Set[int]): Set[(int, int)] = proofs(l).filter(x => ss.forall(s => p[s] == partOf(l, x._1, x._2, s)))
    val a = like(Set(0, 1, 3).union(16.to(20)))
    val b = like(Set(0, 2, 4).union(9.to(13)))
    val p6 = a.fold([-4, 6], (_b, x) => partOf(l, x._1, x._2, 6))
    val p7 = b.fold([-4, 7], (_b, x) => partOf(l, x._1, x._2, 7))
    p.replaceAt(6, p6).replaceAt(7, p7)
  }
  pure def honest(l: List[Exec], p: Parts): bool = proofs(l).exists(x => p == partsOf(l, x._1, x._2))
  // verification of an altered proof under the parameters it was made with (pp = 0) or others
  action check(e: int, n: int, ms: List[List[int]], re: int, pp: int): bool = {
    val q = ms.indices().fold(partsOf(execs, e, n), (p, _k) => p)
    val r = range(0, ms.length()).foldl(q, (p, k) => alter(execs, p, ms[k], k))
    val t = if (re == 1) rehash(execs, r) else r
    all { execs' = execs, forge' = forge, did("check", [e, n, re, pp], ms, [b2i(pp == 0 and honest(execs, t))]) }
  }

  // ---- the forger ----
  pure def pos(l: List[Hash], h: Hash): int = range(0, l.length()).foldl(-1, (r, k) => if (r < 0 and l[k] == h) k else r)
  pure def posR(l: List[Relaxed], h: Relaxed): int = range(0, l.length()).foldl(-1, (r, k) => if (r < 0 and l[k] == h) k else r)
  pure def withH(w: Forge, h: Hash): { w: Forge, k: int } =
    if (pos(w.hs, h) >= 0) { w: w, k: pos(w.hs, h) } else { w: { ...w, hs: w.hs.append(h) }, k: w.hs.length() }
  pure def withR(w: Forge, r: Relaxed): { w: Forge, k: int } =
    if (posR(w.rs, r) >= 0) { w: w, k: posR(w.rs, r) } else { w: { ...w, rs: w.rs.append(r) }, k: w.rs.length() }
  pure def ids(w: Forge, side: int): Set[int] = w.rs.indices().filter(k => w.rs[k].side == side)
  // an instance out of thin air: it states two hashes and satisfies nothing
  pure def invented(w: Forge, side: int, h0: Hash, h1: Hash): Forge = {
    val a = withH(w, h0)
    val b = withH(a.w, h1)
    { ...b.w, us: b.w.us.append({ side: side, met: false, x0: a.k, x1: b.k, key: [] }) }
  }
  // the same instance with another commitment to the witness
  pure def blurred(w: Forge, u: int): Forge = { ...w, us: w.us.append({ ...w.us[u], met: false, key: w.us[u].key.append(-9) }) }
  // the step circuit of a side on a fresh instance of the other one (-1: none); cross = 1: the commitment to the cross term is another one
  pure def ran(w: Forge, side: int, i: int, z0: int, z: int, u: int, big: int, bad: int): Forge = {
    val one = if (u < 0) { side: 1 - side, met: false, x0: -1, x1: -1, key: [] } else w.us[u]
    val r = if (i != 0) withR(w, { side: 1 - side, kind: 2 + bad, a: big, b: u, sat: w.rs[big].sat and one.met and bad == 0 })
      else if (side == 0) { w: w, k: 1 } else withR(w, { side: 0, kind: 1, a: u, b: 0, sat: one.met })
    val h = withH(r.w, { side: side, u: r.k, i: i + 1, z0: z0, z: if (side == 0) apply(F, if (i == 0) z0 else z, P) else apply(G, if (i == 0) z0 else z, Q) })
    { ...h.w, us: h.w.us.append({ side: side, met: true, x0: one.x1, x1: h.k, key: [i, z0, z, u, big, bad] }) }
  }
  // the circuit is satisfied on these
  pure def links(w: Forge, side: int, i: int, z0: int, z: int, u: int, big: int): bool =
    i == 0 or (u >= 0 and w.us[u].x0 >= 0 and w.hs[w.us[u].x0] == { side: side, u: big, i: i, z0: z0, z: z })
  pure def accepts(w: Forge, u: int, i: int, z0p: int, zp: int, z0s: int, zs: int, up: int, us: int): bool = and {
    w.us[u].x0 >= 0, w.us[u].x1 >= 0,
    w.hs[w.us[u].x0] == { side: 0, u: us, i: i, z0: z0p, z: zp }, w.hs[w.us[u].x1] == { side: 1, u: up, i: i, z0: z0s, z: zs },
    w.us[u].met, w.rs[up].sat, w.rs[us].sat,
  }
  action forged(w: Forge, op: str, a: List[int], out: List[int]): bool = all { execs' = execs, forge' = w, did(op, a, [], out) }
  action invent(side: int, i: int, z: int, y: int, a: int, b: int): bool = {
    val h0 = { side: 1 - side, u: a, i: i, z0: 0, z: z }
    val h1 = { side: side, u: b, i: i, z0: 0, z: y }
    forged(invented(forge, side, h0, h1), "invent", [side, i, z, y, a, b], [])
  }
  action blur(u: int): bool = forged(blurred(forge, u), "blur", [u], [])
  // a base step, or one that continues what the fresh instance states
  action base(side: int, z0: int, u: int): bool = forged(ran(forge, side, 0, z0, z0, u, side, 0), "run", [side, 0, z0, z0, u, 1 - side, 0], [])
  action go(u: int, bad: int): bool = {
    val one = forge.us[u]
    val h = forge.hs[one.x0]
    val side = 1 - one.side
    forged(ran(forge, side, h.i, h.z0, h.z, u, h.u, bad), "run", [side, h.i, h.z0, h.z, u, h.u, bad], [])
  }
  pure def canGo(w: Forge, u: int): bool = w.us[u].x0 >= 0 and w.hs[w.us[u].x0].side == 1 - w.us[u].side and w.hs[w.us[u].x0].i > 0
  // a proof made of these
  action present(u: int): bool = {
    val one = forge.us[u]
    val h = forge.hs[one.x0]
    val k = forge.hs[one.x1]
    forged(forge, "present", [u, h.i, h.z0, h.z, k.z0, k.z, k.u, h.u], [b2i(accepts(forge, u, h.i, h.z0, h.z, k.z0, k.z, k.u, h.u))])
  }
  pure def canPresent(w: Forge): Set[int] = w.us.indices().filter(u => w.us[u].side == 1 and w.us[u].x0 >= 0 and w.us[u].x1 >= 0)
  action inventing = {
    nondet side = oneOf(Set(0, 1)) nondet i = oneOf(Set(1, 2)) nondet z = oneOf(ZS) nondet y = oneOf(ZS)
    nondet a = oneOf(ids(forge, side)) nondet b = oneOf(ids(forge, 1 - side))
    invent(side, i, z, y, a, b)
  }
  action basing = {
    nondet z0 = oneOf(ZS.filter(z => z < 2)) nondet u = oneOf(forge.us.indices().union(Set(-1)))
    base(if (u < 0) 0 else 1 - forge.us[u].side, z0, u)
  }
  action blurring = { nondet u = oneOf(forge.us.indices().filter(u => forge.us[u].met)) blur(u) }
  action going = { nondet u = oneOf(forge.us.indices().filter(u => canGo(forge, u))) nondet c = oneOf(Set(0, 0, 0, 1)) go(u, c) }
  action room = forge.us.length() < DEPTH
  action stepForge = any { all { room, inventing }, all { room, basing }, all { room, going }, all { room, blurring }, all { canPresent(forge).size() > 0, { nondet u = oneOf(canPresent(forge)) present(u) } } }

  // longer chains: most steps continue from a recent instance, and what can be presented is
  pure def recent(w: Forge): Set[int] = w.us.indices().filter(u => canGo(w, u) and u + 3 >= w.us.length())
  action stepAttack =
    if (ev.op != "present" and canPresent(forge).contains(forge.us.length() - 1)) present(forge.us.length() - 1)
    else if (forge.us.length() >= DEPTH) { nondet u = oneOf(canPresent(forge)) present(u) }
    else {
      nondet c = oneOf(0.to(15)) nondet k = oneOf(0.to(3))
      val met = forge.us.indices().filter(u => forge.us[u].met and u + 2 >= forge.us.length())
      if (c < 2 or forge.us == []) (if (c == 0) inventing else base(0, k % 2, -1))
      else if (c == 2 and met.size() > 0) { nondet u = oneOf(met) blur(u) }
      else if (c < 6 or recent(forge).size() == 0) {
        nondet u = oneOf(forge.us.indices().filter(u => u + 2 >= forge.us.length())) base(1 - forge.us[u].side, k % 2, u)
      } else { nondet u = oneOf(recent(forge)) go(u, b2i(c == 6)) }
    }

  // whatever is accepted is the result of the computation
  val soundInv = canPresent(forge).forall(u => {
    val h = forge.hs[forge.us[u].x0]
    val k = forge.hs[forge.us[u].x1]
    accepts(forge, u, h.i, h.z0, h.z, k.z0, k.z, k.u, h.u) implies (h.i == k.i and h.z == iter(F, h.z0, h.i, P) and k.z == iter(G, k.z0, k.i, Q))
  })
  // a proof of an honest execution is one, and states the result
  val ivcInv = and {
    execs.indices().forall(e => 1.to(execs[e].zp.length()).forall(n => honest(execs, partsOf(execs, e, n)) and execs[e].zp[n - 1] == iter(F, execs[e].z0p, n, P) and execs[e].zs[n - 1] == iter(G, execs[e].z0s, n, Q))),
    ev.op == "check" implies (ev.m == [] implies ev.out == [b2i(ev.a[3] == 0)]),
  }

  // ---- schedules ----
  pure def edge(c: int, r: int, p: int): int = if (c == 0) 0 else if (c == 1) 1 else if (c == 2) p - 1 else if (c == 3) 2^64 else r % p
  action starting = { nondet c = oneOf(0.to(5)) nondet d = oneOf(0.to(5)) nondet r = oneOf(0.to(2^256)) start(edge(c, r, P), edge(d, r / 2^10, Q)) }
  action stepHonest =
    if (execs.length() == 0) starting
    else if (ev.op == "start" or (ev.op == "check" and execs[0].zp.length() < 4)) { nondet k = oneOf(execs.indices()) prove(k) }
    else if (ev.op == "prove") check(ev.a[0], execs[ev.a[0]].zp.length(), [], 0, 0)
    else starting
  // few executions, many alterations
  action stepAlter =
    if (execs.length() == 0) start(3, 5)
    else if (execs[0].zp.length() < 3) prove(0)
    else if (execs.length() == 1) { nondet k = oneOf(0.to(2)) start(if (k == 0) 3 else 8, if (k == 1) 5 else 9) }
    else if (execs[1].zp.length() < 2) prove(1)
    else {
      nondet x = oneOf(proofs(execs)) nondet y = oneOf(proofs(execs)) nondet s = oneOf(0.to(2^120)) nondet re = oneOf(0.to(5)) nondet pp = oneOf(0.to(12)) nondet two = oneOf(0.to(2))
      val m = [s % 23, if (s / 2^8 % 4 == 0) s / 2^10 % 6 else if (s / 2^8 % 4 < 3) s / 2^10 % 6 else s / 2^10 % 12, y._1, y._2, s / 2^20 % 2^31]
      val t = [s / 2^51 % 23, s / 2^60 % 12, y._1, y._2, s / 2^80 % 2^31]
      check(x._1, x._2, if (two == 0 and t[0] != m[0]) [m, t] else [m], b2i(re == 0), if (pp == 1) 1 else if (pp == 2) 2 else 0)
    }
}
module ivc_toy {
  import ivc(P = 3, Q = 3, F = 3, G = 3, ZS = Set(0, 1, 2), DEPTH = 3).* from "./ivc"
}
module ivc_toy4 {
  import ivc(P = 3, Q = 3, F = 3, G = 3, ZS = Set(0, 1), DEPTH = 4).* from "./ivc"
}
module ivc_deep {
  import ivc(P = 3, Q = 3, F = 3, G = 3, ZS = Set(0, 1, 2), DEPTH = 9).* from "./ivc"
}
module ivc_bg {
  import ivc(P = 21888242871839275222246405745257275088548364400416034343698204186575808495617, Q = 21888242871839275222246405745257275088696311157297823662689037894645226208583, F = 0, G = 2, ZS = Set(0, 1, 7), DEPTH = 24).* from "./ivc"
}
module ivc_gb {
  import ivc(Q = 21888242871839275222246405745257275088548364400416034343698204186575808495617, P = 21888242871839275222246405745257275088696311157297823662689037894645226208583, F = 1, G = 0, ZS = Set(0, 1, 7), DEPTH = 24).* from "./ivc"
}
