// The random oracle of the folding scheme: a Feistel permutation with exponent 7 over the base field of a curve, chained
// over the absorbed elements; a challenge is the low bits of the last chaining value, read in the scalar field.
module mimc {
  import arith.* from "./arith"
  const HP: int         // base field
  const HS: int         // scalar field
  const HC: List[int]   // round constants
  pure def perm(xl: int, xr: int): int =
    HC.foldl({ l: xl, r: xr }, (s, c) => {
      val t = (s.l + c) % HP
      val t2 = t * t % HP
      val t4 = t2 * t2 % HP
      { l: (t4 * t2 % HP * t + s.r) % HP, r: s.l } }).l
  pure def absorb(key: int, s: int): int = (key + s + perm(s, key)) % HP
  pure def oracle(seq: List[int]): int = seq.foldl(0, (k, s) => absorb(k, s))
  pure def low(h: int, n: int): int = md(h % 2^n, HS)
  // coordinates with a flag that tells the identity apart
  pure def pointItems(q: List[int]): List[int] = if (q.length() == 0) [0, 1, 0] else q.append(1)
}

// Sessions with three transcripts, native and in a circuit.
module oracles {
  import arith.* from "./arith"
  const P: int
  const S: int
  const CS: List[int]
  const B: List[int]
  const NR: int
  const G: List[int]
  import mimc(HP = P, HS = S, HC = CS).* from "./mimc"
  import ec(CP = P, KIND = 0, CB = B, CNR = NR).* from "./ec"

  var seqs: List[List[int]]
  var kv: List[int] // chaining value of each transcript
  var seen: Set[(List[int], int)] // every finished sequence and its chaining value
  var ev: { op: str, a: List[int], out: List[int] }
  pure val EDGE: List[int] = [0, 1, 2, P - 1, P - 2, (P - 1) / 2, 2^64 - 1, 2^64, 2^128 - 1, 2^128, 2^192, 2^252, 2^253, S % P, (S - 1) % P, 5]
  pure val GPOW: List[List[int]] = range(0, 9).foldl(List(), (l, i) => l.append(pmul(i, G)))
  action init = all { seqs' = [[], [], []], kv' = [0, 0, 0], seen' = Set(), ev' = { op: "init", a: [], out: [] } }
  action put3(k: int, l: List[int], key: int, op: str, a: List[int], out: List[int]): bool = all {
    seqs' = seqs.replaceAt(k, l), kv' = kv.replaceAt(k, key), seen' = seen, ev' = { op: op, a: a, out: out } }
  action addAll(k: int, l: List[int], op: str, a: List[int]): bool =
    put3(k, seqs[k].concat(l), l.foldl(kv[k], (s, x) => absorb(s, x)), op, a, [])
  pure def draw(c: int, r: int): int = if (c < EDGE.length()) EDGE[c] else r
  def open: Set[int] = Set(0, 1, 2).filter(k => seqs[k].length() < 12)
  action one = {
    nondet k = oneOf(open) nondet c = oneOf(0.to(30)) nondet r = oneOf(0.to(P - 1))
    val v = draw(c, r)
    addAll(k, [v], "append", [k, v])
  }
  action many = {
    nondet k = oneOf(open) nondet n = oneOf(0.to(3)) nondet c = oneOf(0.to(30)) nondet r = oneOf(0.to(P - 1))
    val l = range(0, n).foldl(List(), (o, i) => o.append(draw(md(c + 7 * i, 31), md(r * (i + 3), P))))
    addAll(k, l, "vec", [k].concat(l))
  }
  action point = {
    nondet k = oneOf(open) nondet c = oneOf(0.to(4)) nondet m = oneOf(0.to(8)) nondet r = oneOf(0.to(P - 1))
    val q = if (c == 0) O else if (c <= 2) GPOW[m] else if (c == 3) pneg(GPOW[m]) else liftx([r])
    addAll(k, pointItems(q), "point", [k].concat(q))
  }
  // a transcript that differs from another one in a single place
  pure def vary(l: List[int], how: int, i: int): List[int] = {
    val n = l.length()
    val j = if (n == 0) 0 else i % n
    if (n == 0) [how]
    else if (how == 0) l.slice(0, n - 1)
    else if (how == 1) l.slice(0, j).concat(l.slice(j + 1, n))
    else if (how == 2 and n > 1) { val b = (j + 1) % n
                                   l.replaceAt(j, l[b]).replaceAt(b, l[j]) }
    else if (how == 3) l.replaceAt(j, (l[j] + 1) % P)
    else if (how == 4) l.replaceAt(j, md(-l[j], P))
    else if (how == 5) l.append(0)
    else if (how == 6) [0].concat(l)
    else if (how == 7) l.slice(0, j + 1).concat(l.slice(j, n))
    else if (how == 8) l.replaceAt(j, 0)
    else if (how == 9) rev(l)
    else l
  }
  action derive = {
    nondet k = oneOf(Set(0, 1, 2)) nondet i = oneOf(Set(0, 1, 2)) nondet how = oneOf(0.to(10)) nondet j = oneOf(0.to(20))
    val l = vary(seqs[i], how, j)
    put3(k, l, oracle(l), "load", [k].concat(l), [])
  }
  action fresh = { nondet k = oneOf(Set(0, 1, 2)) put3(k, [], 0, "load", [k], []) }
  action squeeze = {
    nondet k = oneOf(Set(0, 1, 2)) nondet n = oneOf(Set(128, 252, 128, 252, 1, 2, 64, 127, 129, 251, 253))
    nondet i = oneOf(Set(0, 1))
    all { seqs' = seqs, kv' = kv, seen' = seen.union(Set((seqs[k], kv[k]))),
          ev' = { op: if (i == 0) "squeeze" else "circuit", a: [k, n], out: [low(kv[k], n)] } }
  }
  action step = any { one, many, point, derive, derive, squeeze, squeeze, squeeze, if (open == Set()) fresh else one }
  // challenges are functions of the sequence, and different sequences have different ones
  val oracleInv = and {
    seqs.indices().forall(k => 0 <= kv[k] and kv[k] < P),
    seen.forall(a => seen.forall(b => (a._1 == b._1) == (a._2 == b._2 and a._2 % 2^128 == b._2 % 2^128))),
    seqs.indices().forall(k => ev.op != "squeeze" or ev.out[0] < 2^ev.a[1]),
  }
  // on a small field: the permutation is one, and chaining loses nothing for a fixed prefix of the state
  val toyInv = 0.to(P - 1).forall(k => 0.to(P - 1).map(x => perm(x, k)).size() <= P and 0.to(P - 1).map(r => perm(k, r)).size() == P)
}
module oracle_gk {
  import mimcdata.* from "./mimcdata"
  import oracles(P = 21888242871839275222246405745257275088548364400416034343698204186575808495617, S = 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    CS = MIMC_R, B = [21888242871839275222246405745257275088548364400416034343698204186575808495600], NR = 5,
    G = [1, 17631683881184975370165255887551781615748388533673675138860]).* from "./mimc"
}
module oracle_g1 {
  import mimcdata.* from "./mimcdata"
  import oracles(P = 21888242871839275222246405745257275088696311157297823662689037894645226208583, S = 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    CS = MIMC_Q, B = [3], NR = 3, G = [1, 2]).* from "./mimc"
}
