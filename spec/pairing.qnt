// The pairing as a map between three groups of prime order R. Every group element is represented by its exponent with
// respect to the generator (in GT: e(G1, G2)), so the specification says exactly what bilinearity and
// non-degeneracy say: e(x G1, y G2) = e(G1, G2)^(x y), and two values are equal iff their exponents are.
module pairing {
  import arith.* from "./arith"
  const R: int
  const TOY: bool
  const U: int      // the BN parameter, as an interesting scalar
  pure val N = if (TOY) 2 else 4
  pure val POOL: List[int] = if (TOY) range(0, R) else
    [0, 0, 1, 1, 2, 3, R - 1, R - 2, (R - 1) / 2, (R + 1) / 2, 2^64, 2^128 - 1, 2^253, 2^192 + 1, U, 6 * U * U]

  var g1: List[int]
  var g2: List[int]
  var gt: List[int]
  var ev: { op: str, a: List[int], out: List[int] }
  pure val Z: List[int] = range(0, N).foldl(List(), (l, i) => l.append(i % 2))
  action init = all { g1' = Z, g2' = Z, gt' = Z, ev' = { op: "init", a: List(), out: List() } }
  action sett(k: int, v: int, op: str, a: List[int]): bool = all {
    g1' = g1, g2' = g2, gt' = gt.replaceAt(k, v), ev' = { op: op, a: a, out: List() } }

  action load = {
    nondet s = oneOf(1.to(2))
    nondet k = oneOf(0.to(N - 1))
    nondet c = oneOf(0.to(POOL.length() - 1))
    nondet r = oneOf(0.to(R - 1))
    nondet w = oneOf(0.to(2))
    val v = if (w == 0) r else if (w == 1) POOL[c] else r % 6
    all { g1' = if (s == 1) g1.replaceAt(k, v) else g1, g2' = if (s == 2) g2.replaceAt(k, v) else g2, gt' = gt,
          ev' = { op: "load", a: [s, k, v], out: List() } }
  }
  // group arithmetic in G1 and G2 between pairings
  action arith1 = {
    nondet s = oneOf(1.to(2))
    nondet op = oneOf(Set("gadd", "gneg", "gmul"))
    nondet k = oneOf(0.to(N - 1))
    nondet i = oneOf(0.to(N - 1))
    nondet j = oneOf(0.to(N - 1))
    nondet r = oneOf(0.to(R - 1))
    val g = if (s == 1) g1 else g2
    val v = if (op == "gadd") md(g[i] + g[j], R) else if (op == "gneg") md(-g[i], R) else md(g[i] * r, R)
    all { g1' = if (s == 1) g1.replaceAt(k, v) else g1, g2' = if (s == 2) g2.replaceAt(k, v) else g2, gt' = gt,
          ev' = { op: op, a: [s, k, i, if (op == "gmul") r else j], out: List() } }
  }
  action pair = {
    nondet k = oneOf(0.to(N - 1))
    nondet i = oneOf(0.to(N - 1))
    nondet j = oneOf(0.to(N - 1))
    nondet f = oneOf(0.to(if (TOY) 0 else 2))
    sett(k, md(g1[i] * g2[j], R), "pair", [k, i, j, f])
  }
  // product form over a list of n pairs with arbitrary repetition
  action multi = {
    nondet k = oneOf(0.to(N - 1))
    nondet n = oneOf(0.to(5))
    nondet m = oneOf(0.to(N * N - 1))
    nondet d = oneOf(0.to(N * N - 1))
    val ix = range(0, n).foldl(List(), (l, t) => l.append((m + t * d) % (N * N)))
    sett(k, md(ix.foldl(0, (s, x) => s + g1[x / N] * g2[x % N]), R), "multi", [k].concat(ix))
  }
  action gta = {
    nondet op = oneOf(Set("tadd", "tsub", "tneg", "tdbl", "tmul"))
    nondet k = oneOf(0.to(N - 1))
    nondet i = oneOf(0.to(N - 1))
    nondet j = oneOf(0.to(N - 1))
    nondet f = oneOf(0.to(if (TOY) 0 else 5))
    val v = if (op == "tadd" or op == "tmul") gt[i] + gt[j] else if (op == "tsub") gt[i] - gt[j] else if (op == "tneg") -gt[i] else 2 * gt[i]
    sett(k, md(v, R), op, [k, i, j, f])
  }
  action cmp = {
    nondet i = oneOf(0.to(N - 1))
    nondet j = oneOf(0.to(N - 1))
    all { g1' = g1, g2' = g2, gt' = gt, ev' = { op: "cmp", a: [i, j], out: [b2i(gt[i] == gt[j]), b2i(gt[i] == 0)] } }
  }
  action step = any { load, load, arith1, pair, pair, pair, multi, multi, gta, cmp }
  // every choice of four exponents, followed by every pairing of them
  action choose = {
    nondet a = oneOf(0.to(R - 1))
    nondet b = oneOf(0.to(R - 1))
    nondet c = oneOf(0.to(R - 1))
    nondet d = oneOf(0.to(R - 1))
    all { ev.op == "init", g1' = [a, b], g2' = [c, d], gt' = Z, ev' = { op: "choose", a: List(), out: List() } }
  }
  action stepToy = any { choose, all { ev.op == "choose", any { pair, multi } }, all { ev.op != "init", ev.op != "choose", g1' = g1, g2' = g2, gt' = gt, ev' = ev } }
  val pairInv = and {
    gt.indices().forall(i => 0 <= gt[i] and gt[i] < R),
    ev.op != "pair" or (gt[ev.a[0]] == 0) == (g1[ev.a[1]] == 0 or g2[ev.a[2]] == 0),  // non-degenerate in a prime-order group
  }
  // bilinearity of the specified map on all registers
  val bilinear = g1.indices().forall(i => g1.indices().forall(j => g2.indices().forall(k =>
    md(md(g1[i] + g1[j], R) * g2[k], R) == md(g1[i] * g2[k] + g1[j] * g2[k], R))))
  val toyInv = pairInv and bilinear
}
module pairing_bn { import pairing(R = 21888242871839275222246405745257275088548364400416034343698204186575808495617, TOY = false, U = 4965661367192848881).* from "./pairing" }
module pairing_t5 { import pairing(R = 5, TOY = true, U = 2).* from "./pairing" }
