// Serialised values in a stream. A value is a list of atoms laid out by the grammar of its kind; what is written is read
// back in order, takes exactly its own bytes, and cannot be read when any of its bytes is missing.
module codec {
  import arith.* from "./arith"
  const R: int   // the two fields
  const Q: int
  const WID: int // bytes of a field element, kept in Montgomery form
  const KINDS: Set[int]
  const TOPS: int // size of the toy
  const MIX: List[int] // multiplier and increment of the generator of values

  // atoms
  pure val FR = 0
  pure val FQ = 1
  pure val FLAG = 2  // one byte, 0 or 1
  pure val NUM = 3   // variable-length number
  pure val SIDE = 4  // public or private wire
  pure val AT_R = 5  // affine point over the field R: x, y, whether it is the identity
  pure val AT_Q = 6
  pure val WIRE_R = 7
  pure val WIRE_Q = 8
  pure val ROW_R = 9
  pure val ROW_Q = 10
  pure val AT_Q2 = 11
  pure val SEED = 12 // a value that can only be made out of randomness
  pure val MANY = 100 // MANY + x: a length and that many x
  pure def grammar(k: int): List[int] =
    if (k == 0) [FR] else if (k == 1) [FQ] else if (k == 2) [FQ, FQ] else if (k == 3) [AT_Q] else if (k == 4) [FQ, FQ, FQ]
    else if (k == 5) [AT_Q2] else if (k == 6) [FQ, FQ, FQ, FQ, FQ, FQ] else if (k == 7) [AT_R] else if (k == 8) [FR, FR, FR]
    else if (k == 9) [MANY + FR] else if (k == 10) [MANY + FQ] else if (k == 11) [ROW_R] else if (k == 12) [ROW_Q]
    else if (k == 13) [MANY + ROW_R] else if (k == 14) [MANY + ROW_Q]
    // instances, relaxed instances and their witnesses: the curve over R has scalars in Q
    else if (k == 15) [AT_R, MANY + FQ] else if (k == 16) [AT_Q, MANY + FR] else if (k == 17) [AT_R, AT_R, FQ, MANY + FQ] else if (k == 18) [AT_Q, AT_Q, FR, MANY + FR]
    else if (k == 19) [MANY + FQ] else if (k == 20) [MANY + FR] else if (k == 21) [MANY + FQ, MANY + FQ] else if (k == 22) [MANY + FR, MANY + FR]
    // a recursive proof whose secondary side is over R, and one whose secondary side is over Q
    else if (k == 23) [NUM, MANY + FR, MANY + FQ, MANY + FR, MANY + FQ].concat(grammarOf(15)).concat(grammarOf(19)).concat(grammarOf(18)).concat(grammarOf(22)).concat(grammarOf(17)).concat(grammarOf(21))
    else if (k == 24) [NUM, MANY + FQ, MANY + FR, MANY + FQ, MANY + FR].concat(grammarOf(16)).concat(grammarOf(20)).concat(grammarOf(17)).concat(grammarOf(21)).concat(grammarOf(18)).concat(grammarOf(22))
    // made out of randomness: extension elements, prepared points, keys, shapes and parameters; nothing at all
    else if (k < 40) [SEED] else []
  pure def grammarOf(k: int): List[int] =
    if (k == 15) [AT_R, MANY + FQ] else if (k == 16) [AT_Q, MANY + FR] else if (k == 17) [AT_R, AT_R, FQ, MANY + FQ] else if (k == 18) [AT_Q, AT_Q, FR, MANY + FR]
    else if (k == 19) [MANY + FQ] else if (k == 20) [MANY + FR] else if (k == 21) [MANY + FQ, MANY + FQ] else [MANY + FR, MANY + FR]
  pure def opens(x: int): List[int] =
    if (x == AT_R) [FR, FR, FLAG] else if (x == AT_Q) [FQ, FQ, FLAG] else if (x == AT_Q2) [FQ, FQ, FQ, FQ, FLAG]
    else if (x == WIRE_R) [SIDE, NUM, FR] else if (x == WIRE_Q) [SIDE, NUM, FQ]
    else if (x == ROW_R) [MANY + WIRE_R] else if (x == ROW_Q) [MANY + WIRE_Q] else [x]
  pure def times(x: int, n: int): List[int] = range(0, n).foldl(List(), (l, _i) => l.append(x))

  // ---- bytes ----
  pure def little(v: int, n: int): List[int] = range(0, n).foldl({ l: List(), v: v }, (s, _i) => { l: s.l.append(s.v % 256), v: s.v / 256 }).l
  pure def number(v: int): List[int] =
    if (v < 2^6) [4 * v] else if (v < 2^14) little(4 * v + 1, 2) else if (v < 2^30) little(4 * v + 2, 4)
    else { val w = range(4, 8).foldl(4, (c, k) => if (v >= 2^(8 * k)) k + 1 else c)
           little(4 * (w - 4) + 3, 1).concat(little(v, w)) }
  pure def form(v: int, p: int): int = v * 2^(8 * WID) % p
  pure def value(b: int, p: int): int = b * inv(2^(8 * WID) % p, p) % p
  pure def atomBytes(x: int, v: int): List[int] =
    if (x == FR) little(form(v, R), WID) else if (x == FQ) little(form(v, Q), WID) else if (x == FLAG or x == SIDE) [v] else number(v)
  type W = { todo: List[int], toks: List[int], out: List[int] }
  pure def writing(w: W): W =
    if (w.todo == []) w
    else {
      val x = w.todo[0] val rest = w.todo.slice(1, w.todo.length())
      if (x >= MANY) { todo: times(x - MANY, w.toks[0]).concat(rest), toks: w.toks.slice(1, w.toks.length()), out: w.out.concat(number(w.toks[0])) }
      else if (opens(x) != [x]) { ...w, todo: opens(x).concat(rest) }
      else { todo: rest, toks: w.toks.slice(1, w.toks.length()), out: w.out.concat(atomBytes(x, w.toks[0])) }
    }
  pure def bytesOf(v: Val): List[int] = range(0, v.t.length() * 4 + 40).foldl({ todo: grammar(v.k), toks: v.t, out: [] }, (w, _i) => writing(w)).out
  type Rd = { todo: List[int], b: List[int], t: List[int], ok: bool }
  pure def unlittle(b: List[int]): int = range(0, b.length()).foldl(0, (v, i) => v + b[i] * 2^(8 * i))
  // length of a number and the number, -1 if there are not that many bytes
  pure def num(b: List[int]): { n: int, v: int } =
    if (b == []) { n: -1, v: 0 }
    else {
      val m = b[0] % 4
      val n = if (m == 0) 1 else if (m == 1) 2 else if (m == 2) 4 else 5 + b[0] / 4
      if (b.length() < n) { n: -1, v: 0 } else if (m < 3) { n: n, v: unlittle(b.slice(0, n)) / 4 } else { n: n, v: unlittle(b.slice(1, n)) }
    }
  pure def reading(r: Rd): Rd =
    if (r.todo == [] or not(r.ok)) r
    else {
      val x = r.todo[0] val rest = r.todo.slice(1, r.todo.length())
      if (x >= MANY or x == NUM or x == SEED) {
        val h = num(r.b)
        if (h.n < 0) { ...r, ok: false }
        else { todo: if (x >= MANY) times(x - MANY, h.v).concat(rest) else rest, b: r.b.slice(h.n, r.b.length()), t: r.t.append(h.v), ok: true }
      }
      else if (opens(x) != [x]) { ...r, todo: opens(x).concat(rest) }
      else {
        val n = if (x == FR or x == FQ) WID else 1
        if (r.b.length() < n) { ...r, ok: false }
        else {
          val v = unlittle(r.b.slice(0, n))
          { todo: rest, b: r.b.slice(n, r.b.length()), t: r.t.append(if (x == FR) value(v, R) else if (x == FQ) value(v, Q) else v), ok: true }
        }
      }
    }
  // the value at the front and what is left
  pure def parse(k: int, b: List[int]): { ok: bool, t: List[int], b: List[int] } = {
    val r = range(0, b.length() * 4 + 40).foldl({ todo: grammar(k), b: b, t: [], ok: true }, (r, _i) => reading(r))
    { ok: r.ok and r.todo == [], t: r.t, b: r.b }
  }

  // ---- values out of a number ----
  pure def mix(s: int, i: int): int = (s / 2^7 + s * MIX[0] + i * MIX[1]) % 2^256
  pure def element(s: int, p: int): int = { val c = s / 2^16 % 8
    if (c == 0) 0 else if (c == 1) 1 else if (c == 2) p - 1 else if (c == 3) 2^(s / 2^32 % 250) % p else (s / 2^5) % p }
  pure def count(s: int): int = { val c = s / 2^16 % 64 if (c == 0) 66 else if (c == 1) 64 else c % 4 }
  type G = { todo: List[int], t: List[int], s: int }
  pure def making(g: G, i: int): G =
    if (g.todo == []) g
    else {
      val x = g.todo[0] val rest = g.todo.slice(1, g.todo.length()) val s = mix(g.s, i)
      if (x >= MANY) { val n = if (x == MANY + FR or x == MANY + FQ) count(s) else count(s) % 4 { todo: times(x - MANY, n).concat(rest), t: g.t.append(n), s: s } }
      else if (x == AT_R or x == AT_Q or x == AT_Q2) {
        // the identity has coordinates of its own
        val d = if (x == AT_Q2) 2 else 1
        if (s / 2^40 % 4 == 0) { todo: rest, t: g.t.concat(if (d == 1) [0, 1, 1] else [0, 0, 1, 0, 1]), s: s }
        else { todo: rest, t: range(0, 2 * d).foldl(g.t, (l, j) => l.append(element(mix(s, j), if (x == AT_R) R else Q))).append(0), s: s }
      }
      else if (x == WIRE_R or x == WIRE_Q) { todo: rest, t: g.t.concat([s / 2^20 % 2, s / 2^30 % 70, { val p = if (x == WIRE_R) R else Q val e = element(s / 2^8, p) if (e == 0) 1 % p else e }]), s: s }
      else if (opens(x) != [x]) { todo: opens(x).concat(rest), t: g.t, s: s }
      else {
        val c = s / 2^24 % 12
        val v = if (x == FR) element(s, R) else if (x == FQ) element(s, Q) else if (x == FLAG) s / 2^20 % 2
          else if (x == SEED) s / 2^20 % 2^20
          else if (c == 0) 0 else if (c == 1) 63 else if (c == 2) 64 else if (c == 3) 2^14 - 1 else if (c == 4) 2^14 else if (c == 5) 2^30 - 1 else if (c == 6) 2^30 else if (c == 7) 2^32 else if (c == 8) 2^64 - 1 else if (c == 9) 2^56 else s / 2^30 % 2^64
        { todo: rest, t: g.t.append(v), s: s }
      }
    }
  type Val = { k: int, t: List[int] }
  pure def makeVal(k: int, s: int): Val = { k: k, t: range(0, if (k == 23 or k == 24) 500 else 150).foldl({ todo: grammar(k), t: [], s: s }, (g, i) => making(g, i)).t }

  // ---- the stream ----
  var queue: List[Val]
  var cut: bool // the last value is incomplete
  var ev: { op: str, a: List[int], out: List[int] }
  action init = all { queue' = [], cut' = false, ev' = { op: "init", a: [], out: [] } }
  action write(v: Val): bool = all { not(cut), queue' = queue.append(v), cut' = false, ev' = { op: "write", a: [v.k].concat(v.t), out: [] } }
  // some of the last bytes are lost: n thousandths of the value, or a few bytes
  action lose(n: int): bool = all { not(cut), queue != [], queue' = queue, cut' = queue[queue.length() - 1].k < 40, ev' = { op: "lose", a: [n], out: [] } }
  // the value at the front; a failed read ends the stream
  action read = {
    val v = queue[0]
    val ok = queue.length() > 1 or not(cut)
    all {
      queue' = if (ok) queue.slice(1, queue.length()) else [], cut' = if (ok) cut else false,
      ev' = { op: "read", a: [v.k], out: if (ok) [1].concat(v.t) else [0] }
    }
  }
  // every strict prefix of a value
  action prefixes(v: Val): bool = all { queue' = queue, cut' = cut, ev' = { op: "prefixes", a: [v.k].concat(v.t), out: [0] } }
  // other encodings: raw bytes of points, text
  action other(v: Val): bool = all { queue' = queue, cut' = cut, ev' = { op: "other", a: [v.k].concat(v.t), out: [1].concat(v.t) } }

  pure val HAS_OTHER = Set(0, 1, 7)
  action writing1 = { nondet k = oneOf(KINDS) nondet s = oneOf(0.to(2^256)) write(makeVal(k, s)) }
  action step = {
    nondet c = oneOf(0.to(11))
    if (queue.length() >= 6 or cut) read
    else if (c < 5 or queue == []) writing1
    else if (c == 5 or c == 6) { nondet k = oneOf(KINDS) nondet s = oneOf(0.to(2^256)) prefixes(makeVal(k, s)) }
    else if (c == 7) { nondet k = oneOf(HAS_OTHER) nondet s = oneOf(0.to(2^256)) other(makeVal(k, s)) }
    else if (c == 8) { nondet n = oneOf(0.to(1000)) lose(n) }
    else read
  }
  // the bytes of the stream decode to what was written; a value with bytes missing is no value
  pure def bytes(q: List[Val]): List[int] = q.foldl([], (b, v) => b.concat(bytesOf(v)))
  pure def fine(q: List[Val]): bool = {
    val r = q.foldl({ b: bytes(q), ok: true }, (s, v) => { val p = parse(v.k, s.b) { b: p.b, ok: s.ok and p.ok and p.t == v.t } })
    r.ok and r.b == []
  }
  pure def prefixFree(v: Val): bool = { val b = bytesOf(v) range(0, b.length()).foldl(true, (ok, n) => ok and not(parse(v.k, b.slice(0, n)).ok)) }
  val codecInv = fine(queue)
  val prefixInv = ev.op == "prefixes" implies prefixFree({ k: ev.a[0], t: ev.a.slice(1, ev.a.length()) })

  // ---- toy: every short value of small kinds ----
  pure def drawing(g: G): G =
    if (g.todo == []) g
    else {
      val x = g.todo[0] val rest = g.todo.slice(1, g.todo.length())
      if (x >= MANY) { todo: times(x - MANY, g.s % 3).concat(rest), t: g.t.append(g.s % 3), s: g.s / 3 }
      else if (opens(x) != [x]) { todo: opens(x).concat(rest), t: g.t, s: g.s }
      else {
        val b = if (x == FR) R else if (x == FQ) Q else if (x == NUM or x == SEED) 3 else 2
        { todo: rest, t: g.t.append(if (x == NUM) 60 + 4 * (g.s % 3) else g.s % b), s: g.s / b }
      }
    }
  action stepToy = {
    nondet k = oneOf(KINDS) nondet s = oneOf(0.to(TOPS)) nondet two = oneOf(Set(true, false))
    val v = { k: k, t: range(0, 60).foldl({ todo: grammar(k), t: [], s: s }, (g, i) => drawing(g)).t }
    if (two) all { queue.length() < 2, ev.op != "prefixes", write(v) } else all { ev.op == "init", prefixes(v) }
  }
  val toyInv = codecInv and prefixInv
}
module codec_bn {
  import codec(R = 21888242871839275222246405745257275088548364400416034343698204186575808495617, Q = 21888242871839275222246405745257275088696311157297823662689037894645226208583, WID = 32, TOPS = 0, MIX = [6364136223846793005, 1442695040888963407], KINDS = 0.to(33).union(Set(40))).* from "./codec"
}
module codec_toy {
  import codec(R = 5, Q = 3, WID = 1, TOPS = 60, MIX = [], KINDS = Set(0, 3, 9, 11, 13, 15)).* from "./codec"
}
