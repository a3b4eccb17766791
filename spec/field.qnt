// State machine of a prime field: a file of registers holding field elements and one action per public operation.
// The state is the abstract value of every register; `ev` names the last operation, its arguments, and the values
// the operation reports besides changing registers. P is the prime, W the number of 64-bit limbs of the implementation.
module field {
  import arith.* from "./arith"

  const P: int
  const W: int       // limbs
  const NR: int      // a quadratic non-residue mod P
  const TOY: bool    // exhaustive toy instance: loads range over the whole field

  pure val NREG = if (TOY) 2 else 5
  pure val REGS0 = range(0, NREG).foldl(List(), (l, i) => l.append(i % P))
  pure val RR = if (TOY) 2 % P else 2^(64 * W) % P
  pure val RINV = inv(RR, P)

  // values whose internal (Montgomery) limbs have a chosen shape, and boundary integers
  pure val LIMBY: List[int] = if (TOY) List() else [
      0, 1, 2^64 - 1, 2^64, 2^64 + 1, 2^128 - 1, 2^128, 2^192 - 1, 2^192, (2^64 - 1) * 2^64, (2^64 - 1) * 2^128,
      P - 1, P - 2, P - 2^64, P - 2^64 + 1, P - 2^128, P - 2^192, P / 2, P / 2 + 1, 2^(64 * W - 12) - 1, 2^63, 2^127, 2^191,
      (P % 2^64), (P % 2^128), (P % 2^192), P - (P % 2^64), P - (P % 2^128), P - (P % 2^192)]
  pure val POOL: List[int] =
    if (TOY) range(0, P)
    else [0, 1, 2, 3, 4, 5, 7, P - 1, P - 2, P - 3, P / 2, P / 2 + 1, 2^64, 2^64 - 1, 2^128 - 1, 2^192 - 1, RR, RINV, P - RR]
      .concat(LIMBY.foldl(List(), (l, e) => l.append((e * RINV) % P)))
  pure val EXPS: List[int] =
    if (TOY) range(0, P + 2) else [0, 1, 2, 3, 2^64 - 1, 2^63, 5, 255, 256, 65537]

  var regs: List[int]
  var ev: { op: str, a: List[int], out: List[int] }

  pure def bin(op: str, x: int, y: int): int =
    if (op == "add") md(x + y, P) else if (op == "sub") md(x - y, P) else md(x * y, P)
  pure def un(op: str, x: int): int =
    if (op == "neg") md(-x, P) else if (op == "dbl") md(2 * x, P) else md(x * x, P)

  action init = all {
    regs' = REGS0,
    ev' = { op: "init", a: List(), out: List() }
  }

  action setr(k: int, v: int, op: str, a: List[int], out: List[int]): bool = all {
    regs' = regs.replaceAt(k, v),
    ev' = { op: op, a: a, out: out }
  }

  // limb t of shape d: zero, all ones, small, that of the modulus or just below it, that of r; the top limb stays below
  // that of the modulus
  pure val PTOP = if (TOY) 1 else P / 2^(64 * (W - 1))
  pure def shape(d: int, r: int, t: int): int = {
    val pl = (P / 2^(64 * t)) % 2^64
    val x = if (d == 0) 0 else if (d == 1) 2^64 - 1 else if (d == 2) 1 + r % 3 else if (d == 3) pl else if (d == 4) maxi(pl - 1, 0) else (r / 2^(64 * t)) % 2^64
    if (t == W - 1 and x > PTOP) PTOP - (if (d == 1) 1 else x % 2) else x
  }
  pure def shaped(q: int, r: int): int = range(0, W).foldl({ q: q, s: 0 }, (a, t) => { q: a.q / 6, s: a.s + shape(a.q % 6, r, t) * 2^(64 * t) }).s
  // limbs below t of shape d and the others of shape e, or all of shape d but one
  pure def twoShapes(q: int, r: int): int = {
    val d = q % 6   val e = (q / 6) % 6   val t = (q / 36) % W   val one = (q / 36 / W) % 2
    range(0, W).foldl(0, (s, i) => s + shape(if (one == 0) (if (i < t) d else e) else (if (i == t) e else d), r, i) * 2^(64 * i))
  }
  pure def relimb(v: int, t: int, x: int): int = v - ((v / 2^(64 * t)) % 2^64) * 2^(64 * t) + x * 2^(64 * t)

  action load = {
    nondet k = oneOf(0.to(NREG - 1))
    nondet i = oneOf(0.to(POOL.length() - 1))
    nondet r = oneOf(0.to(P - 1))
    nondet c = oneOf(if (TOY) Set(0) else 0.to(10))
    nondet q = oneOf(if (TOY) Set(0) else 0.to(6^W - 1))
    nondet j = oneOf(if (TOY) Set(0) else 0.to(NREG - 1))
    // boundary values, random values, sums of a boundary value and a small one; internal limbs each of a chosen shape;
    // another register with one internal limb (or one limb of its value) replaced, or moved by a power of the limb base
    val v = if (c == 0) POOL[i] else if (c == 1) r else if (c == 2) md(POOL[i] + (r % 5) - 2, P)
            else if (c == 3) md(shaped(q, r) * RINV, P)
            else if (c >= 8) md(twoShapes(q, r) * RINV, P)
            else if (c == 7) md(twoShapes(q, r), P)
            else if (c == 4) md(relimb(md(regs[j] * RR, P), i % W, shape(q % 6, r, i % W)) * RINV, P)
            else if (c == 5) md(relimb(regs[j], i % W, shape(q % 6, r, i % W)), P)
            else md(regs[j] + (if (q % 2 == 0) 1 else -1) * 2^(64 * (i % W)) * (if (q % 3 == 0) 1 else RINV), P)
    setr(k, v, "load", [k, v], List())
  }
  action binary = {
    nondet op = oneOf(Set("add", "sub", "mul"))
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet f = oneOf(if (TOY) Set(0) else 0.to(11))
    setr(k, bin(op, regs[i], regs[j]), op, [k, i, j, f], List())
  }
  action unary = {
    nondet op = oneOf(Set("neg", "dbl", "sqr"))
    nondet i = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet f = oneOf(if (TOY) Set(0) else 0.to(5))
    setr(k, un(op, regs[i]), op, [k, i, f], List())
  }
  action power = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(EXPS.length() - 1))
    nondet r = oneOf(0.to(2^(64 * W) - 1))
    nondet f = oneOf(0.to(3))
    // f = 0: 64-bit exponent; 1: exponent of full limb width; 2: 2^e for small e; 3: the value of a register
    val e = if (f == 0) EXPS[j] else if (f == 1) (if (j < EXPS.length() / 2) P - 1 - EXPS[j] else r) else if (f == 2) EXPS[j] % 1000 else regs[i]
    setr(k, if (f == 2) powm(2, e, P) else powm(regs[i], e, P), "pow", [k, i, e, f], List())
  }
  // neutral elements, constants, sums and products of lists
  action consts = {
    nondet k = oneOf(0.to(NREG - 1))
    nondet c = oneOf(Set("zero", "one", "addid", "mulid", "sum", "prod", "fromu64"))
    nondet r = oneOf(0.to(2^64 - 1))
    val v = if (c == "zero" or c == "addid") 0 else if (c == "one" or c == "mulid") 1
            else if (c == "sum") md(sumL(regs), P)
            else if (c == "fromu64") md(r, P)
            else regs.foldl(1, (a, x) => md(a * x, P))
    setr(k, v, c, [k, r], List())
  }
  // equality and order: the verdicts must be those of one total order consistent with equality
  action compare = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    all { regs' = regs, ev' = { op: "cmp", a: [i, j], out: [b2i(regs[i] == regs[j]), b2i(regs[i] == 0)] } }
  }
  action stepArith = any { load, load, binary, binary, binary, unary, unary, power, consts, compare }

  // --- C02: inversion and square roots ------------------------------------------------------------------------------
  // out = [] when the operation reports "none", else the result (the smaller of the two roots for sqrt)
  action invert = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet f = oneOf(if (TOY) Set(0) else 0.to(3))
    if (regs[i] == 0) setr(k, regs[k], "inv", [k, i, f], List())
    else { val v = inv(regs[i], P)
           setr(k, v, "inv", [k, i, f], [v]) }
  }
  action divide = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet f = oneOf(if (TOY) Set(0) else 0.to(3))
    all { regs[j] != 0, setr(k, md(regs[i] * inv(regs[j], P), P), "div", [k, i, j, f], List()) }
  }
  action sqroot = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet f = oneOf(if (TOY) Set(0) else 0.to(1))
    val s = sqrtm(regs[i], P, NR)
    if (s == -1) setr(k, regs[k], "sqrt", [k, i, f], List()) else setr(k, s, "sqrt", [k, i, f], [s])
  }
  action square = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    setr(k, un("sqr", regs[i]), "sqr", [k, i, 0], List())
  }
  action stepPartial = any { load, load, square, invert, invert, divide, sqroot, sqroot }

  // --- C03: external representation -----------------------------------------------------------------------------------
  // a raw integer below 2^(64 W); the boundary region around the modulus and its multiples is favoured
  action parse = {
    nondet k = oneOf(0.to(NREG - 1))
    nondet i = oneOf(0.to(POOL.length() - 1))
    nondet r = oneOf(0.to(2^(64 * W) - 1))
    nondet c = oneOf(0.to(6))
    nondet f = oneOf(0.to(3))
    val raw = if (c == 0) POOL[i] else if (c == 1) P + (r % 5) else if (c == 2) P - 1 - (r % 5) else if (c == 3) r
              else if (c == 4) r % P else if (c == 5) 2^(64 * W) - 1 - (r % 3) else mini(P + POOL[i], 2^(64 * W) - 1)
    if (raw < P) setr(k, raw, "parse", [k, raw, f], [raw]) else setr(k, regs[k], "parse", [k, raw, f], List())
  }
  action wide = {
    nondet k = oneOf(0.to(NREG - 1))
    nondet lo = oneOf(0.to(2^(64 * W) - 1))
    nondet hi = oneOf(0.to(2^(64 * W) - 1))
    nondet c = oneOf(0.to(5))
    nondet f = oneOf(0.to(3))
    val raw = if (c == 0) lo else if (c == 1) 2^(128 * W) - 1 - (lo % 3) else if (c == 2) hi * 2^(64 * W)
              else if (c == 3) P * (hi % 7) + (lo % 3) else lo + hi * 2^(64 * W)
    setr(k, md(raw, P), "wide", [k, raw, f], List())
  }
  // everything the element can be shown as, all determined by its integer value
  action show = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet f = oneOf(0.to(11))
    nondet w = oneOf(1.to(7))
    nondet n = oneOf(0.to(300))
    val v = regs[i]
    val mods = { val m = v % 2^w
                 if (m >= 2^(w - 1)) m - 2^w else m }
    all { regs' = regs,
          ev' = { op: "show", a: [i, f, w, n],
                  out: [v, v % 2, v % 2^w, mods, v / 2^n, bitlen(v)] } }
  }
  action bitop = {
    nondet i = oneOf(0.to(NREG - 1))
    nondet j = oneOf(0.to(NREG - 1))
    nondet k = oneOf(0.to(NREG - 1))
    nondet op = oneOf(Set("xor", "and"))
    nondet f = oneOf(0.to(1))
    val v = if (op == "xor") bxor(regs[i], regs[j], 64 * W) else band(regs[i], regs[j], 64 * W)
    setr(k, md(v, P), op, [k, i, j, f], List())
  }
  action stepRepr = any { load, load, parse, parse, wide, show, show, show, bitop, compare }

  // operations without large constants, for exhaustive checking of toy instances
  action stepToy = any { load, binary, unary, compare, invert, divide, sqroot }

  // --- invariants of the specification itself (checked exhaustively on toy instances, and along every simulation) ---
  val inRange = regs.indices().forall(i => 0 <= regs[i] and regs[i] < P)
  // the last operation satisfies its defining equation, stated independently of how it is computed
  val defining =
    if (ev.op == "inv") (if (ev.out.length() > 0) inv(ev.out[0], P) != 0 else regs[ev.a[1]] == 0)
    else if (ev.op == "sqrt") (if (ev.out.length() > 0) ev.out[0] <= (P - 1) / 2 else not(isSquare(regs[ev.a[1]], P)))
    else true
  val toyFacts = not(TOY) or regs.indices().forall(i => okInv(regs[i], P) and okSqrt(regs[i], P, NR))
  val fieldInv = inRange and defining and toyFacts
}

