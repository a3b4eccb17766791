// Circuit gadgets as functions: registers of field values, registers of bits, the public inputs in order, and whether
// every assertion made so far is true (then, and only then, the honestly built system is satisfied).
module gadget {
  import arith.* from "./arith"
  const GP: int
  const BITS: int
  pure val NR = 4
  pure val NB = 4
  pure val SIZES: Set[int] = Set(1, 2, 3, 8, 64, BITS - 2, BITS - 1, BITS, BITS + 1, 256)

  var regs: List[int]
  var bits: List[int]
  var pubs: List[int]
  var sat: bool
  var cost: int
  var ev: { op: str, a: List[int], out: List[int] }
  pure val R0: List[int] = [0, 1, 2, 3]
  pure val B0: List[int] = [0, 1, 0, 1]
  pure val P0: List[int] = [1]
  action init = all { regs' = R0, bits' = B0, pubs' = P0, sat' = true, cost' = 0, ev' = { op: "init", a: List(), out: List() } }
  action st(r: List[int], b: List[int], p: List[int], s: bool, c: int, op: str, a: List[int], out: List[int]): bool = all {
    regs' = r, bits' = b, pubs' = p, sat' = s, cost' = cost + c, ev' = { op: op, a: a, out: out } }
  action reset = st(R0, B0, P0, true, -cost, "reset", List(), List())

  // low n bits, most significant first
  pure def lowBits(v: int, n: int): List[int] = range(0, n).foldl(List(), (l, i) => l.append((v / 2^(n - 1 - i)) % 2))
  // values with structure: small, close to the modulus, powers of two and their neighbours, equal to another register
  pure def pick(c: int, r: int, e: int, o: int): int =
    md(if (c == 0) r else if (c == 1) r % 5 else if (c == 2) - 1 - r % 4 else if (c == 3) 2^e else if (c == 4) 2^e - 1 else if (c == 5) 2^e + r % 3 else o, GP)

  action alloc = {
    nondet kind = oneOf(0.to(2))
    nondet k = oneOf(0.to(NR - 1))
    nondet j = oneOf(0.to(NR - 1))
    nondet c = oneOf(0.to(6))
    nondet e = oneOf(0.to(BITS - 1))
    nondet r = oneOf(0.to(GP - 1))
    val v = pick(c, r, e, regs[j])
    st(regs.replaceAt(k, v), bits, if (kind == 0) pubs.append(v) else pubs, sat, 1, if (kind == 0) "instance" else if (kind == 1) "witness" else "constant", [k, v], List())
  }
  action allocBit = {
    nondet kind = oneOf(0.to(1))
    nondet k = oneOf(0.to(NB - 1))
    nondet b = oneOf(0.to(1))
    st(regs, bits.replaceAt(k, b), if (kind == 0) pubs.append(b) else pubs, sat, 1, if (kind == 0) "binst" else "bwit", [k, b], List())
  }
  action inputize = {
    nondet k = oneOf(0.to(NR - 1))
    nondet i = oneOf(0.to(NR - 1))
    st(regs.replaceAt(k, regs[i]), bits, pubs.append(regs[i]), sat, 1, "inputize", [k, i], List())
  }
  // linear operators (no constraint) and constraining gadgets
  action arith2 = {
    nondet op = oneOf(Set("ladd", "lsub", "lneg", "mul", "add", "square"))
    nondet k = oneOf(0.to(NR - 1))
    nondet i = oneOf(0.to(NR - 1))
    nondet j = oneOf(0.to(NR - 1))
    val v = if (op == "ladd" or op == "add") regs[i] + regs[j] else if (op == "lsub") regs[i] - regs[j] else if (op == "lneg") - regs[i]
            else if (op == "mul") regs[i] * regs[j] else regs[i] * regs[i]
    st(regs.replaceAt(k, md(v, GP)), bits, pubs, sat, 2, op, [k, i, j], List())
  }
  action selectVal = {
    nondet k = oneOf(0.to(NR - 1))
    nondet i = oneOf(0.to(NR - 1))
    nondet j = oneOf(0.to(NR - 1))
    nondet b = oneOf(0.to(NB - 1))
    st(regs.replaceAt(k, if (bits[b] == 1) regs[i] else regs[j]), bits, pubs, sat, 2, "cselect", [k, i, j, b], List())
  }
  action ofBit = {
    nondet k = oneOf(0.to(NR - 1))
    nondet b = oneOf(0.to(NB - 1))
    st(regs.replaceAt(k, bits[b]), bits, pubs, sat, 1, "ofbit", [k, b], List())
  }
  action test = {
    nondet op = oneOf(Set("is_eq", "is_neq"))
    nondet b = oneOf(0.to(NB - 1))
    nondet i = oneOf(0.to(NR - 1))
    nondet j = oneOf(0.to(NR - 1))
    st(regs, bits.replaceAt(b, b2i((op == "is_eq") == (regs[i] == regs[j]))), pubs, sat, 5, op, [b, i, j], List())
  }
  action logic = {
    nondet op = oneOf(Set("not", "and"))
    nondet b = oneOf(0.to(NB - 1))
    nondet i = oneOf(0.to(NB - 1))
    nondet j = oneOf(0.to(NB - 1))
    st(regs, bits.replaceAt(b, if (op == "not") 1 - bits[i] else bits[i] * bits[j]), pubs, sat, 2, op, [b, i, j], List())
  }
  // assertions; the operands of a true one are made equal by choosing the register to itself or its copy
  action assertEq = {
    nondet op = oneOf(Set("enforce_eq", "enforce_eq_constant", "cenforce"))
    nondet i = oneOf(0.to(NR - 1))
    nondet j = oneOf(0.to(NR - 1))
    nondet b = oneOf(0.to(NB - 1))
    nondet t = oneOf(0.to(4))
    val same = if (t == 0) true else regs[i] == regs[j]
    // t = 0: against a fresh witness (or the constant) of the same value
    st(regs, bits, pubs, sat and (same or (op == "cenforce" and bits[b] == 0)), 3, op, [i, j, b, b2i(t == 0), if (t == 0) regs[i] else regs[j]], List())
  }
  action bitEq = {
    nondet i = oneOf(0.to(NB - 1))
    nondet j = oneOf(0.to(NB - 1))
    nondet b = oneOf(0.to(NB - 1))
    st(regs, bits, pubs, sat and (bits[b] == 0 or bits[i] == bits[j]), 3, "bcenforce", [i, j, b], List())
  }
  action decompose = {
    nondet i = oneOf(0.to(NR - 1))
    nondet n = oneOf(SIZES.union(Set(0)))
    nondet k = oneOf(0.to(NB - 1))
    nondet t = oneOf(0.to(255))
    val l = lowBits(regs[i], n)
    // one of the bits goes into a bit register
    val bb = if (n == 0) bits else bits.replaceAt(k, l[t % n])
    st(regs, bb, pubs, sat, 700, "to_bits", [i, n, k, if (n == 0) 0 else t % n], l)
  }
  // the low n bits of a register, as a big-endian string of witness bits, are at most c (shorter strings than c always are)
  action rangeCheck = {
    nondet i = oneOf(0.to(NR - 1))
    nondet n = oneOf(SIZES)
    nondet c = oneOf(0.to(6))
    nondet e = oneOf(0.to(BITS - 1))
    nondet r = oneOf(0.to(GP - 1))
    nondet d = oneOf(0.to(3))
    val v = regs[i] % 2^n
    val bound = if (c == 6) (if (v + d >= 1) md(v + d - 1, GP) else 0) else pick(c, r, e, 0)
    st(regs, bits, pubs, sat and v <= bound, 1400, "range_check", [i, n, bound], List())
  }
  action rangeBits = {
    nondet i = oneOf(0.to(NR - 1))
    nondet n = oneOf(SIZES)
    nondet m = oneOf(0.to(BITS - 1))
    nondet near = oneOf(0.to(2))
    val v = regs[i] % 2^n
    val mm = if (near == 0) md(bitlen(v) - r0(m), BITS) else m
    st(regs, bits, pubs, sat and v < 2^mm, 1400, "range_bits", [i, n, mm], List())
  }
  pure def r0(m: int): int = m % 2
  action fromBits = {
    nondet i = oneOf(0.to(NR - 1))
    nondet j = oneOf(0.to(NR - 1))
    nondet n = oneOf(SIZES)
    st(regs, bits, pubs, sat and regs[i] == md(regs[j] % 2^n, GP), 700, "enforce_bits", [i, j, n], List())
  }
  action check = st(regs, bits, pubs, sat, 0, "sat", List(), [b2i(sat)])
  action step = if (not(sat) and ev.op != "sat") check else if (not(sat) or cost > 6000) reset
    else any { reset, alloc, alloc, alloc, allocBit, allocBit, inputize, arith2, arith2, arith2, selectVal, selectVal, ofBit, test, test, logic, logic, assertEq, bitEq, decompose, rangeCheck, rangeBits, fromBits, check, check }

  val gadInv = and {
    regs.indices().forall(i => 0 <= regs[i] and regs[i] < GP), bits.indices().forall(i => bits[i] == 0 or bits[i] == 1),
    ev.op == "to_bits" implies undigits(rev(ev.out), 2) == regs[ev.a[0]] % 2^(ev.a[1]),
    ev.op == "is_eq" implies (bits[ev.a[0]] == 1) == (regs[ev.a[1]] == regs[ev.a[2]]),
  }
}
module gadget_fr { import gadget(GP = 21888242871839275222246405745257275088548364400416034343698204186575808495617, BITS = 254).* from "./gadget" }
module gadget_fq { import gadget(GP = 21888242871839275222246405745257275088696311157297823662689037894645226208583, BITS = 254).* from "./gadget" }
