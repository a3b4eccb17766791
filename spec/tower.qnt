// State machine over registers of Fq2 (0..2), Fq6 (3..5) and Fq12 (6..8).
module tower {
  import arith.* from "./arith"
  const P: int
  const XI0: int
  const NR: int
  const LEVELS: int   // 3 = whole tower, 1 = Fq2 only (toy)
  const TOY: bool
  import ext(EP = P, EXI0 = XI0).* from "./ext"

  pure def dim(i: int): int = if (i < 3) 2 else if (i < 6) 6 else 12
  pure val NREG = 3 * LEVELS
  pure val REGS0: List[List[int]] = range(0, NREG).foldl(List(), (l, i) => l.append(eone(dim(i))))
  pure val BOUNDARY: List[int] = [0, 1, P - 1, 2, P - 2, 9, (P - 1) / 2]

  var regs: List[List[int]]
  var ev: { op: str, a: List[int], out: List[int] }

  action init = all { regs' = REGS0, ev' = { op: "init", a: List(), out: List() } }
  action setr(k: int, v: List[int], op: str, a: List[int], out: List[int]): bool = all {
    regs' = regs.replaceAt(k, v), ev' = { op: op, a: a, out: out } }

  // a coefficient list of length n from a seed value: random, boundary, sparse and subfield patterns
  pure def shape(c: int, n: int, r: int, m: int): List[int] =
    range(0, n).foldl({ l: List(), r: r, m: m }, (s, i) => {
      val rnd = md(s.r * (i + 1) + s.m * (i * i + 3), P)
      val x = if (c == 0) rnd
              else if (c == 1) BOUNDARY[s.m % BOUNDARY.length()]
              else if (c == 2) (if (i == r % n) 1 else 0)                    // basis element
              else if (c == 3) (if (i == 0) rnd else 0)                      // base field
              else if (c == 4) (if (i < 2) rnd else 0)                       // Fq2
              else if (c == 5) (if (i % 2 == 0) rnd else 0)
              else if (c == 6) (if (i < n / 2) 0 else rnd)                   // purely in the upper half
              else if (c == 7) (if (s.m % 2 == 0) rnd else 0)
              else 0
      { l: s.l.append(x), r: s.r, m: if (s.m < 7) m + 3 * i else s.m / 7 }
    }).l

  action load = {
    nondet k = oneOf(0.to(NREG - 1))
    nondet c = oneOf(0.to(8))
    nondet r = oneOf(0.to(P - 1))
    nondet m = oneOf(0.to(P - 1))
    val v = shape(c, dim(k), r, m)
    setr(k, v, "load", List(k).concat(v), List())
  }
  action binary = {
    nondet op = oneOf(Set("add", "sub", "mul"))
    nondet g = oneOf(0.to(LEVELS - 1))
    nondet i = oneOf(0.to(2))
    nondet j = oneOf(0.to(2))
    nondet k = oneOf(0.to(2))
    nondet f = oneOf(if (TOY) Set(0) else 0.to(5))
    val x = regs[3 * g + i]
    val y = regs[3 * g + j]
    setr(3 * g + k, if (op == "add") eadd(x, y) else if (op == "sub") esub(x, y) else mulE(x, y), op, [3 * g + k, 3 * g + i, 3 * g + j, f], List())
  }
  action unary = {
    nondet op = oneOf(Set("neg", "dbl", "sqr"))
    nondet g = oneOf(0.to(LEVELS - 1))
    nondet i = oneOf(0.to(2))
    nondet k = oneOf(0.to(2))
    nondet f = oneOf(if (TOY) Set(0) else 0.to(1))
    val x = regs[3 * g + i]
    setr(3 * g + k, if (op == "neg") eneg(x) else if (op == "dbl") eadd(x, x) else mulE(x, x), op, [3 * g + k, 3 * g + i, f], List())
  }
  action frob = {
    nondet g = oneOf(0.to(LEVELS - 1))
    nondet i = oneOf(0.to(2))
    nondet k = oneOf(0.to(2))
    setr(3 * g + k, frobE(regs[3 * g + i]), "frob", [3 * g + k, 3 * g + i], List())
  }
  action conj = {
    nondet i = oneOf(6.to(8))
    nondet k = oneOf(6.to(8))
    setr(k, conj12(regs[i]), "conj", [k, i], List())
  }
  // sparse multiplications: operands c0, c1, c2 are the three Fq2 registers in some order
  action sparse = {
    nondet op = oneOf(Set("by1", "by01", "by034"))
    nondet i = oneOf(0.to(2))
    nondet k = oneOf(0.to(2))
    nondet x = oneOf(0.to(2))
    nondet y = oneOf(0.to(2))
    nondet z = oneOf(0.to(2))
    val b = if (op == "by034") 6 else 3
    val s = if (op == "by1") [0, 0].concat(regs[x]).concat([0, 0])
            else if (op == "by01") regs[x].concat(regs[y]).concat([0, 0])
            else regs[x].concat([0, 0, 0, 0]).concat(regs[y]).concat(regs[z]).concat([0, 0])
    setr(b + k, mulE(regs[b + i], s), op, [b + k, b + i, x, y, z], List())
  }
  action compare = {
    nondet g = oneOf(0.to(LEVELS - 1))
    nondet i = oneOf(0.to(2))
    nondet j = oneOf(0.to(2))
    all { regs' = regs, ev' = { op: "cmp", a: [3 * g + i, 3 * g + j], out: [b2i(regs[3 * g + i] == regs[3 * g + j]), b2i(eisz(regs[3 * g + i]))] } }
  }
  action konst = {
    nondet k = oneOf(0.to(NREG - 1))
    nondet c = oneOf(Set("zero", "one", "addid", "mulid"))
    setr(k, if (c == "zero" or c == "addid") ezero(dim(k)) else eone(dim(k)), c, [k], List())
  }
  action copy = {
    nondet g = oneOf(0.to(LEVELS - 1))
    nondet i = oneOf(0.to(2))
    nondet k = oneOf(0.to(2))
    setr(3 * g + k, regs[3 * g + i], "copy", [3 * g + k, 3 * g + i], List())
  }
  action power = {
    nondet i = oneOf(0.to(2))
    nondet k = oneOf(0.to(2))
    nondet c = oneOf(0.to(3))
    nondet r = oneOf(0.to(P - 1))
    val e = if (c == 0) r % 20 else if (c == 1) P else if (c == 2) r else P - 1
    setr(k, pow2(regs[i], e), "pow", [k, i, e], List())
  }
  action divide = {
    nondet g = oneOf(0.to(LEVELS - 1))
    nondet i = oneOf(0.to(2))
    nondet j = oneOf(0.to(2))
    nondet k = oneOf(0.to(2))
    nondet f = oneOf(0.to(1))
    all { not(eisz(regs[3 * g + j])), setr(3 * g + k, mulE(regs[3 * g + i], invE(regs[3 * g + j])), "div", [3 * g + k, 3 * g + i, 3 * g + j, f], List()) }
  }
  action step = any { load, load, load, binary, binary, binary, unary, unary, frob, conj, sparse, sparse, compare, konst, copy, divide, power }

  // --- C02 on the tower: inverses at every level and square roots in Fq2
  action invert = {
    nondet g = oneOf(0.to(LEVELS - 1))
    nondet i = oneOf(0.to(2))
    nondet k = oneOf(0.to(2))
    val x = regs[3 * g + i]
    if (eisz(x)) setr(3 * g + k, regs[3 * g + k], "inv", [3 * g + k, 3 * g + i], List())
    else { val v = invE(x)
           setr(3 * g + k, v, "inv", [3 * g + k, 3 * g + i], v) }
  }
  action sqroot = {
    nondet i = oneOf(0.to(2))
    nondet k = oneOf(0.to(2))
    if (isSq2(regs[i])) { val s = sqrt2(regs[i], NR)
                          setr(k, s, "sqrt", [k, i], s) }
    else setr(k, regs[k], "sqrt", [k, i], List())
  }
  action square2 = {
    nondet i = oneOf(0.to(2))
    nondet k = oneOf(0.to(2))
    setr(k, mul2(regs[i], regs[i]), "sqr", [k, i, 0], List())
  }
  action stepPartial = any { load, load, konst, square2, sqroot, sqroot, invert, invert, divide }
  // every pair of elements of the toy field
  action stepToy = {
    nondet a = oneOf(0.to(P - 1))
    nondet b = oneOf(0.to(P - 1))
    nondet c = oneOf(0.to(P - 1))
    nondet d = oneOf(0.to(P - 1))
    all { regs' = [[a, b], [c, d], [1, 0]], ev' = { op: "pair", a: List(), out: List() } }
  }

  // --- invariants of the specification
  val shapes = regs.indices().forall(i => wf(regs[i], dim(i)))
  val results =
    if (ev.op == "inv" and ev.out.length() > 0) eisz(invE(ev.out)) == false and mulE(ev.out, invE(ev.out)) == eone(ev.out.length())
    else if (ev.op == "sqrt" and ev.out.length() > 0) isSq2(mul2(ev.out, ev.out)) and sqrt2(mul2(ev.out, ev.out), NR) == ev.out
    else true
  val towerInv = shapes and results
  // toy instance only: the definitions are the intended algebra
  val toyAlgebra = {
    val a = regs[0]
    val b = regs[1]
    and {
      mulE(a, b) == mulE(b, a),
      mulE(a, eadd(a, b)) == eadd(mulE(a, a), mulE(a, b)),
      mulE(mulE(a, b), b) == mulE(a, mulE(b, b)),
      frob2(mulE(a, b)) == mulE(frob2(a), frob2(b)),
      eisz(a) or mulE(a, invE(a)) == eone(2),
      frob2(a) == pow2(a, P),
      isSq2(a) == (0.to(P - 1).exists(x => 0.to(P - 1).exists(y => mul2([x, y], [x, y]) == a))),
      not(isSq2(a)) or mul2(sqrt2(a, NR), sqrt2(a, NR)) == a,
    }
  }
  val toyInv = towerInv and toyAlgebra
}
module tower_bn { import tower(P = 21888242871839275222246405745257275088696311157297823662689037894645226208583, XI0 = 9, NR = 3, LEVELS = 3, TOY = false).* from "./tower" }
module tower_t7 { import tower(P = 7, XI0 = 2, NR = 3, LEVELS = 1, TOY = true).* from "./tower" }
