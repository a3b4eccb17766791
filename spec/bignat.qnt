// Big integers inside a circuit, as lists of limbs in base 2^64 (least significant first). A number remembers the largest
// value its limbs can have: sums are not carried.
module bignat {
  import arith.* from "./arith"
  const GP: int
  pure val W: int = 2^64
  pure val MAXW: int = 2^67 // sums keep their limbs below this
  type Num = { limbs: List[int], word: int }
  var nums: List[Num]
  var sat: bool
  var cost: int
  var ev: { op: str, a: List[int], out: List[int] }

  pure def int_of(n: Num): int = undigits(n.limbs, W)
  pure def num(v: int, k: int): Num = { limbs: digits(v, W, k), word: W - 1 }
  pure val N0: List[Num] = [num(0, 4), num(1, 4), num(GP, 4), num(2^256 - 1, 4)]
  action init = all { nums' = N0, sat' = true, cost' = 0, ev' = { op: "init", a: [], out: [] } }
  action st(l: List[Num], s: bool, c: int, op: str, a: List[int], out: List[int]): bool = all {
    nums' = l, sat' = s, cost' = cost + c, ev' = { op: op, a: a, out: out } }
  action reset = st(N0, true, -cost, "reset", [], [])

  // integers with structure: limbs of all ones or zeros, one off, around the field's order, powers of two
  pure def pick(c: int, r: int, e: int): int =
    if (c <= 1) r % 2^256
    else if (c == 2) r % 7
    else if (c == 3) 2^e
    else if (c == 4) 2^e - 1
    else if (c == 5) GP - 2 + r % 5
    else if (c == 6) 2^256 - 1 - r % 3
    else if (c == 7) range(0, 4).foldl(0, (s, i) => s * W + (if (r / 3^i % 3 == 0) 0 else if (r / 3^i % 3 == 1) W - 1 else r % W))
    else if (c == 8) r % 2^64
    else if (c == 9) 2 * GP - 2 + r % 5
    else r % 2^(e + 1)
  action alloc = {
    nondet op = oneOf(Set("witness", "constant")) nondet k = oneOf(0.to(3)) nondet c = oneOf(0.to(10)) nondet r = oneOf(0.to(2^258)) nondet e = oneOf(0.to(255))
    nondet d = oneOf(Set(0, 0, 1, 2))
    val v = pick(c, r, e)
    // as few limbs as hold it, or more
    val n = mini(4, maxi(1, (bitlen(v) + 63) / 64) + 2 * d)
    st(nums.replaceAt(k, num(v, n)), sat, 1, op, [k, v, n], [])
  }
  action ofField = {
    nondet k = oneOf(0.to(3)) nondet c = oneOf(0.to(10)) nondet r = oneOf(0.to(2^258)) nondet e = oneOf(0.to(253))
    val v = md(pick(c, r, e), GP)
    st(nums.replaceAt(k, num(v, 4)), sat, 1, "field", [k, v], [])
  }
  pure def plus(x: Num, y: Num): Num = {
    val n = maxi(x.limbs.length(), y.limbs.length())
    { limbs: range(0, n).foldl(List(), (l, i) => l.append((if (i < x.limbs.length()) x.limbs[i] else 0) + (if (i < y.limbs.length()) y.limbs[i] else 0))), word: x.word + y.word }
  }
  action add = {
    nondet k = oneOf(0.to(3)) nondet i = oneOf(0.to(3)) nondet j = oneOf(0.to(3).filter(j => nums[j].word < MAXW / 2))
    if (nums[i].word < MAXW / 2) st(nums.replaceAt(k, plus(nums[i], nums[j])), sat, 0, "add", [k, i, j], [])
    else st(nums, sat, 0, "value", [i], [int_of(nums[i])])
  }
  // the modulus has to be a number whose limbs were not added up
  def moduli: Set[int] = 0.to(3).filter(m => nums[m].word == W - 1 and int_of(nums[m]) > 0)
  action modular = {
    nondet op = oneOf(Set("mult_mod", "red_mod")) nondet k = oneOf(0.to(3)) nondet i = oneOf(0.to(3)) nondet j = oneOf(0.to(3)) nondet m = oneOf(moduli)
    val v = if (op == "red_mod") int_of(nums[i]) else int_of(nums[i]) * int_of(nums[j])
    st(nums.replaceAt(k, num(v % int_of(nums[m]), nums[m].limbs.length())), sat, 6, op, [k, i, j, m], [])
  }
  action choose = {
    nondet k = oneOf(0.to(3)) nondet i = oneOf(0.to(3)) nondet b = oneOf(0.to(1))
    nondet j = oneOf(0.to(3).filter(j => nums[j].word == nums[i].word and nums[j].limbs.length() == nums[i].limbs.length()))
    st(nums.replaceAt(k, if (b == 1) nums[i] else nums[j]), sat, 1, "cselect", [k, i, j, b], [])
  }
  // assertions
  action same = {
    nondet op = oneOf(Set("limbs_eq", "carried", "regrouped", "carried", "regrouped")) nondet i = oneOf(0.to(3)) nondet j = oneOf(0.to(3)) nondet t = oneOf(0.to(3))
    nondet d = oneOf(Set(0, 1, W, 2^128, 2^192 + 1)) nondet neg = oneOf(Set(1, -1))
    val x = nums[i]
    // t < 3: against a fresh number, equal or slightly different
    val v = maxi(0, int_of(x) + (if (t == 0) 0 else neg * d))
    val fits = int_of(x) < 2^256 and v < 2^256
    if (t < 3 and fits) {
      val n = if (op == "limbs_eq") x.limbs.length() else mini(4, maxi(1, (bitlen(v) + 63) / 64) + t)
      val y = num(v, if (bitlen(v) > 64 * n) 4 else n)
      all { op != "limbs_eq" or y.limbs.length() == x.limbs.length(),
            st(nums, sat and (if (op == "limbs_eq") x.limbs == y.limbs else int_of(x) == v), 3, op, [i, -1, v, y.limbs.length()], []) }
    } else {
      val y = nums[j]
      if (op == "limbs_eq" and x.limbs.length() != y.limbs.length()) st(nums, sat, 0, "value", [i], [int_of(x)])
      else st(nums, sat and (if (op == "limbs_eq") x.limbs == y.limbs else int_of(x) == int_of(y)), 3, op, [i, j, 0, 0], [])
    }
  }
  action wellFormed = {
    nondet i = oneOf(0.to(3))
    st(nums, sat and nums[i].limbs.indices().forall(k => nums[i].limbs[k] < W), 4, "well_formed", [i], [])
  }
  action group = {
    nondet i = oneOf(0.to(3)) nondet g = oneOf(1.to(3))
    val l = nums[i].limbs
    val n = (l.length() + g - 1) / g
    st(nums, sat, 1, "group", [i, g], range(0, n).foldl(List(), (o, q) => o.append(md(range(0, g).foldl(0, (s, t) => s + (if (q * g + t < l.length()) l[q * g + t] * W^t else 0)), GP))))
  }
  action look = { nondet i = oneOf(0.to(3)) st(nums, sat, 0, "value", [i], [int_of(nums[i])]) }
  // outside circuits: integers, field elements, limbs of any width
  action convert = {
    nondet c = oneOf(0.to(10)) nondet r = oneOf(0.to(2^258)) nondet e = oneOf(0.to(255)) nondet w = oneOf(Set(1, 8, 16, 31, 32, 63, 64, 65, 100, 128)) nondet x = oneOf(0.to(3))
    val v = pick(c, r, e)
    val n = (bitlen(v) + w - 1) / w + x
    st(nums, sat, 0, "convert", [v, w, n], [md(v, GP)].concat(digits(v, 2^w, n)))
  }
  action wide = {
    nondet r = oneOf(0.to(2^510)) nondet e = oneOf(1.to(510))
    val v = r % 2^e
    st(nums, sat, 0, "wide", [v], [md(v, GP)])
  }
  action check = st(nums, sat, 0, "sat", [], [b2i(sat)])
  action step = if (not(sat) and ev.op != "sat") check else if (not(sat) or cost > 40) reset
    else any { alloc, alloc, alloc, ofField, add, add, modular, modular, modular, choose, same, same, wellFormed, group, look, convert, wide, check }

  val bigInv = and {
    nums.indices().forall(k => nums[k].limbs.indices().forall(i => 0 <= nums[k].limbs[i] and nums[k].limbs[i] <= nums[k].word)),
    (ev.op == "mult_mod" or ev.op == "red_mod") implies nums[ev.a[0]].word == W - 1,
    ev.op == "group" implies true,
    ev.op == "convert" implies undigits(ev.out.slice(1, ev.out.length()), 2^ev.a[1]) == ev.a[0],
  }

  // ---- a prover that does not compute what it should ----
  // each attack is a gadget on three numbers, and lies: which of the free wires, what pattern, how much
  action attack = {
    nondet op = oneOf(Set("lie_mult_mod", "lie_red_mod", "lie_carried", "lie_regrouped", "lie_well_formed", "lie_field", "lie_select"))
    nondet c1 = oneOf(0.to(10)) nondet r1 = oneOf(0.to(2^258)) nondet e1 = oneOf(0.to(255))
    nondet c2 = oneOf(0.to(10)) nondet r2 = oneOf(0.to(2^258)) nondet e2 = oneOf(0.to(255))
    nondet c3 = oneOf(Set(5, 0, 4, 8)) nondet seed = oneOf(0.to(2^200))
    val a = pick(c1, r1, e1)
    val b = pick(c2, r2, e2)
    val m = maxi(1, pick(c3, r1 + r2, e1))
    val lies = range(0, 24).foldl({ l: List(), s: seed }, (t, _i) => {
      val s = (t.s * 6364136223846793005 + 1442695040888963407) % 2^230
      { l: t.l.concat([s / 2^100 % 2^31, s / 2^80 % 6, s / 2^60 % 12, s % 2^60]), s: s } }).l
    val fv = md(a, GP)
    st(N0, true, -cost, op, [a, b, m].concat(lies),
      if (op == "lie_mult_mod") [a * b % m] else if (op == "lie_red_mod") [a % m] else if (op == "lie_field") [fv]
      else if (op == "lie_select") [a] else [b2i(a == b)])
  }
}
module bignat_fr { import bignat(GP = 21888242871839275222246405745257275088548364400416034343698204186575808495617).* from "./bignat" }
module bignat_fq { import bignat(GP = 21888242871839275222246405745257275088696311157297823662689037894645226208583).* from "./bignat" }
