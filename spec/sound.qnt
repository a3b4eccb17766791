// A prover who may put any value on any wire. The rows are those the real builder recorded for each gadget over a small
// field (gaddata.qnt is written by the harness); wires are assigned one after the other, and an assignment is abandoned
// as soon as a row all of whose wires are assigned fails. Whatever survives must satisfy the gadget's relation.
module sound {
  import arith.* from "./arith"
  import gaddata.* from "./gaddata"
  const SP: int
  const SB: int
  import ec(CP = SP, KIND = 0, CB = [SB], CNR = 3).* from "./ec"
  var g: int
  var name: str
  var asg: List[int]

  // a linear combination is the list of its wires, each followed by its coefficient
  pure def lc(t: List[int], z: List[int]): int = md(range(0, t.length() / 2).foldl(0, (s, i) => s + z[t[2 * i]] * t[2 * i + 1]), SP)
  pure def holds(r: List[List[int]], z: List[int]): bool = md(lc(r[0], z) * lc(r[1], z) - lc(r[2], z), SP) == 0
  pure def isBit(v: int): bool = v == 0 or v == 1
  // projective coordinates of a curve point
  pure def isPt(x: int, y: int, z: int): bool = md(y * y * z - x * x * x - SB * z * z * z, SP) == 0 and (x != 0 or y != 0 or z != 0)
  pure def pt(x: int, y: int, z: int): List[int] = if (z == 0) O else [md(x * inv(z, SP), SP), md(y * inv(z, SP), SP)]
  pure def samePt(p: List[int], x: int, y: int, z: int): bool = isPt(x, y, z) and pt(x, y, z) == p
  pure def lowBits(v: int, n: int): List[int] = range(0, n).foldl(List(), (l, i) => l.append(if (n - 1 - i > 20) 0 else (v / 2^(n - 1 - i)) % 2))
  pure def bitsVal(i: List[int], from: int): int = range(from, i.length()).foldl(0, (s, k) => 2 * s + i[k])

  // what the caller must provide: curve points with the scale the constructor gives them
  pure def given(k: str, i: List[int]): bool = and {
    i.length() >= 3 and Set("padd", "pcsel", "pdbl", "pselid").contains(k) implies isPt(i[0], i[1], i[2]) and isBit(i[2]),
    i.length() >= 3 and Set("descale", "passert").contains(k) implies isPt(i[0], i[1], i[2]),
    i.length() >= 6 and Set("padd", "pcsel").contains(k) implies isPt(i[3], i[4], i[5]) and isBit(i[5]),
  }
  pure def rel(k: str, par: List[int], i: List[int], o: List[int]): bool =
    if (k == "mul") o[0] == md(i[0] * i[1], SP)
    else if (k == "add") o[0] == md(i[0] + i[1], SP)
    else if (k == "square") o[0] == md(i[0] * i[0], SP)
    else if (k == "inputize") o[0] == i[0]
    else if (k == "is_eq") o[0] == b2i(i[0] == i[1])
    else if (k == "is_neq") o[0] == b2i(i[0] != i[1])
    else if (k == "bwit") isBit(o[0])
    else if (k == "not") isBit(i[0]) and o[0] == 1 - i[0]
    else if (k == "and") isBit(i[0]) and isBit(i[1]) and o[0] == i[0] * i[1]
    else if (k == "cselect") isBit(i[2]) and o[0] == (if (i[2] == 1) i[0] else i[1])
    else if (k == "cenforce") isBit(i[2]) and (i[2] == 0 or i[0] == i[1])
    else if (k == "bcenforce") isBit(i[2]) and isBit(i[0]) and isBit(i[1]) and (i[2] == 0 or i[0] == i[1])
    else if (k == "enforce_eq") i[0] == i[1]
    else if (k == "enforce_eq_constant") i[0] == par[0]
    else if (k == "to_bits") o == lowBits(i[0], par[0])
    else if (k == "range_check") i.indices().forall(k => isBit(i[k])) and bitsVal(i, 0) <= par[1]
    else if (k == "range_bits") i.indices().forall(k => isBit(i[k])) and bitsVal(i, 0) < 2^(par[1])
    else if (k == "enforce_bits") i.indices().forall(k => k > 0 implies isBit(i[k])) and i[0] == md(bitsVal(i, 1), SP)
    else if (k == "padd") samePt(padd(pt(i[0], i[1], i[2]), pt(i[3], i[4], i[5])), o[0], o[1], o[2])
    else if (k == "pdbl") samePt(padd(pt(i[0], i[1], i[2]), pt(i[0], i[1], i[2])), o[0], o[1], o[2])
    else if (k == "pcsel") isBit(i[6]) and samePt(if (i[6] == 1) pt(i[0], i[1], i[2]) else pt(i[3], i[4], i[5]), o[0], o[1], o[2])
    else if (k == "pselid") isBit(i[3]) and samePt(if (i[3] == 1) pt(i[0], i[1], i[2]) else O, o[0], o[1], o[2])
    else if (k == "descale") samePt(pt(i[0], i[1], i[2]), o[0], o[1], o[2]) and isBit(o[2])
    else if (k == "passert") pt(i[0], i[1], i[2]) == pt(par[0], par[1], par[2])
    else false

  action init = {
    nondet k = oneOf(GADS.indices())
    all { g' = k, name' = GADS[k].name, asg' = List() }
  }
  action step = {
    nondet v = oneOf(0.to(SP - 1))
    val d = GADS[g]
    val z = asg.append(v)
    all {
      asg.length() < d.n,
      asg.length() == 0 implies v == 1,
      d.st[asg.length()].to(d.st[z.length()] - 1).forall(i => holds(d.rows[i], z)),
      z.length() <= d.nin implies given(d.name, d.ins.foldl(List(), (l, t) => if (t[0] < z.length()) l.append(lc(t, z)) else l)),
      g' = g, name' = name, asg' = z,
    }
  }
  val complete = asg.length() == GADS[g].n
  val sound = complete implies rel(name, GADS[g].par, GADS[g].ins.foldl(List(), (l, t) => l.append(lc(t, asg))), GADS[g].outs.foldl(List(), (l, t) => l.append(lc(t, asg))))
  // the honest assignment is one of those explored
  val honest = asg.length() == 0 implies GADS[g].rows.indices().forall(i => holds(GADS[g].rows[i], GADS[g].hon))
  val soundInv = sound and honest
}
module sound_t7 { import sound(SP = 7, SB = 3).* from "./sound" }
module sound_t19 { import sound(SP = 19, SB = 3).* from "./sound" }
module sound_t11 { import sound(SP = 11, SB = 3).* from "./sound" }
