// Circuits as programs: wires that are free or products of earlier combinations, and rows a * b = c over all wires.
module progs {
  import arith.* from "./arith"
  const PR: int // the circuit field
  type Prog = { kinds: List[int],            // wire kinds: 0 public, 1 private; wire 0 is the constant one
                defs: List[List[List[int]]], // [] for a free wire, [a, b] when the wire is the product of two linear combinations
                rows: List[List[List[int]]] } // a * b = c; a linear combination lists wires, each followed by its coefficient
  pure val EMPTY: Prog = { kinds: [0], defs: [[]], rows: [] }
  pure def lc(t: List[int], z: List[int]): int = md(range(0, t.length() / 2).foldl(0, (s, i) => s + z[t[2 * i]] * t[2 * i + 1]), PR)
  pure def coef(t: List[int], w: int): int = range(0, t.length() / 2).foldl(0, (s, i) => if (t[2 * i] == w) s + t[2 * i + 1] else s)
  pure def holds(p: Prog, z: List[int]): bool = p.rows.indices().forall(i => md(lc(p.rows[i][0], z) * lc(p.rows[i][1], z) - lc(p.rows[i][2], z), PR) == 0)
  // values of all wires from those of the free ones (given for every wire, used for free ones)
  pure def wires(p: Prog, free: List[int]): List[int] =
    range(1, p.kinds.length()).foldl([1], (z, w) => z.append(if (p.defs[w].length() == 0) free[w] else md(lc(p.defs[w][0], z) * lc(p.defs[w][1], z), PR)))
  pure def ofKind(p: Prog, k: int): List[int] = range(0, p.kinds.length()).foldl(List(), (l, w) => if (p.kinds[w] == k) l.append(w) else l)
  pure def pubOf(p: Prog, z: List[int]): List[int] = ofKind(p, 0).slice(1, ofKind(p, 0).length()).foldl(List(), (l, w) => l.append(z[w]))

  pure def free(p: Prog, k: int): Prog = { kinds: p.kinds.append(k), defs: p.defs.append([]), rows: p.rows }
  pure def row(p: Prog, a: List[int], b: List[int], c: List[int]): Prog = p.with("rows", p.rows.append([a, b, c]))
  pure def product(p: Prog, k: int, a: List[int], b: List[int]): Prog =
    { kinds: p.kinds.append(k), defs: p.defs.append([a, b]), rows: p.rows.append([a, b, [p.kinds.length(), 1]]) }
  // a whole circuit at once: free wires, products of one- and two-term combinations, and rows that follow
  pure def h(s: int, i: int, m: int): int = range(0, 3).foldl(s + 15485863 * (i + 1), (x, j) => (x * 6364136223846793005 + 1442695040888963407 + j) % 2^120) / 2^90 % m
  pure def cf(s: int, i: int): int = [1, 2, PR - 1, 5 % PR, PR / 2, 1 + h(s, i + 1, PR - 1)][h(s, i, 6)]
  pure def lcOf(s: int, i: int, n: int): List[int] = {
    val x = h(s, i, n) val y = h(s, i + 1, n)
    if (x == y or h(s, i + 2, 3) == 0) [x, cf(s, i + 3)] else [x, cf(s, i + 3), y, cf(s, i + 5)]
  }
  pure def gen(s: int, n: int): Prog = range(0, n).foldl(free(EMPTY, h(s, 1, 2)), (p, i) => {
    val b = 40 * (i + 1)
    val w = p.kinds.length()
    val k = h(s, b, 9)
    val x = h(s, b + 1, w)
    if (k == 0) free(p, h(s, b + 2, 2))
    else if (k == 1) { val c = cf(s, b + 3) row(p, [x, c], [0, 1], [x, c]) }
    else if (k == 2 and p.defs[x].length() > 0) row(p, p.defs[x][1], p.defs[x][0], [x, 1])
    else product(p, if (h(s, b + 4, 3) == 0) 0 else 1, lcOf(s, b + 6, w), lcOf(s, b + 16, w))
  })
}
