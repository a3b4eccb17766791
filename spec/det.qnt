// Results as functions of randomness: which runs must agree, which must not, and how drawn elements are spread.
module det {
  const NAMES: int          // number of kinds of run
  const INPUTS: List[int]   // how many inputs each kind has
  const DRAWS: List[int]    // elements of randomness each of which matters to the result; 0: no randomness is used
  const SEEDS: Set[int]
  const THREADS: Set[int]
  const LIMIT: int          // runs of a behaviour
  const SPREADS: List[int]  // sizes of the samples of each drawn kind
  const TOY: bool

  // a source of randomness: where it started and the runs it has served
  type H = { seed: int, path: List[int] }
  // change: the element of randomness that is different from what the source would give, -1 for none
  type Run = { kind: int, input: int, h: H, change: int }
  var handles: List[H]
  var runs: List[Run]
  var ev: { op: str, a: List[int], out: List[int] }
  pure val HS = 3

  pure val SAME = 1
  pure val DIFFERENT = 2
  pure val OPEN = 0
  pure def startsWith(a: List[int], b: List[int]): bool = a.length() <= b.length() and b.slice(0, a.length()) == a
  // what must hold between the results of two runs, whatever the number of threads and whatever ran in between
  pure def relation(a: Run, b: Run): int =
    if (a.kind != b.kind or a.input != b.input) OPEN
    else if (DRAWS[a.kind] == 0) SAME
    else if (a.h == b.h) (if (a.change == b.change) SAME else DIFFERENT)
    else if (a.h.seed != b.h.seed) DIFFERENT
    else if (startsWith(a.h.path, b.h.path) or startsWith(b.h.path, a.h.path)) DIFFERENT
    else OPEN
  pure def code(kind: int, input: int): int = kind * 100 + input

  action init = all { handles' = [{ seed: 1, path: [] }, { seed: 1, path: [] }, { seed: 2, path: [] }], runs' = [], ev' = { op: "init", a: [], out: [] } }
  action run_(k: int, x: int, i: int, c: int, t: int): bool = {
    val r = { kind: k, input: x, h: handles[i], change: c }
    all {
      runs' = runs.append(r),
      // a run on changed randomness is made on a copy
      handles' = if (c < 0 and DRAWS[k] > 0) handles.replaceAt(i, { seed: handles[i].seed, path: handles[i].path.append(code(k, x)) }) else handles,
      ev' = { op: "run", a: [k, x, i, c, t], out: range(0, runs.length()).foldl(List(), (l, j) => l.append(relation(runs[j], r))) }
    }
  }
  action seed(i: int, s: int): bool = all { handles' = handles.replaceAt(i, { seed: s, path: [] }), runs' = runs, ev' = { op: "seed", a: [i, s], out: [] } }
  action copy(i: int, j: int): bool = all { handles' = handles.replaceAt(i, handles[j]), runs' = runs, ev' = { op: "copy", a: [i, j], out: [] } }
  // n draws: each sixteenth of the field, each last digit, each middle digit and each pair of neighbours' last digits
  // comes up as often as the others, to within six and a half standard deviations: (16 count - n)^2 <= out
  action spread(k: int, s: int): bool = all { handles' = handles, runs' = runs, ev' = { op: "spread", a: [k, SPREADS[k], s], out: [634 * SPREADS[k]] } }

  action running = {
    nondet k = oneOf(0.to(NAMES - 1)) nondet x = oneOf(0.to(INPUTS[k] - 1)) nondet i = oneOf(0.to(HS - 1)) nondet t = oneOf(THREADS)
    nondet c = oneOf((-3).to(DRAWS[k] - 1))
    run_(k, x, i, if (c < -1) -1 else c, t)
  }
  // repeat an earlier run elsewhere
  action again = {
    nondet n = oneOf(0.to(runs.length() - 1)) nondet t = oneOf(THREADS) nondet i = oneOf(0.to(HS - 1)) nondet c = oneOf((-2).to(0))
    run_(runs[n].kind, runs[n].input, i, if (c < 0 or DRAWS[runs[n].kind] == 0) -1 else runs[n].change, t)
  }
  action moving = {
    nondet i = oneOf(0.to(HS - 1)) nondet j = oneOf(0.to(HS - 1)) nondet s = oneOf(SEEDS) nondet c = oneOf(Set(true, false))
    if (c) seed(i, s) else copy(i, j)
  }
  action step = {
    nondet c = oneOf(0.to(9))
    if (runs.length() >= LIMIT) all { handles' = [{ seed: 1, path: [] }, { seed: 1, path: [] }, { seed: 2, path: [] }], runs' = [], ev' = { op: "init", a: [], out: [] } }
    else if (c < 3) moving
    else if (c == 3 and SPREADS != []) { nondet k = oneOf(0.to(SPREADS.length() - 1)) nondet s = oneOf(0.to(2^60)) spread(k, s) }
    else if (c < 7 and runs != []) again
    else running
  }

  // ---- toy: any code that is a function of its input and of the words it takes from its source keeps the relation ----
  pure def word(s: int, n: int): int = s * 100 + n
  pure def taken(kind: int, input: int): int = DRAWS[kind] + input
  pure def place(path: List[int]): int = path.foldl(0, (n, c) => n + taken(c / 100, c % 100))
  pure def result(r: Run): List[int] =
    if (DRAWS[r.kind] == 0) [r.kind, r.input]
    else range(0, taken(r.kind, r.input)).foldl([r.kind, r.input], (l, j) => l.append(word(r.h.seed, place(r.h.path) + j) + (if (j == r.change) 50 else 0)))
  action stepToy = {
    nondet k = oneOf(0.to(NAMES - 1)) nondet x = oneOf(0.to(1)) nondet i = oneOf(0.to(1)) nondet j = oneOf(0.to(1)) nondet c = oneOf((-1).to(1)) nondet s = oneOf(SEEDS) nondet o = oneOf(0.to(3))
    if (o < 2) all { runs.length() < LIMIT, c < DRAWS[k], x < INPUTS[k], run_(k, x, i, c, 1) } else if (o == 2) all { handles[i].path != [], seed(i, s) } else all { handles[i] != handles[j], copy(i, j) }
  }
  val toyInv = range(0, runs.length()).foldl(true, (ok, i) => ok and range(0, i).foldl(true, (ok2, j) => {
    val rel = relation(runs[i], runs[j]) val same = result(runs[i]) == result(runs[j])
    ok2 and (rel == SAME implies same) and (rel == DIFFERENT implies not(same)) }))
  // agreement is an equivalence
  val detInv = range(0, runs.length()).foldl(true, (ok, i) => ok and relation(runs[i], runs[i]) == SAME and range(0, i).foldl(true, (ok2, j) => ok2 and
    relation(runs[i], runs[j]) == relation(runs[j], runs[i]) and
    (relation(runs[i], runs[j]) == SAME implies range(0, j).foldl(true, (ok3, m) => ok3 and relation(runs[i], runs[m]) == relation(runs[j], runs[m])))))
}
// elements and points
module det_draws {
  import det(NAMES = 11, INPUTS = [1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], DRAWS = [1, 1, 1, 1, 2, 6, 12, 1, 1, 1, 1], SEEDS = 1.to(4), THREADS = Set(1, 2, 8), LIMIT = 40,
    SPREADS = [131072, 131072, 131072, 131072, 65536, 16384, 8192, 4096, 2048, 4096, 4096], TOY = false).* from "./det"
}
// set-up of three circuits, proofs for satisfying assignments of each
module det_groth {
  import det(NAMES = 2, INPUTS = [3, 6], DRAWS = [5, 2], SEEDS = 1.to(4), THREADS = Set(1, 2, 8), LIMIT = 20, SPREADS = [], TOY = false).* from "./det"
}
// commitment keys of 2 to 33 generators over both curves (their last draws matter too), and foldings
module det_nova {
  import det(NAMES = 10, INPUTS = [1, 1, 1, 1, 1, 1, 1, 1, 3, 3], DRAWS = [2, 3, 5, 9, 2, 3, 5, 9, 0, 0], SEEDS = 1.to(4), THREADS = Set(1, 2, 8), LIMIT = 24, SPREADS = [], TOY = false).* from "./det"
}
// parameters of recursive proofs, and proofs of executions
module det_ivc {
  import det(NAMES = 2, INPUTS = [1, 2], DRAWS = [1000, 0], SEEDS = 1.to(2), THREADS = Set(1, 8), LIMIT = 12, SPREADS = [], TOY = false).* from "./det"
}
module det_toy {
  import det(NAMES = 2, INPUTS = [2, 1], DRAWS = [2, 0], SEEDS = Set(1, 2), THREADS = Set(1), LIMIT = 3, SPREADS = [], TOY = true).* from "./det"
}
