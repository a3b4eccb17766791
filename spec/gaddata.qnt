// a sample; the check overwrites a copy of this file with the constraints recorded by the real gadgets
module gaddata {
  type Gad = { name: str, par: List[int], n: int, nin: int, ins: List[List[int]], outs: List[List[int]], hon: List[int], st: List[int], rows: List[List[List[int]]] }
  pure val GADS: List[Gad] = [
    { name: "passert", par: [1, 2, 1], n: 4, nin: 4, ins: [[1, 1], [2, 1], [3, 1]], outs: [[0, 0]], hon: [1, 1, 2, 1], st: [0, 0, 0, 0, 2], rows: [
      [[1, 1], [0, 1], [3, 1]],
      [[2, 1], [0, 1], [3, 2]]] }
  ]
}
