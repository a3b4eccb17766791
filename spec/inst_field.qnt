// Instances of the field machine: the implemented primes, and toy primes for exhaustive checking.
module field_fr { import field(P = 21888242871839275222246405745257275088548364400416034343698204186575808495617, W = 4, NR = 5, TOY = false).* from "./field" }
module field_fq { import field(P = 21888242871839275222246405745257275088696311157297823662689037894645226208583, W = 4, NR = 3, TOY = false).* from "./field" }
module field_bls { import field(P = 52435875175126190479447740508185965837690552500527637822603658699938581184513, W = 4, NR = 5, TOY = false).* from "./field" }
module field_b384 { import field(P = 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787, W = 6, NR = 2, TOY = false).* from "./field" }
module field_t13 { import field(P = 13, W = 1, NR = 2, TOY = true).* from "./field" }
module field_t17 { import field(P = 17, W = 1, NR = 3, TOY = true).* from "./field" }
