// The curves under test, and toy curves checked exhaustively.
module c_g1 { import curve(P = 21888242871839275222246405745257275088696311157297823662689037894645226208583, K = 0, B = [3], NR = 3,
  ORD = 21888242871839275222246405745257275088548364400416034343698204186575808495617, COF = 1,
  SC = 21888242871839275222246405745257275088548364400416034343698204186575808495617, G = [1, 2], SMALLF = 1, TOY = false).* from "./curve" }
module c_g2 { import curve(P = 21888242871839275222246405745257275088696311157297823662689037894645226208583, K = 0,
  B = [19485874751759354771024239261021720505790618469301721065564631296452457478373, 266929791119991161246907387137283842545076965332900288569378510910307636690], NR = 3,
  ORD = 21888242871839275222246405745257275088548364400416034343698204186575808495617, COF = 21888242871839275222246405745257275088844257914179612981679871602714643921549,
  SC = 21888242871839275222246405745257275088548364400416034343698204186575808495617,
  G = [10857046999023057135944570762232829481370756359578518086990519993285655852781, 11559732032986387107991004021392285783925812861821192530917403151452391805634, 8495653923123431417604973247489272438418190587263600148770280649306958101930, 4082367875863433681332203403145435568316851327593401208105741076214120093531],
  SMALLF = 10069, TOY = false).* from "./curve" }
module c_grumpkin { import curve(P = 21888242871839275222246405745257275088548364400416034343698204186575808495617, K = 0,
  B = [21888242871839275222246405745257275088548364400416034343698204186575808495600], NR = 5,
  ORD = 21888242871839275222246405745257275088696311157297823662689037894645226208583, COF = 1,
  SC = 21888242871839275222246405745257275088696311157297823662689037894645226208583,
  G = [1, 17631683881184975370165255887551781615748388533673675138860], SMALLF = 1, TOY = false).* from "./curve" }
module c_jubjub { import curve(P = 52435875175126190479447740508185965837690552500527637822603658699938581184513, K = 1,
  B = [19257038036680949359750312669786877991949435402254120286184196891950884077233], NR = 5,
  ORD = 6554484396890773809930967563523245729705921265872317281365359162392183254199, COF = 8,
  SC = 52435875175126190479447740508185965837690552500527637822603658699938581184513,
  G = [28867639725710769449342053336011988556061781325688749245863888315629457631946, 18], SMALLF = 8, TOY = false).* from "./curve" }
// y^2 = x^3 + 3 over F_7 has 13 points; -x^2 + y^2 = 1 + d x^2 y^2 has 8 points over F_5 (d = 3) and 16 over F_13 (d = 2)
module c_t7 { import curve(P = 7, K = 0, B = [3], NR = 3, ORD = 13, COF = 1, SC = 13, G = [1, 2], SMALLF = 1, TOY = true).* from "./curve" }
module c_e13 { import curve(P = 13, K = 1, B = [2], NR = 2, ORD = 1, COF = 16, SC = 19, G = [0, 12], SMALLF = 1, TOY = true).* from "./curve" }
module c_e5 { import curve(P = 5, K = 1, B = [3], NR = 2, ORD = 1, COF = 8, SC = 11, G = [1, 2], SMALLF = 1, TOY = true).* from "./curve" }
