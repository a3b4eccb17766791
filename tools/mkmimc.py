"""Round constants of the transcript hash, from their definition: BLAKE2b-512 personalised "mimc", the digest absorbed again before each constant."""
import hashlib, sys, pathlib
R = 21888242871839275222246405745257275088548364400416034343698204186575808495617
Q = 21888242871839275222246405745257275088696311157297823662689037894645226208583
def constants(p, n=46):
    h = hashlib.blake2b(digest_size=64, person=b"mimc")
    out = []
    for _ in range(n):
        h.update(h.digest())
        out.append(int.from_bytes(h.digest(), "little") % p)
    return out
t = "// Generated by tools/mkmimc.py: round constants of the transcript hash over the two fields.\nmodule mimcdata {\n"
for name, p in (("MIMC_R", R), ("MIMC_Q", Q)):
    t += f"  pure val {name}: List[int] = [\n    " + ",\n    ".join(map(str, constants(p))) + "]\n"
pathlib.Path(__file__).parent.parent.joinpath("spec/mimcdata.qnt").write_text(t + "}\n")
