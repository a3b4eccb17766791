"""Which machines, behaviours and models decide which property."""
HOOKED = {"groth", "nova"}  # harness crates built with --cfg kogarashi_verif


def sim(name, file, main, step, crate, machine, samples, steps, inv=None, shards=1, **kw):
    return dict(kind="replay", name=name, file=file, main=main, step=step, crate=crate, machine=machine, samples=samples, steps=steps,
                inv=inv, shards=shards, **kw)


def mc(name, file, main, inv, backend="tlc", **kw):
    return dict(kind="mc", name=name, file=file, main=main, inv=inv, backend=backend, **kw)


FIELDS = ["fr", "fq", "bls", "b384"]


def field(step):
    def jobs(tier):
        q = tier == "quick"
        l = [sim(f"field_{f}_{step}", "inst_field.qnt", f"field_{f}", step, "alg", f"field_{f}", 16 if q else 80, 150, "fieldInv",
                 shards=(2 if f in ("fr", "fq") else 1) * (1 if q else 3)) for f in FIELDS]
        l.append(mc("field_t13", "inst_field.qnt", "field_t13", "fieldInv", step="stepToy"))
        if not q:
            l.append(mc("field_t17", "inst_field.qnt", "field_t17", "fieldInv", step="stepToy"))
        return l
    return jobs


def both(*fs):
    return lambda tier: [j for f in fs for j in f(tier)]


def tower(step, toy=True):
    def jobs(tier):
        q = tier == "quick"
        l = [sim(f"tower_{step}", "tower.qnt", "tower_bn", step, "alg", "tower", 8 if q else 40, 120, "towerInv", shards=4 if q else 8)]
        if toy:
            l.append(mc("tower_t7", "tower.qnt", "tower_t7", "toyInv", step="stepToy"))
        return l
    return jobs


CURVES = ["g1", "g2", "grumpkin", "jubjub"]


def curve(step, curves=CURVES, samples=10, steps=80, inv=True, toys=("c_t7", "c_e5")):
    def jobs(tier):
        q = tier == "quick"
        l = [sim(f"{c}_{step}", "inst_curve.qnt", "c_" + c, step, "alg", "c_" + c, samples * (1 if q else 6), steps, "curveInv" if inv else None, shards=2 if q else 4) for c in curves]
        l += [mc(t, "inst_curve.qnt", t, "toyInv", step="stepToy") for t in toys]
        if not q:
            l.append(mc("c_e13", "inst_curve.qnt", "c_e13", "toyInv", step="stepToy"))
        return l
    return jobs


def pairing(tier):
    q = tier == "quick"
    return [sim("pairing", "pairing.qnt", "pairing_bn", "step", "alg", "pairing", 10 if q else 60, 80, "pairInv", shards=8),
            mc("pairing_t5", "pairing.qnt", "pairing_t5", "toyInv", step="stepToy")]


def simple(machines, file, step, crate, inv, samples, steps, mcs=(), shards=2, **kw):
    def jobs(tier):
        q = tier == "quick"
        l = [sim(f"{m}_{step}", file, m, step, crate, m, samples * (1 if q else 6), steps, inv, shards=shards if q else shards * 2, **kw) for m in machines]
        return l + [mc(*a[:4], **a[4]) for a in mcs]
    return jobs


def sound(tier):
    l = [("t7", "sound_t7", 4), ("t11", "sound_t11", 4), ("p7", "sound_t7", 2)]
    if tier != "quick":
        l += [("t19", "sound_t19", 4), ("p19", "sound_t19", 3)]
    return [dict(kind="explore", name=f"sound_{m}", main=main, inv="soundInv", file="sound.qnt", crate="circ", machine=f"sound_{m}", shards=n) for m, main, n in l]


def threads(name, file, main, step, samples, steps, crate="groth", machine=None):
    def jobs(tier):
        return [sim(f"{name}_{step}_threads{n}", file, main, step, crate, machine or name, samples * (1 if tier == "quick" else 5), steps,
                    env={"RAYON_NUM_THREADS": n}) for n in ("1", "8")]
    return jobs


def msm(machine, main):
    def jobs(tier):
        q = tier == "quick"
        l = [sim(f"{machine}_threads{n}", "msm.qnt", main, "step", "groth", machine, 8 if q else 40, 50, "msmInv" if n == "1" else None, env={"RAYON_NUM_THREADS": n},
                 shards=1 if q else 2) for n in ("1", "8")]
        if not q and main == "msm_r":
            l.append(sim(f"{machine}_big", "msm.qnt", "msm_big", "step", "groth", machine, 10, 30))
        return l
    return jobs


def groth(step, machine, samples, steps):
    def jobs(tier):
        q = tier == "quick"
        return [sim(f"{machine}_{step}", "groth.qnt", "groth_bn", step, "groth", machine, samples * (1 if q else 6), steps, "grothInv", shards=4 if q else 8),
                mc("groth_t13", "groth.qnt", "groth_t13", "toyInv", step="stepToy")]
    return jobs


FOLD_TOY = [("fold_t5", "nova.qnt", "fold_t5", "toyInv", dict(init="initToy", step="stepToy"))]


def folding(step, inv, samples, steps, toy=True):
    return simple(["fold_gk", "fold_g1"], "nova.qnt", step, "nova", inv, samples, steps, shards=3, mcs=FOLD_TOY if toy else [])


CHECKS = {
    "C01": dict(level="model_checking", jobs=field("stepArith"),
                rule="behaviours of the field machine (5 registers, boundary limb patterns, every operator spelling) replayed in the real types; a step is distinct by (operation, spelling, arguments, resulting state)"),
    "C02": dict(level="model_checking", jobs=both(field("stepPartial"), tower("stepPartial", False)),
                rule="behaviours of inversion, division and square root over boundary, random and squared values, including zero and non-squares"),
    "C03": dict(level="model_checking", jobs=field("stepRepr"),
                rule="behaviours of parsing (integers around the modulus and the limb boundary), wide reduction and every display of an element"),
    "C04": dict(level="model_checking", jobs=tower("step"),
                rule="behaviours of the tower machine (three registers per level, boundary, sparse and subfield coefficient patterns, every operator spelling) replayed in Fq2, Fq6 and Fq12"),
    "C05": dict(level="model_checking", jobs=curve("step", samples=20, steps=120),
                rule="behaviours of the point-group machine on four curves (four registers, identity, equal, opposite and small-order operands, projective forms scaled by random z) in every affine/projective and by-value/by-reference/assigning spelling"),
    "C06": dict(level="model_checking", jobs=curve("stepMul"),
                rule="behaviours of the scalar multiplication machine over boundary and random scalars and points in every spelling"),
    "C07": dict(level="model_checking", jobs=curve("stepMember", inv=False),
                rule="behaviours of the membership machine: arbitrary coordinate pairs on and off the curve, and G2 curve points outside the subgroup including small-order ones"),
    "C08": dict(level="model_checking", jobs=pairing,
                rule="behaviours of the pairing machine (G1, G2 and GT registers tracked by exponent) with single and product pairings of up to five pairs including identities and repetitions"),
    "C09": dict(level="model_checking", jobs=both(
                    simple(["fft_fr"], "fft.qnt", "step", "groth", None, 20, 80, shards=4, mcs=[("fft_t5", "fft.qnt", "fft_t5", "toyInv", dict(step="stepToy"))]),
                    threads("fft_fr", "fft.qnt", "fft_fr", "step", 8, 60)),
                rule="behaviours of the polynomial machine (transforms, coset transforms, inverses, pointwise and coefficient arithmetic, domains of 2 to 512 points, short and full lists) replayed in the real domains with one and with eight worker threads"),
    "C10": dict(level="model_checking", jobs=both(
                    msm("msm_g1", "msm_r"), msm("msm_g2", "msm_r"), msm("msm_gk", "msm_q"),
                    lambda tier: [mc("msm_t7", "msm.qnt", "msm_t7", "toyInv", step="stepToy")]),
                rule="lists of up to 150 (thorough: 1030) points and scalars, even and uneven, with repeated, opposite and identity points and boundary scalars on three curves, replayed with one and with eight worker threads"),
    "C11": dict(level="model_checking", jobs=simple(["r1cs_fr", "r1cs_fq"], "r1cs.qnt", "step", "circ", "rcsInv", 30, 120, shards=3,
                mcs=[("r1cs_t3", "r1cs.qnt", "r1cs_t3", "toyInv", dict(step="stepToy"))]),
                rule="behaviours of the constraint-system machine (linear combinations over public, private and constant wires, four gates, satisfied and broken rows) with every row also evaluated under other assignments"),
    "C12": dict(level="model_checking", jobs=simple(["gadget_fr", "gadget_fq"], "gadget.qnt", "step", "circ", "gadInv", 25, 80, shards=3),
                rule="behaviours of the gadget machine (values, bits, public inputs and truth of all assertions) over boundary and random values, true and false assertions"),
    "C13": dict(level="model_checking", jobs=sound,
                rule="every assignment of the wires of each gadget's recorded constraints over small fields: wires take every field value, rows prune; each surviving assignment is checked against the gadget's relation"),
    "C14": dict(level="model_checking", jobs=simple(["ptgadget_g1", "ptgadget_gk"], "ptgadget.qnt", "step", "circ", "ptInv", 20, 60, shards=4),
                rule="behaviours of the in-circuit point machine over both curves: identity, equal and opposite operands, boundary scalars, true and false public equality checks"),
    "C15": dict(level="model_checking", jobs=groth("stepHonest", "groth_verdict", 16, 60),
                rule="honest sessions: circuits of 0 to 20 rows over public, private and constant wires, set up with trapdoors of every kind, proved for satisfying assignments and verified; a step is distinct by (operation, arguments, result)"),
    "C16": dict(level="model_checking", jobs=groth("step", "groth_verdict", 16, 60),
                rule="adversarial sessions: unsatisfying assignments, altered, mixed, replayed and simulated proofs, other inputs, keys of other circuits, compared with the verdict the verification equation gives in exponents"),
    "C17": dict(level="model_checking", jobs=groth("stepHonest", "groth_params", 16, 60),
                rule="honest sessions with scripted trapdoors and blinding: every element of the parameters and of each proof compared with its exponent in the scheme"),
    "C18": dict(level="model_checking", jobs=folding("stepCommit", "sane", 8, 60, False),
                rule="behaviours of the commitment machine: vectors of every length up to the key's (zero, unit, maximal, random), pairs of vectors and a scalar, keys generated from randomness of sizes 2 to 17 probed generator by generator"),
    "C19": dict(level="model_checking", jobs=folding("stepHonest", "honestInv", 8, 50),
                rule="honest folding sessions over random circuits (0 to 12 rows, any mix of public and private wires): chains of folds of satisfied pairs, every field of the folded instance and witness, the cross term and its commitment compared with the specification, prover against verifier"),
    "C20": dict(level="model_checking", jobs=both(folding("step", "foldInv", 8, 50), folding("stepLate", None, 2, 20, False)),
                rule="adversarial folding sessions: unsatisfying, spoiled, resized, arbitrary relaxed pairs, folded and asked for satisfaction; verifier on arbitrary cross-term commitments; pairs picked after the challenge"),
    "C21": dict(level="model_checking", jobs=simple(["oracle_gk", "oracle_g1"], "mimc.qnt", "step", "nova", "oracleInv", 10, 60, shards=3),
                rule="transcripts of field elements, vectors and points (identity included) extended, edited and squeezed to challenges of several widths, natively and in a circuit, compared with the specified sponge"),
    "C22": dict(level="model_checking", jobs=simple(["bignat_fr", "bignat_fq"], "bignat.qnt", "step", "nova", "bigInv", 24, 60, shards=4),
                rule="behaviours of the big-integer machine (four numbers of one to four limbs, sums that are not carried, values at limb boundaries and around the field's order) through allocation, addition, reduction, modular product, selection, grouping, true and false equality and range assertions, and the conversions outside circuits"),
    "C23": dict(level="model_checking", jobs=both(simple(["nifs_gk", "nifs_g1"], "nifs.qnt", "step", "nova", "stepInv", 12, 40, shards=2), simple(["nifs_gk", "nifs_g1"], "nifs.qnt", "stepAug", "nova", "stepInv", 8, 40, shards=2)),
                rule="running instances, fresh instances and cross-term commitments of every edge kind (identities, equal and opposite points, limb boundaries, accumulated slack of u) folded natively and in the circuit, hashed natively and in the circuit, and put through the augmented step circuit on both sides of the cycle, at step zero and later, linked and not"),
    "C24": dict(level="model_checking", jobs=simple(["ivc_bg", "ivc_gb"], "ivc.qnt", "stepHonest", "nova", "ivcInv", 1, 13, shards=1, replay_timeout=800),
                rule="executions of two pairs of step functions on both sides of the cycle from edge and random initial states, set up with real parameters: every proof states the number of steps and the iterated states, is accepted, and survives its encoding"),
    "C25": dict(level="model_checking", jobs=both(
                    simple(["ivc_bg", "ivc_gb"], "ivc.qnt", "stepAlter", "nova", "ivcInv", 1, 45, shards=3, replay_timeout=800),
                    simple(["ivc_bg", "ivc_gb"], "ivc.qnt", "stepAttack", "nova", "soundInv", 1, 30, shards=2, replay_timeout=800),
                    lambda tier: [mc("ivc_toy", "ivc.qnt", "ivc_toy", "soundInv", step="stepForge")] + ([] if tier == "quick" else [mc("ivc_toy4", "ivc.qnt", "ivc_toy4", "soundInv", step="stepForge")])),
                rule="proofs of two executions with one or two of their 23 parts altered (other values, parts of other proofs, exchanged, resized, recommitted, hashes recomputed) or checked under other keys, and proofs assembled by a forger from step circuits run on invented, unsatisfied, wrongly committed and wrongly folded instances; accepted exactly when the specification accepts"),
    "C26": dict(level="model_checking", jobs=lambda tier: [
                    sim("codec_step", "codec.qnt", "codec_bn", "step", "nova", "codec", 12 if tier == "quick" else 80, 80, "codecInv", shards=4 if tier == "quick" else 8),
                    mc("codec_toy", "codec.qnt", "codec_toy", "toyInv", step="stepToy")],
                rule="values of every encoded type (field elements, points, keys, proofs, parameters, folding instances) encoded, decoded, cut, extended and spoiled; decoded exactly when the specification decodes, to the same value, consuming the same bytes"),
    "C27": dict(level="model_checking", jobs=lambda tier: [
                    sim("det_draws", "det.qnt", "det_draws", "step", "alg", "det_draws", 5 if tier == "quick" else 40, 60, "detInv", shards=4 if tier == "quick" else 8),
                    sim("det_groth", "det.qnt", "det_groth", "step", "groth", "det_groth", 6 if tier == "quick" else 60, 30, "detInv", shards=3),
                    sim("det_nova", "det.qnt", "det_nova", "step", "nova", "det_nova", 10 if tier == "quick" else 60, 40, "detInv", shards=2),
                    sim("det_ivc", "det.qnt", "det_ivc", "step", "nova", "det_ivc", 1 if tier == "quick" else 6, 9, None, shards=2, replay_timeout=800),
                    mc("det_toy", "det.qnt", "det_toy", "toyInv", step="stepToy")],
                rule="sessions of runs (drawing elements and points of eleven types, set-ups, proofs, commitment keys, recursive parameters, foldings and executions) from several sources of randomness, copied, restarted, one drawn element changed, on one, two and eight threads, with the relation to every earlier run; samples of up to 131072 draws counted by interval, digits and neighbours"),
    "C29": dict(level="model_checking", jobs=both(simple(["bignat_fr", "bignat_fq"], "bignat.qnt", "attack", "nova", "bigInv", 4, 40, shards=2), simple(["nifs_gk", "nifs_g1"], "nifs.qnt", "stepLie", "nova", None, 2, 20, shards=3, replay_timeout=800), simple(["nifs_gk", "nifs_g1"], "nifs.qnt", "stepLieFold", "nova", None, 2, 12, shards=2, replay_timeout=800)),
                rule="the same circuits built by a prover that lies about one or two private wires (chosen by the specification among all of them, with a kind of wrong value) and mends what dangles; a satisfied system must still have the specified results"),
}

HOOK_COMMITS = ["51c583f", "71e1796", "411560c", "2f814ea", "ed14dcb"]
NOT_APPLICABLE = {
    "C28": "the pallet crate and its substrate dependencies are not part of the workspace build and cannot be fetched or compiled offline, so no conformance check can bind a specification to it",
}
