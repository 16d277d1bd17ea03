"""D02: the shape of every library circuit is independent of the witness.

Every library gadget is interpreted twice by the checks that decide its meaning: in the prover role, with symbolic
witness values, and in the verifier role, without any. Here only the event sequences are compared: allocations,
multiplication gates, linear constraints with their coefficients, namespaces and calls of summarised gadgets. A
coefficient or a branch that depends on a witness value is a symbolic term in one sequence and absent from the other;
constraints created under a condition on a symbolic value are reported as branches."""
import os


def check_d02(R, prog):
    from . import p_ecc, p_gadgets, p_rec, p_rescue, p_sha
    R.only = lambda k: ":shape" in k or k.startswith(("shape:", "analysis:", "floor:shapes"))
    R.notes["explanation"] = __doc__.split("\n\n", 1)[1].replace("\n", " ")
    n = {}
    import time
    t = time.time()
    for nm, f in (("numbers", p_gadgets.check_num), ("bits", p_gadgets.check_bool), ("words", p_gadgets.check_words),
                  ("hash", p_sha.check_sha), ("sponge", p_rescue.check_rescue), ("curve points", p_ecc.check_ecc)):
        had = len(R.obl)
        R.run(nm, f, R, prog)
        if os.environ.get("SA_DEBUG"):
            print(nm, time.time() - t)
        n[nm] = sum(":shape" in o[0] for o in R.obl[had:])
    R.parallel([("recursion", p_rec.shape_case, R, prog, 3, 1)])
    n["recursion"] = sum(o[0].startswith("shape:") for o in R.obl)
    for nm, k in n.items():
        R.floor("shapes of " + nm, k, FLOOR[nm])
    R.notes["shapes_compared"] = n


FLOOR = {"numbers": 50, "bits": 174, "words": 179, "hash": 300, "sponge": 16, "curve points": 145, "recursion": 4}
