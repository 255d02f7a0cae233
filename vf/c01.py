"""C01 call fidelity."""
from .core import *
from .callgen import make_call_program


def main():
    ck = Check("C01")
    T = build_repo()
    ck.rule = ("one evaluation = one generated C++ function/method signature bound by the real generator, compiled with "
               "ASan+UBSan and called from Rust; the joint C++/Rust event log must equal the model's. distinct = distinct signatures")
    n = 24 if ck.quick else 220

    def one(i):
        rng = ck.rng("prog", i)
        case, exp, sigs, kinds = make_call_program(rng, "c01_%d" % i)
        o = run_case(T, case)
        ok = judge_trace(ck, case, o, exp, "prog%d" % i)
        for s in sigs:
            ck.evaluated(s)
        for k in kinds:
            ck.saw("arg_ret_forms", k)
        ck.count("programs")
        ck.count("events_checked", len(exp))
        if ok and i < 2:
            ck.sample({"signatures": sigs[:6], "events": exp[:6]})
        cleanup(case)

    for r in pmap(one, range(n)):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=50)
