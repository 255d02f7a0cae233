"""C18 runtime types: random histories under Miri (Stacked and Tree Borrows) and under AddressSanitizer, with a drop-counting model."""
from .core import *

# family: (steps per history, histories per Miri process, histories per native process)
FAMILIES = {
    "pin": (140, 6, 1500), "uptrpin": (120, 8, 1500), "dynpin": (20, 8, 600), "value": (40, 5, 1500),
    "rvalue": (50, 6, 800), "sub": (90, 5, 1500), "ctypes": (3, 2, 50),
}
MODELS = {"stacked": "", "tree": "-Zmiri-tree-borrows", "stacked-symbolic": "-Zmiri-symbolic-alignment-check", "tree-provenance": "-Zmiri-tree-borrows -Zmiri-strict-provenance"}


def crate_dir():
    src = os.path.join(VERIF, "harness", "rt")
    dst = os.path.join(BUILD, "src-rt")
    os.makedirs(BUILD, exist_ok=True)
    shutil.copytree(src, dst, dirs_exist_ok=True)
    p = os.path.join(dst, "Cargo.toml")
    t = open(p).read()
    open(p, "w").write(t.replace('"/repo"', '"%s"' % REPO))
    return dst


def norm(line):
    return re.sub(r"0x[0-9a-f]+|<\d+>|alloc\d+|\d+", "#", line).strip()[:160]


def judge(ck, fam, what, cmd, r, seeds):
    text = r.out + r.err
    done = [l for l in r.out.splitlines() if l.startswith("DONE ")]
    last = [l for l in r.out.splitlines() if l.startswith("SEED ")]
    if r.killed:
        ck.note_inconclusive("c18: %s under %s timed out" % (fam, what))
        return
    for l in done:
        kv = dict(x.split("=") for x in l.split()[1:])
        for k, v in kv.items():
            ck.count("%s.%s" % (fam, k), int(v))
        ck.count("histories.%s" % what)
    for s in [x.split()[1] for x in last[:len(done)]]:
        ck.evaluated((fam, what, s))
    if r.rc == 0 and len(done) == seeds:
        return
    ub = [l for l in text.splitlines() if l.startswith("error:") or "ERROR: AddressSanitizer" in l or "ERROR: LeakSanitizer" in l]
    model = [l for l in r.out.splitlines() if l.startswith(("MODEL", "PANIC"))]
    if any("unsupported operation" in l for l in ub) or "could not compile" in r.err:
        ck.note_inconclusive("c18: %s under %s: %s" % (fam, what, (ub or ["?"])[0]))
        return
    if not ub and not model and r.rc in (101, 1) and not last:
        ck.note_inconclusive("c18: %s under %s did not start: %s" % (fam, what, r.err[-400:]))
        return
    first = (model or ub or ["exit status %s" % r.rc])[0]
    ck.evaluated((fam, what, "bad"))
    ck.violation("%s:%s" % (fam, norm(first)), "%s, %s, %s: %s\n%s\n%s" % (fam, what, (last or ["SEED ?"])[-1], first, " ".join(cmd), text[-5000:]),
                 files={"command.txt": " ".join(cmd), "output.txt": text[-20000:]})


def main():
    ck = Check("C18", level="exploration")
    ck.rule = ("one evaluation = one random history of operations on the runtime types (pins, C++ references, value/rvalue parameter handlers incl. panicking constructors and callees, subclass holders, "
               "C integer wrappers), interpreted by Miri under one aliasing model, or run natively under AddressSanitizer, with every construction, move, use and destruction checked against a registry; "
               "distinct = family x instrument x seed")
    ck.assumptions += ["C++ objects are stand-ins written in Rust (moveit constructors, UniquePtrTarget, opaque zero-sized peers); C++ accesses are raw-pointer accesses"]
    d = crate_dir()
    mt, at = os.path.join(BUILD, "target-rt"), os.path.join(BUILD, "target-rt-asan")
    for t in (mt, at):
        if os.path.isdir(t):
            for c in WORKSPACE_CRATES + ["vf-rt"]:
                run(["cargo", "+nightly", "clean", "--offline", "--target-dir", t, "-p", c], cwd=d)
    base = {"CARGO_NET_OFFLINE": "true"}

    def miri(fam, seed, n, steps, model, timeout):
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target-dir", mt, "--", fam, str(seed), str(n), str(steps)]
        return cmd, run(cmd, cwd=d, env=dict(base, MIRIFLAGS=MODELS[model]), timeout=timeout)

    def build_asan():
        env = dict(base, RUSTFLAGS="-Zsanitizer=address -Cdebug-assertions=on", **base)
        r = run(["cargo", "+nightly", "build", "--offline", "-q", "--target", "x86_64-unknown-linux-gnu", "--target-dir", at], cwd=d, env=env, timeout=600)
        return r if r.rc else None
    # two builds at once
    (cmd0, r0), ra = pmap(lambda f: f(), [lambda: miri("ctypes", ck.seed * 1000, 1, 1, "stacked", 600), build_asan])
    if r0.rc != 0 and "SEED" not in r0.out:
        ck.note_inconclusive("c18: the harness does not build or start under Miri: %s" % r0.err[-3000:])
        return ck.finish()
    judge(ck, "ctypes", "stacked", cmd0, r0, 1)
    if ra is not None:
        ck.note_inconclusive("c18: the harness does not build with AddressSanitizer: %s" % ra.err[-2000:])
    exe = os.path.join(at, "x86_64-unknown-linux-gnu", "debug", "vf-rt")
    rounds = 1 if ck.quick else 10
    jobs = []
    for k in range(rounds):
        for fam in ("value", "sub", "pin", "uptrpin", "dynpin", "rvalue", "ctypes"):
            for m in (list(MODELS)[:2] if ck.quick else MODELS):
                jobs.append((fam, m, ck.seed * 100003 + k * 1009 + len(jobs)))
            if ra is None:
                jobs.append((fam, "asan", ck.seed * 100003 + k * 50021 + 7))

    def one(j):
        fam, what, seed = j
        steps, n, nn = FAMILIES[fam]
        if what == "asan":
            cmd = [exe, fam, str(seed), str(nn), str(steps * 2)]
            r = run(cmd, env=dict(ASAN_OPTIONS="detect_leaks=1:exitcode=99"), timeout=240)
            judge(ck, fam, what, cmd, r, nn)
        else:
            cmd, r = miri(fam, seed, n, steps, what, 400)
            judge(ck, fam, what, cmd, r, n)
        ck.sample("%s %s seed %d: rc %s" % (fam, what, seed, r.rc))
    for r in pmap(one, jobs):
        if isinstance(r, Exception):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=50)
