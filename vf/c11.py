"""C11 determinism: the same sources and options give the same bytes, whatever surrounds the run."""
from .core import *
from .callgen import make_call_program
from . import c02, c03, c04, c05, c10, c14, c15, c17, mix

ENVS = [
    {"HOME": "/nonexistent", "USER": "someone", "LOGNAME": "someone", "LANG": "C", "LC_ALL": "C"},
    {"LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8", "TZ": "Pacific/Auckland", "TERM": "dumb", "COLUMNS": "20"},
    {"RUST_BACKTRACE": "full", "NO_COLOR": "1", "CARGO_MANIFEST_DIR": "/nonexistent", "OUT_DIR": "/nonexistent/out", "CARGO_PKG_NAME": "zzz"},
    {"RUST_MIN_STACK": "33554432", "MALLOC_PERTURB_": "165", "SOURCE_DATE_EPOCH": "1", "HOSTNAME": "elsewhere", "PWD": "/nonexistent"},
    {"LD_BIND_NOW": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0", "SHELL": "/bin/false", "XDG_CACHE_HOME": "/nonexistent"},
]


def call_mix(rng, name):
    m = c10.Mix(rng, rng.randint(1, 6))
    case = make_call_program(rng, name, n_free=rng.randint(3, 12), n_cls=rng.randint(1, 4), calls=1, hdr=c10.HDR, extra=m.items, extra_dirs=m.dirs, cls_hook=m.cls_hook)[0]
    c10.finish(case, m)
    return case


MAKERS = {
    "calls": call_mix, "calls2": call_mix,
    "overloads": lambda r, n: c02.make(r, n)[0], "ownership": lambda r, n: c03.make(r, n)[0], "emplace": lambda r, n: c04.make(r, n)[0],
    "layout": lambda r, n: c05.make(r, n)[0], "types": lambda r, n: c17.make(r, n, 20)[0],
    "subclass": lambda r, n: c14.make_program(r, n)[0], "subclass_life": lambda r, n: c15.make_program(r, n)[0],
}
SINGLE = ("subclass", "subclass_life")          # Rust items are found in files with one block only


def block_of(main):
    lo = main.index("include_cpp!")
    i = main.index("{", lo)
    d, k = 0, i
    while True:
        if main[k] == '"':
            k = main.index('"', k + 1)
        elif main[k] == "{":
            d += 1
        elif main[k] == "}":
            d -= 1
            if d == 0:
                return main[i + 1:k]
        k += 1


def tree(d):
    out = {}
    for dp, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(dp, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def fnv(b):
    h = 0xcbf29ce484222325
    for x in b:
        h = ((h ^ x) * 0x100000001b3) & 0xffffffffffffffff
    return "%016x" % h


def differ(a, b):
    """First difference of two output trees, or None."""
    for n in sorted(set(a) | set(b)):
        if a.get(n) != b.get(n):
            if n not in a or n not in b:
                return "%s only in one run" % n
            i = next((k for k, (x, y) in enumerate(zip(a[n], b[n])) if x != y), min(len(a[n]), len(b[n])))
            return "%s differs at byte %d: %r / %r" % (n, i, a[n][max(0, i - 60):i + 100].decode("utf8", "replace"), b[n][max(0, i - 60):i + 100].decode("utf8", "replace"))
    return None


class Prog:
    """Source files of one generator run."""

    def __init__(self, rng, name):
        self.rng, self.name, self.files = rng, name, {}
        self.kind = rng.choice(["one", "one", "multi", "inputs"])
        self.auto = False
        n = 1 if self.kind == "one" else rng.randint(2, 3)
        kinds = [rng.choice([k for k in MAKERS if n == 1 or k not in SINGLE]) for _ in range(n)]
        self.kinds = kinds
        cases = [MAKERS[k](rng, "%s_%d" % (name, j)) for j, k in enumerate(kinds)]
        self.clang = ["-std=c++17"] if any("-std=c++17" in c.clang_args for c in cases) else ["-std=c++14"]
        if n == 1:
            c = cases[0]
            self.files = {"input.h": c.header, "main.rs": c.main}
            self.files.update(c.files)
            self.auto = "--auto-allowlist" in c.gen_args
            self.inputs = ["main.rs"]
            self.mods = []
        else:
            self.mods, texts = [], []
            for j, c in enumerate(cases):
                self.files["input%d.h" % j] = c.header
                b = block_of(c.main).replace('"input.h"', '"input%d.h"' % j)
                texts.append("mod w%d {\nuse autocxx::prelude::*;\ninclude_cpp! {\nname!(mod%d)\n%s\n}\n}\n" % (j, j, b))
                self.mods.append("mod%d" % j)
            self.alone = ["use autocxx::prelude::*;\n" + t for t in texts]
            if self.kind == "multi":
                self.files["main.rs"] = "".join(texts) + "fn main() {}\n"
                self.inputs = ["main.rs"]
            else:
                self.inputs = []
                for j, t in enumerate(texts):
                    self.files["in%d.rs" % j] = t
                    self.inputs.append("in%d.rs" % j)
        self.archive = rng.random() < 0.4
        self.flags = ["--gen-cpp", "--generate-cxx-h", "--gen-rs-archive" if self.archive else "--gen-rs-include"]
        if rng.random() < 0.3:
            self.flags += ["--suppress-system-headers"]
        if rng.random() < 0.3:
            self.flags += ["--cxx-impl-annotations", "[[gnu::used]]"]
        if self.archive and rng.random() < 0.5:
            self.flags += ["--generate-exact", str(2 * n + 3)]
        if self.auto:
            self.flags.append("--auto-allowlist")

    def write(self, d, files=None):
        os.makedirs(d, exist_ok=True)
        for n, t in (files or self.files).items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(t if isinstance(t, bytes) else t.encode("utf8", "surrogateescape"))


def one(ck, T, i, keep):
    rng = ck.rng("prog", i)
    p = Prog(rng, "c11_%d" % i)
    root = tempfile.mkdtemp(prefix="c11-", dir=scratch_root())
    a = os.path.join(root, "a")
    p.write(a)

    def gen(cwd, out, inputs=None, inc=".", env=None, pre=(), flags=None):
        r = run(list(pre) + [T.gen] + (inputs or p.inputs) + ["-o", out, "-I", inc] + (flags or p.flags) + ["--"] + p.clang, cwd=cwd, env=env, timeout=240)
        if r.killed:
            raise Inconclusive("generator killed/timed out")
        if r.rc != 0:
            return r
        return tree(os.path.join(cwd, out))

    base = gen(a, "out")
    ctx = "%s of %s (%s)" % (p.kind, "+".join(p.kinds), " ".join(p.flags))
    if isinstance(base, Res):
        shutil.rmtree(root, ignore_errors=True)
        raise Inconclusive("%s: generator failed: %s" % (ctx, first_error(base)))
    ck.count("programs")
    ck.saw("program_kinds", (p.kind, "+".join(p.kinds)))
    ck.count("bytes_compared", 0)

    def same(what, got, ref=base):
        ck.evaluated("%s|%s|%s" % (what, p.kind, "+".join(p.kinds)))
        ck.count("runs")
        ck.saw("variations", what)
        if isinstance(got, Res):
            ck.violation("prog%d:%s" % (i, what), "%s: the run '%s' failed where the first one succeeded (rc=%s): %s" % (ctx, what, got.rc, got.err[-1500:]), src=a)
            return
        ck.count("bytes_compared", sum(map(len, got.values())))
        d = differ(ref, got)
        if d:
            ck.violation("prog%d:%s" % (i, what), "%s: %s: %s" % (ctx, what, d), src=a)

    # repeated runs, several at once, in different environments
    def again(k):
        e = dict(ENVS[k % len(ENVS)])
        tmp = os.path.join(root, "tmp%d" % k)
        os.makedirs(tmp, exist_ok=True)
        e["TMPDIR"] = tmp
        return gen(a, "out_again%d" % k, env=e if k else None, pre=("setarch", "-R") if k == 3 else ())
    nrep = 4 if ck.quick else 8
    with cf.ThreadPoolExecutor(4) as ex:
        for k, r in enumerate(ex.map(again, range(nrep))):
            same("repeated concurrently, environment %d" % (k % len(ENVS)) if k else "repeated concurrently", r)
    # other places
    b = os.path.join(root, "another place", "with", "a-much-longer-path" * 3)
    p.write(b)
    same("another source directory", gen(b, "o"))
    c = os.path.join(root, "cwd")
    os.makedirs(c)
    got = gen(c, os.path.join(root, "abs_out"), inputs=[os.path.join(a, x) for x in p.inputs], inc=a)
    same("absolute paths, another working directory", got if isinstance(got, Res) else tree(os.path.join(root, "abs_out")))
    # what lies about
    od = os.path.join(a, "out_stale")
    os.makedirs(od)
    for n in sorted(base):
        k = rng.random()
        if k < 0.7:
            with open(os.path.join(od, n), "wb") as f:
                f.write(base[n] + b"// stale" if k < 0.3 else b"" if k < 0.5 else base[n][:len(base[n]) // 2])
    same("outdated output files present", gen(a, "out_stale"))
    for n in p.files:
        os.utime(os.path.join(b, n), (rng.randrange(10 ** 9), rng.randrange(10 ** 9)))
        os.chmod(os.path.join(b, n), 0o444)
    for n in ("zz.h", "main2.rs", "Cargo.toml", "cxx.h", "gen0.cc"):
        if not os.path.exists(os.path.join(b, n)):
            open(os.path.join(b, n), "w").write("#error unrelated\n")
    same("other modification times, read-only sources, unrelated files", gen(b, "o2"))
    # other modules in the same run
    if p.mods:
        if p.archive:
            arch = json.loads(base["gen.rs.json"])
        for j, t in enumerate(p.alone):
            d = os.path.join(root, "alone%d" % j)
            p.write(d, dict(p.files, **{"alone.rs": t}))
            got = gen(d, "out", inputs=["alone.rs"], flags=[f for f in p.flags])
            what = "module on its own"
            ck.evaluated("%s|%s" % (what, p.kinds[j]))
            ck.saw("variations", what)
            ck.count("runs")
            if isinstance(got, Res):
                ck.violation("prog%d:alone" % i, "%s: module %d on its own is rejected: %s" % (ctx, j, got.err[-1000:]), src=d)
                continue
            pool = [norm(v) for n, v in base.items() if n.endswith((".cc", ".h"))]
            for n, v in got.items():
                if n.endswith(".rs") and base.get(n) != v and not p.archive:
                    ck.violation("prog%d:alone" % i, "%s: bindings of module %d depend on the other modules: %s" % (ctx, j, differ({n: base.get(n, b"")}, {n: v})), src=d)
                if n.endswith((".cc", ".h")) and norm(v) not in pool:
                    ck.violation("prog%d:alone" % i, "%s: C++ of module %d (%s) depends on the other modules" % (ctx, j, n), src=d)
                if n == "gen.rs.json":
                    mine = json.loads(v)
                    if not all(x in json_entries(arch) for x in json_entries(mine)):
                        ck.violation("prog%d:alone" % i, "%s: archive entry of module %d depends on the other modules" % (ctx, j), src=d)
        if p.kind == "inputs":
            got = gen(a, "out_rev", inputs=p.inputs[::-1])
            ck.evaluated("reversed inputs|%s" % "+".join(p.kinds))
            ck.saw("variations", "reversed inputs")
            ck.count("runs")
            if isinstance(got, Res):
                ck.violation("prog%d:order" % i, "%s: rejected with its inputs reversed: %s" % (ctx, got.err[-1000:]), src=a)
            else:
                for n, v in base.items():
                    if n.endswith(".rs") and got.get(n) != v:
                        ck.violation("prog%d:order" % i, "%s: bindings depend on the order of the inputs: %s" % (ctx, differ({n: v}, {n: got.get(n, b"")})), src=a)
                    if n == "gen.rs.json" and sorted(map(json.dumps, json_entries(json.loads(v)))) != sorted(map(json.dumps, json_entries(json.loads(got[n])))):
                        ck.violation("prog%d:order" % i, "%s: archive entries depend on the order of the inputs" % ctx, src=a)
    if i < 2:
        ck.sample({"program": ctx, "files": {n: hashlib.sha256(v).hexdigest()[:16] for n, v in sorted(base.items())}})
    if keep is not None and not any(f.startswith(("--suppress", "--cxx-impl", "--generate-exact")) for f in p.flags):
        keep.append((i, p, a, base, root))
    else:
        shutil.rmtree(root, ignore_errors=True)


def json_entries(j):
    """Archive entries, headers being numbered by their place in the run when --generate-exact asks for that."""
    return [json.loads(norm(json.dumps(x).encode())) for x in (sorted(j.items()) if isinstance(j, dict) else list(j))]


def norm(b):
    return re.sub(rb"\bcxxgen\d*\.h|\bgen\d+\.h|autocxxgen\w*\.h", b"HDR", b)


def library(ck, det, kept):
    """The generator as a library: threads and repetitions within one process give what the command line gave."""
    kept = kept[:8]
    if not kept:
        return
    jobs = "".join("%d\t%d\t%s\t%s\t%s\n" % (i, int(p.auto), a, ",".join(p.clang), ",".join(os.path.join(a, x) for x in p.inputs)) for i, p, a, base, root in kept)
    th, reps = (4, 2) if ck.quick else (8, 4)
    r = run([det, str(th), str(reps)], stdin=jobs.encode(), timeout=800)
    if isinstance(r.out, bytes):
        r.out = r.out.decode()
    if r.killed:
        raise Inconclusive("library runs killed/timed out")
    if r.rc != 0:
        ck.violation("library:crash", "running the generator in %d threads ends with rc=%s: %s" % (th, r.rc, r.err[-2000:]))
        return
    seen, errs = {}, []
    for l in r.out.splitlines():
        f = l.split(" ", 5)
        if f[3] == "ERROR":
            errs.append(l[:600])
            continue
        seen.setdefault((int(f[0]), f[3]), {}).setdefault((f[4], f[5]), []).append((f[1], f[2]))
    for e in errs[:2]:
        ck.violation("library:error", "a run of the generator in a thread failed although the command line works: %s" % e)
    for i, p, a, base, root in kept:
        names = [n for (k, n) in seen if k == i]
        for n in names:
            v = seen[(i, n)]
            ck.evaluated("library %s %s" % (n, "+".join(p.kinds)))
            ck.count("library_outputs", sum(map(len, v.values())))
            if len(v) > 1:
                ck.violation("library:prog%d" % i, "%s of program %d differs between threads/repetitions of one process: %s" % (n, i, {k: len(x) for k, x in v.items()}), src=a)
            elif n in base and list(v)[0][0] != fnv(base[n]):
                ck.violation("library:prog%d" % i, "%s of program %d differs between the library and the command line" % (n, i), src=a)
        for n in base:
            if n not in names:
                ck.violation("library:prog%d" % i, "the library does not give %s of program %d" % (n, i), src=a)
        shutil.rmtree(root, ignore_errors=True)


def main():
    ck = Check("C11")
    T = build_repo()
    det = build_harness("det")
    ck.rule = ("one evaluation = one further run of the generator on the same sources and options, its output files compared byte for byte with the first run's; "
               "distinct = distinct (variation, program shape)")
    n = 14 if ck.quick else 160
    kept = []
    for r in pmap(lambda i: one(ck, T, i, kept), range(n), 4):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    try:
        library(ck, det, kept)
    except Inconclusive as e:
        ck.note_inconclusive(e)
    return ck.finish(min_evals=60)
