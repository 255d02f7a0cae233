"""C13: crates with several include_cpp! blocks; every block must run with its own bindings, or not compile."""
from .core import *
from .lib import *

NAMES = ["ffi2", "bindings", "Upper", "x", "ffi_a", "a_ffi", "gen", "input", "default", "r0", "ffi_default", "cxx2", "main2", "autocxx2", "mod_b"]
HOSTS = [[], [], ["alpha"], ["beta"], ["alpha", "deep"], ["ffi"], ["alpha", "deep", "er"]]


class Blk:
    def __init__(self, k):
        self.k = k
        self.crate = self.file = 0
        self.host = []
        self.name = None
        self.feats = []
        self.ns = None
        self.style = "list"            # list | ns | all | podonly
        self.safety = "unsafe"
        self.hdr = "h%d.h" % k
        self.rustfun = False
        self.place = "host"            # of the Rust items given to C++
        self.extra = None              # extra directive, kept neutral

    mod = property(lambda b: b.name or "ffi")

    def leaf(self, n):
        return n if self.ns else "%s_%d" % (n, self.k)

    def cpp(self, n):
        return (self.ns + "::" if self.ns else "") + self.leaf(n)

    def rs(self, n):
        return self.mod + "::" + self.cpp(n)

    def header(self):
        t = "#pragma once\n#include <cstdint>\n#include <string>\n#include <memory>\n"
        if self.rustfun:
            t += "struct Rt_%d;\n" % self.k
        o, c = ("namespace %s {\n" % self.ns, "}\n") if self.ns else ("", "")
        L = self.leaf
        t += o + "class %s { uint32_t v; public: %s(uint32_t a); %s(const %s&); ~%s(); uint32_t get() const; void add(uint32_t a); };\n" % ((L("Thing"),) * 5)
        t += "struct %s { uint32_t a; uint64_t b; };\nenum class %s : uint8_t { A, B, C };\n" % (L("Pt"), L("Col"))
        t += "uint32_t %s(uint32_t x);\n%s %s(uint32_t a);\nuint64_t %s(%s p);\n" % (L("tell"), L("Pt"), L("mk"), L("sum"), L("Pt"))
        t += "std::string %s(std::string s);\nuint32_t %s(%s c);\nuint32_t %s(%s t);\n%s %s(uint32_t n);\n" % (
            L("echo"), L("pick"), L("Col"), L("eat"), L("Thing"), L("Thing"), L("make"))
        t += "struct %s { uint32_t q; %s p; };\n" % (L("Outer"), L("Pt"))
        if self.rustfun:
            t += "uint32_t %s(uint32_t a);\nuint32_t %s(const ::Rt_%d& r);\n" % (L("back"), L("backty"), self.k)
        return t + c

    def impl(self, genh):
        k, L = self.k, self.leaf
        t = '#include "%s"\n' % self.hdr
        if genh:
            t = '#include "%s"\n' % genh + t
        o, c = ("namespace %s {\n" % self.ns, "}\n") if self.ns else ("", "")
        t += o + "%s::%s(uint32_t a) : v(a + %d) {}\n%s::%s(const %s& o) : v(o.v) {}\n%s::~%s() {}\nuint32_t %s::get() const { return v; }\nvoid %s::add(uint32_t a) { v += a; }\n" % (
            L("Thing"), L("Thing"), 1000 * k, L("Thing"), L("Thing"), L("Thing"), L("Thing"), L("Thing"), L("Thing"), L("Thing"))
        t += "uint32_t %s(uint32_t x) { return x + %d; }\n%s %s(uint32_t a) { %s p; p.a = a; p.b = %d; return p; }\nuint64_t %s(%s p) { return p.a + p.b; }\n" % (
            L("tell"), 1000 * k, L("Pt"), L("mk"), L("Pt"), 7000 * (k + 1), L("sum"), L("Pt"))
        t += 'std::string %s(std::string s) { return s + "<%d>"; }\nuint32_t %s(%s c) { return uint32_t(c) + %d; }\nuint32_t %s(%s t) { return t.get(); }\n%s %s(uint32_t n) { return %s(n * 2); }\n' % (
            L("echo"), k, L("pick"), L("Col"), 300 * k, L("eat"), L("Thing"), L("Thing"), L("make"), L("Thing"))
        if self.rustfun:
            t += "uint32_t %s(uint32_t a) { return ::%s(a) + 1; }\n" % (L("back"), "rcb_%d" % k)
            t += "uint32_t %s(const ::Rt_%d& r) { return ::rty_%d(r) + 2; }\n" % (L("backty"), k, k)
        return t + c

    WANT = {"thing": ["Thing"], "pod": ["mk", "sum"], "tell": ["tell"], "echo": ["echo"], "col": ["Col", "pick"], "val": ["Thing", "eat", "make"]}

    def directives(self, rng=None):
        d = ['#include "%s"' % self.hdr]
        if self.name:
            d.append("name!(%s)" % self.name)
        if self.safety is not None:
            d.append("safety!(%s)" % self.safety)
        if self.style == "list":
            seen = []
            for f in self.feats:
                for n in self.WANT[f]:
                    if n not in seen:
                        seen.append(n)
            d += ['generate!("%s")' % self.cpp(n) for n in seen]
            if self.rustfun:
                d.append('generate!("%s")' % self.cpp("back"))
                d.append('generate!("%s")' % self.cpp("backty"))
            if "pod" in self.feats:
                d.append('generate_pod!("%s")' % self.cpp("Pt"))
        elif self.style == "ns":
            d.append('generate_ns!("%s")' % self.ns)
            d.append('generate_pod!("%s")' % self.cpp("Pt"))
        elif self.style == "podonly":
            d.append('generate_pod!("%s")' % self.cpp("Outer"))
        if self.extra:
            d.append(self.extra)
        return d

    def text(self, dirs=None):
        return "use autocxx::prelude::*;\nautocxx::include_cpp! {\n%s\n}\n" % "\n".join(dirs or self.directives())

    def test(self):
        k, b, e = self.k, [], []
        u = lambda x: x
        if self.style == "podonly":
            b.append('let o = %s { q: %d, p: %s { a: 3, b: 4 } }; ev(format!("podonly %d {} {}", o.q + o.p.a, std::mem::size_of::<%s>()));' % (self.rs("Outer"), 5 + k, self.rs("Pt"), k, self.rs("Outer")))
            e.append("podonly %d %d 24" % (k, 8 + k))
        fs = [] if self.style == "podonly" else self.feats if self.style == "list" else sorted(self.WANT)
        for f in fs:
            if f == "thing":
                b.append('let mut t = %s::new(5).within_unique_ptr(); t.pin_mut().add(2); ev(format!("thing %d {}", t.get()));' % (self.rs("Thing"), k))
                e.append("thing %d %d" % (k, 7 + 1000 * k))
            elif f == "pod":
                b.append('let p = %s(9); ev(format!("pod %d {} {}", p.a, p.b)); ev(format!("sum {}", %s(p)));' % (self.rs("mk"), k, self.rs("sum")))
                e += ["pod %d 9 %d" % (k, 7000 * (k + 1)), "sum %d" % (9 + 7000 * (k + 1))]
            elif f == "tell":
                b.append('ev(format!("tell %d {}", %s(4)));' % (k, self.rs("tell")))
                e.append("tell %d %d" % (k, 4 + 1000 * k))
            elif f == "echo":
                b.append('ev(format!("echo %d {}", %s("w%d").to_string_lossy()));' % (k, self.rs("echo"), k))
                e.append("echo %d w%d<%d>" % (k, k, k))
            elif f == "col":
                b.append('ev(format!("col %d {}", %s(%s::C)));' % (k, self.rs("pick"), self.rs("Col")))
                e.append("col %d %d" % (k, 2 + 300 * k))
            elif f == "val":
                b.append('let t = %s(6).within_unique_ptr(); ev(format!("val %d {}", %s(&t)));' % (self.rs("make"), k, self.rs("eat")))
                e.append("val %d %d" % (k, 12 + 1000 * k))
        if self.rustfun:
            b.append('ev(format!("back %d {}", %s(3)));' % (k, self.rs("back")))
            e.append("back %d %d" % (k, 3 + 50 * k + 1))
            b.append('ev(format!("backty %d {}", %s(&%sRt_%d { v: 6 })));' % (k, self.mod + "::" + self.cpp("backty"), self.where(), k))
            e.append("backty %d %d" % (k, 6 + 90 * k + 2))
        return "pub fn t%d() { unsafe { use crate::ev;\n%s\n} }\n" % (k, "\n".join(b)), e

    def rust(self, dirs=None):
        t = self.text(dirs) + self.test()[0]
        if self.rustfun and self.place == "host":
            t += self.rustitems()
        return t

    def rustitems(self):
        k = self.k
        return ("#[autocxx::extern_rust::extern_rust_function]\npub fn rcb_%d(a: u32) -> u32 { a + %d }\n" % (k, 50 * k) +
                "#[autocxx::extern_rust::extern_rust_type]\npub struct Rt_%d { pub v: u32 }\n" % k +
                "#[autocxx::extern_rust::extern_rust_function]\npub fn rty_%d(r: &Rt_%d) -> u32 { r.v + %d }\n" % (k, k, 90 * k))

    def where(self):
        """Path of the Rust items from the host module."""
        up = "super::" * len(self.host)
        return {"host": "", "root": up, "sib": up + "sib%d::" % self.k, "under": "under%d::" % self.k}[self.place]

    def path(self):
        return "::".join((["f%d" % self.file] if self.file else []) + self.host + ["t%d" % self.k])


def uses(b):
    # `use autocxx::prelude::*` may appear more than once per module; glob imports don't clash
    return b


class World:
    def __init__(self, rng):
        self.rng = rng
        self.mode = rng.choice(["dir", "dir", "archive", "archive", "archive", "file", "outdir"])
        nb = rng.choice([1, 2, 2, 3, 4])
        nc = rng.choice([1, 1, min(2, nb), nb]) if self.mode != "file" else nb
        self.blocks, self.ncrates = [], nc
        same_ok = self.mode in ("archive", "file")
        names = rng.sample(NAMES, len(NAMES))
        for k in range(nb):
            b = Blk(k)
            b.crate = k if self.mode == "file" or k < nc else rng.randrange(nc)
            b.file = rng.choice([0, 0, 1, 2])
            b.host = list(rng.choice(HOSTS))
            b.ns = "n%d" % k if rng.random() < .5 else None
            b.feats = rng.sample(sorted(Blk.WANT), rng.randint(1, 5))
            b.style = rng.choice(["list", "list", "list", "podonly"] + (["ns"] if b.ns else []))
            b.safety = rng.choice(["unsafe", "unsafe_ffi", "unsafe", None])
            b.extra = rng.choice([None, None, 'block!("nothing_like_this")', "parse_only_not"])
            if b.extra == "parse_only_not":
                b.extra = 'instantiable!("%s")' % b.cpp("Thing") if b.style == "list" and "thing" in b.feats else None
            b.name = None
            self.blocks.append(b)
        # module names: unique per source file; unique over the whole output directory when files are found by name
        for b in self.blocks:
            taken = [o.mod for o in self.blocks if o is not b and hasattr(o, "named") and (not same_ok or (o.crate, o.file) == (b.crate, b.file))]
            # a module called ffi and the module hosting it: `ffi::ffi` is fine
            opts = ([None] * 4 if "ffi" not in taken else []) + [n for n in names if n not in taken][:3]
            b.name = rng.choice(opts)
            b.named = True
        for b in self.blocks:
            # one scope can't hold two Rust items of one name
            b.host = [h for h in b.host]
        scopes = set()
        for b in self.blocks:
            while (b.crate, b.file, tuple(b.host), b.mod) in scopes or (b.host == [] and b.file == 0 and b.mod in ("alpha", "beta", "ffi") and any(o.host[:1] == [b.mod] for o in self.blocks if (o.crate, o.file) == (b.crate, b.file))) \
                    or any((o.crate, o.file) == (b.crate, b.file) and (o.host[:len(b.host) + 1] == b.host + [b.mod] or b.host[:len(o.host) + 1] == o.host + [o.mod]) for o in self.blocks if o is not b):
                b.host = ["scope%d" % b.k] + b.host
            scopes.add((b.crate, b.file, tuple(b.host), b.mod))
        # Rust functions are found for a file holding exactly one block
        for b in self.blocks:
            alone = [o for o in self.blocks if (o.crate, o.file) == (b.crate, b.file)] == [b]
            b.rustfun = alone and b.style == "list" and rng.random() < .6
            b.place = rng.choice(["host", "root", "sib", "under"])
        self.exact = None
        if self.mode == "file" or same_ok or rng.random() < .3:
            self.exact = 2 * len(self.blocks) + rng.choice([0, 0, 2])      # cxx headers, plus one of extras per block at most
        if self.mode in ("dir", "outdir"):
            self.exact = None          # --generate-exact with --gen-rs-include needs fixed names

    def files(self):
        fs = {}
        for c in range(self.ncrates):
            used = sorted({b.file for b in self.blocks if b.crate == c} | {0})
            for f in used:
                fs["c%d_f%d.rs" % (c, f)] = self.source(c, f)
        return fs

    def source(self, c, f, override=None):
        tree = {}
        for b in self.blocks:
            if (b.crate, b.file) == (c, f):
                t = tree
                for h in b.host:
                    t = t.setdefault(h, {})
                t.setdefault("#", []).append(b)

        def emit(t):
            s = ""
            for b in t.get("#", []):
                s += (override or {}).get(b.k) or b.rust()
                if b.rustfun and b.place == "under":
                    s += "pub mod under%d {\n%s}\n" % (b.k, b.rustitems())
            for h in [x for x in t if x != "#"]:
                s += "pub mod %s {\n%s}\n" % (h, emit(t[h]))
            return s
        body = emit(tree)
        for b in self.blocks:
            if (b.crate, b.file) == (c, f) and b.rustfun and b.place in ("root", "sib"):
                body += b.rustitems() if b.place == "root" else "pub mod sib%d {\n%s}\n" % (b.k, b.rustitems())
        # several blocks in one scope repeat the `use`; keep the first
        out = ""
        if f == 0:
            out += RS_ALLOW
            for g in sorted({b.file for b in self.blocks if b.crate == c} - {0}):
                out += '#[path = "c%d_f%d.rs"]\npub mod f%d;\n' % (c, g, g)
        out += body
        if f == 0:
            out += RT_RS.replace("use vf::ev;", "pub use vf::ev;")
            if c == 0:
                calls = []
                for b in self.blocks:
                    calls.append("%s%s();" % ("c%d::" % b.crate if b.crate else "crate::", b.path()))
                out += "fn main() {\n%s\n}\n" % "\n".join(calls)
        return out

    def inputs(self):
        return [n for n in sorted(self.files()) if any("c%d_f%d.rs" % (b.crate, b.file) == n for b in self.blocks)]

    def order(self, inputs):
        """Blocks in the order the generator meets them."""
        out = []
        for n in inputs:
            txt = self.source(*[int(x[1:]) for x in n[:-3].split("_")])
            here = [b for b in self.blocks if "c%d_f%d.rs" % (b.crate, b.file) == n]
            here.sort(key=lambda b: txt.index("pub fn t%d()" % b.k))
            out += here
        return out


def gen_flags(w, rs):
    a = ["--gen-cpp", "--generate-cxx-h"]
    a.append("--gen-rs-archive" if rs == "archive" else "--gen-rs-include")
    if rs == "file":
        a.append("--fix-rs-include-name")
    if w.exact is not None:
        a += ["--generate-exact", str(w.exact)]
    return a


def rustc(T, d, crate, env, w, out="prog", objs=(), extra=(), src=None, metadata=False):
    cmd = ["rustc", "--edition", "2021", src or "c%d_f0.rs" % crate, "--crate-name", "c%d" % crate, "-L", "dependency=" + T.deps, "-L", "."]
    for n in T.native:
        cmd += ["-L", "native=" + n]
    cmd += ["--extern", "autocxx=" + T.rlib_autocxx, "--extern", "cxx=" + T.rlib_cxx, "--cap-lints", "allow", "-C", "debuginfo=0"] + ([] if metadata else ["--error-format=short"])
    if crate == 0 and not metadata:
        for c in range(1, w.ncrates):
            cmd += ["--extern", "c%d=libc%d.rlib" % (c, c)]
        cmd += ["-o", out, "-C", "linker=clang++", "-C", "link-arg=-fuse-ld=lld", "-C", "link-arg=-fsanitize=address,undefined"]
        for o in objs:
            cmd += ["-C", "link-arg=" + o]
    elif metadata:
        if crate == 0:
            for c in range(1, w.ncrates):
                cmd += ["--extern", "c%d=libc%d.rlib" % (c, c)]
        cmd += ["--emit=metadata", "--crate-type", "lib" if crate else "bin", "-o", out + ".rmeta"]
    else:
        cmd += ["--crate-type", "rlib", "-o", "libc%d.rlib" % crate]
    r = run(cmd + list(extra), cwd=d, timeout=240, env=env)
    if r.killed:
        raise Inconclusive("rustc killed/timed out")
    return r


def short(s):
    return "\n".join(l[:400] for l in s.splitlines() if l.strip())[:2500]


def positive(ck, T, i):
    rng = ck.rng("p", i)
    w = World(rng)
    case = Case("w%d" % i, "", "")
    case.dir = d = tempfile.mkdtemp(prefix="c13-", dir=scratch_root())
    try:
        fs = w.files()
        for n, t in fs.items():
            open(os.path.join(d, n), "w").write(t)
        for b in w.blocks:
            open(os.path.join(d, b.hdr), "w").write(b.header())
        ins = w.inputs()
        rng.shuffle(ins)
        out = "out/autocxx-build-dir/rs" if w.mode == "outdir" else "out"
        rs = {"outdir": "dir"}.get(w.mode, w.mode)
        ctx = "%s, %d crates, blocks %s" % (w.mode, w.ncrates, "; ".join("%d: crate %d file %d %s::%s %s%s%s" % (
            b.k, b.crate, b.file, "::".join(b.host), b.name or "-", b.style, "/rust-" + b.place if b.rustfun else "", "/" + b.ns if b.ns else "") for b in w.blocks))
        r = run([T.gen] + ins + ["-o", out, "-I", "."] + gen_flags(w, rs) + ["--", "-std=c++14"], cwd=d, timeout=150)
        if r.killed:
            raise Inconclusive("generator killed")
        feats = "|".join(sorted("%s%s%s%s" % (b.style, "R" + b.place[0] if b.rustfun else "", "N" if b.host else "", "D" if b.name is None else "") for b in w.blocks))
        ck.evaluated("%s|%d|%s" % (w.mode, w.ncrates, feats))
        if r.rc != 0:
            ck.violation("gen:%s" % w.mode, "generator failed: %s\n%s" % (ctx, short(r.err)), src=d)
            return
        # C++
        objs = []
        units = sorted(os.path.join(out, f) for f in os.listdir(os.path.join(d, out)) if f.endswith(".cc"))
        for b in w.blocks:
            genh = None
            if b.rustfun:
                hs = [f for f in sorted(os.listdir(os.path.join(d, out))) if f.endswith(".h") and " rcb_%d(" % b.k in open(os.path.join(d, out, f)).read()]
                if not hs:
                    ck.violation("rustfun:missing", "Rust function of block %d is in no generated header (%s)" % (b.k, ctx), src=d)
                    return
                genh = hs[0]
            open(os.path.join(d, "impl%d.cc" % b.k), "w").write(b.impl(genh))
            units.append("impl%d.cc" % b.k)
        open(os.path.join(d, "rt.cc"), "w").write(RT_CPP)
        units.append("rt.cc")
        for j, u in enumerate(units):
            c = run(["clang++", "-std=c++14", "-O0", "-w", *SAN, "-I.", "-I" + out, "-c", u, "-o", "u%d.o" % j], cwd=d, timeout=180)
            if c.killed:
                raise Inconclusive("clang killed")
            if c.rc != 0:
                ck.violation("cxx:%s" % w.mode, "%s does not compile (%s)\n%s" % (u, ctx, short(c.err)), src=d)
                return
            objs.append("u%d.o" % j)
        # Rust
        od = os.path.join(d, out)
        order = w.order(ins)

        def env_for(c, archive=None):
            if w.mode == "dir":
                return {"AUTOCXX_RS": od, "OUT_DIR": os.path.join(d, "decoy")}
            if w.mode == "outdir":
                return {"OUT_DIR": os.path.join(d, "out")}
            if w.mode == "archive":
                p = archive or os.path.join(od, "gen.rs.json")
                return {"AUTOCXX_RS_JSON_ARCHIVE": p, "OUT_DIR": os.path.join(d, "decoy")}
            b = [x for x in w.blocks if x.crate == c][0]
            return {"AUTOCXX_RS_FILE": os.path.join(od, "gen%d.include.rs" % order.index(b))}
        # OUT_DIR holds somebody else's bindings
        dec = os.path.join(d, "decoy", "autocxx-build-dir", "rs")
        os.makedirs(dec)
        for b in w.blocks:
            open(os.path.join(dec, "autocxx-%s-gen.rs" % (b.name or "ffi-default")), "w").write("compile_error!(\"decoy\");")
        arch = None
        if w.mode == "archive" and rng.random() < .4:
            arch = os.path.join(d, "missing.json") + ":" + os.path.join(od, "gen.rs.json") + ":" + os.path.join(d, "nope")
            ck.count("multi-path archives")
        for c in list(range(1, w.ncrates)) + [0]:
            r = rustc(T, d, c, env_for(c, arch), w, objs=objs)
            if r.rc != 0:
                ck.violation("rustc:%s" % w.mode, "crate %d does not build (%s)\n%s" % (c, ctx, short(r.err)), src=d)
                return
        r = exec_prog(case)
        if r.killed:
            raise Inconclusive("program killed")
        exp = [l for b in w.blocks for l in b.test()[1]]
        if r.rc != 0 or r.out.splitlines() != exp:
            ck.violation("trace:%s" % w.mode, "wrong behaviour (%s) rc=%s\n%s\n%s" % (ctx, r.rc, trace_diff(exp, r.out.splitlines()), r.err[-1500:]), src=d)
            return
        ck.count("events", len(exp))
        ck.count("blocks run", len(w.blocks))
        ck.saw("shapes", feats)
        ck.saw("modes", w.mode)
        if i < 3:
            ck.sample(ctx)
        negative(ck, T, rng, w, d, od, order, env_for, ins)
    except Inconclusive as e:
        ck.note_inconclusive("w%d: %s" % (i, e))
    finally:
        cleanup(case)


def edits(b, rng):
    """Edits of a block which change what it asks for."""
    d = b.directives()
    gens = [j for j, x in enumerate(d) if x.startswith("generate")]
    out = []
    out.append(("added generate", d + ['generate!("%s")' % b.cpp("tell" if "tell" not in b.feats or b.style != "list" else "pick")]))
    out.append(("dropped directive", [x for j, x in enumerate(d) if j != rng.choice(gens)]))
    if b.safety:
        out.append(("safety", [x for x in d if not x.startswith("safety")] + ["safety!()"]))
    else:
        out.append(("safety", d + ["safety!(unsafe)"]))
    out.append(("name", [x for x in d if not x.startswith("name!")] + ["name!(other_name)"]))
    out.append(("block", d + ['block!("%s")' % b.cpp("make")]))
    out.append(("utilities", d + ["exclude_utilities!()"]))
    out.append(("include", ['#include "h99.h"'] + d[1:]))
    out.append(("more includes", d[:1] + ['#include "h98.h"'] + d[1:]))
    out.append(("pod", d + ['pod!("%s")' % b.cpp("Outer")]))
    out.append(("impls", d + ["exclude_impls!()"]))
    out.append(("extern type", d + ['extern_cpp_type!("%s", crate::Zed)' % b.cpp("Zed")]))
    out.append(("concrete", d + ['concrete!("std::vector<int>", VI)']))
    out.append(("opaque", d + ['opaque!("%s")' % b.cpp("Zed")]))
    out.append(("subclass", d + ['subclass!("%s", MySub)' % b.cpp("Thing")]))
    out.append(("extern rust", d + ['extern_rust_type!(Zed)']))
    out.append(("nonmember", d + ['block_constructors!("%s")' % b.cpp("Thing")]))
    return out


def negative(ck, T, rng, w, d, od, order, env_for, ins):
    def must_fail(what, c, env, src=None):
        r = rustc(T, d, c, env, w, out="neg", src=src, metadata=True)
        ck.count("mismatches refused" if r.rc else "mismatches accepted")
        ck.saw("mismatch kinds", what)
        ck.evaluated("neg|%s|%s" % (w.mode, what))
        if r.rc == 0:
            ck.violation("neg:" + what, "%s: block compiled although its bindings are missing or stale (%s mode)" % (what, w.mode), src=d)
        elif "error" not in r.err:
            ck.violation("neg:silent:" + what, "%s: rustc failed without a diagnostic: %s" % (what, short(r.err)), src=d)

    b = rng.choice(w.blocks)
    c = b.crate
    fn = "c%d_f%d.rs" % (c, b.file)
    if w.mode == "archive":
        full = os.path.join(od, "gen.rs.json")
        es = edits(b, rng)
        for what, dirs in rng.sample(es, 3):
            # another block may legitimately have that very text
            if sorted(dirs) in [sorted(o.directives()) for o in w.blocks]:
                continue
            keep = open(os.path.join(d, fn)).read()
            nb = b.text(dirs) + b.rust()[len(b.text()):]      # would build with the old bindings
            open(os.path.join(d, fn), "w").write(w.source(c, b.file, {b.k: nb}))
            r = rustc(T, d, c, env_for(c), w, out="neg", metadata=True)
            open(os.path.join(d, fn), "w").write(keep)
            ck.evaluated("neg|archive|edit " + what)
            ck.saw("mismatch kinds", "edit " + what)
            ck.count("mismatches refused" if r.rc else "mismatches accepted")
            if r.rc == 0 or "bindings" not in r.err.lower():
                ck.violation("neg:edit:" + what, "block %d edited (%s) after generation: %s" % (
                    b.k, what, "still compiles with the old bindings" if r.rc == 0 else "not diagnosed as missing bindings: " + short(r.err)), src=d,
                    files={"edited.rs": w.source(c, b.file, {b.k: nb})})
        txt = open(full).read()
        bad = os.path.join(d, "bad.json")
        open(bad, "w").write(txt[:len(txt) * 2 // 3])
        must_fail("truncated archive", c, {"AUTOCXX_RS_JSON_ARCHIVE": bad})
        must_fail("absent archive", c, {"AUTOCXX_RS_JSON_ARCHIVE": os.path.join(d, "gone.json")})
        # an archive of the other sources only
        others = [x for x in ins if x != fn]
        if others:
            w2exact = [] if w.exact is None else ["--generate-exact", str(w.exact)]
            r = run([T.gen] + others + ["-o", "out2", "-I", ".", "--gen-cpp", "--gen-rs-archive"] + w2exact + ["--", "-std=c++14"], cwd=d, timeout=150)
            if r.rc != 0:
                ck.violation("gen:subset", "generator failed on a subset of the sources: " + short(r.err), src=d)
            else:
                must_fail("archive of other sources", c, {"AUTOCXX_RS_JSON_ARCHIVE": os.path.join(d, "out2", "gen.rs.json")})
    elif w.mode in ("dir", "outdir"):
        f = os.path.join(od, "autocxx-%s-gen.rs" % (b.name or "ffi-default"))
        if not os.path.exists(f):
            ck.violation("dir:name", "bindings of module %s are not in %s" % (b.mod, os.path.basename(f)), src=d)
            return
        os.rename(f, f + ".bak")
        must_fail("missing file", c, env_for(c))
        os.rename(f + ".bak", f)
    else:
        must_fail("missing single file", c, {"AUTOCXX_RS_FILE": os.path.join(od, "gen77.include.rs")})
        must_fail("placeholder single file" if w.exact > len(order) else "other module's file", c,
                  {"AUTOCXX_RS_FILE": os.path.join(od, "gen%d.include.rs" % len(order))}) if w.exact > len(order) else None


def clashes(ck, T, i):
    """Two modules of one name which would overwrite each other: refused, in every placement."""
    rng = ck.rng("n", i)
    a, b = Blk(0), Blk(1)
    for x in (a, b):
        x.feats = ["tell", "thing"]
        x.host = list(rng.choice(HOSTS))
    a.name = rng.choice([None, "ffi", "zz"])
    b.name = {"ffi": None, None: rng.choice([None, "ffi"]), "zz": "zz"}[a.name]
    b.host = ["other"] + b.host
    two = i % 2 == 1
    if two:
        b.file = 1
        a.name = b.name
    w = World.__new__(World)
    w.blocks, w.ncrates, w.mode, w.exact, w.rng = [a, b], 1, "dir", None, rng
    case = Case("n%d" % i, "", "")
    case.dir = d = tempfile.mkdtemp(prefix="c13-", dir=scratch_root())
    try:
        for n, t in w.files().items():
            open(os.path.join(d, n), "w").write(t)
        for x in w.blocks:
            open(os.path.join(d, x.hdr), "w").write(x.header())
        flags = gen_flags(w, "dir")
        r = run([T.gen] + w.inputs() + ["-o", "out", "-I", "."] + flags + ["--", "-std=c++14"], cwd=d, timeout=150)
        if r.killed:
            raise Inconclusive("generator killed")
        what = "%s/%s %s" % (a.name, b.name, "two files" if two else "one file")
        ck.evaluated("clash|" + what)
        ck.saw("mismatch kinds", "clash " + what)
        if r.rc == 0:
            ck.violation("clash", "two modules called %s are accepted together (%s)" % (a.mod, what), src=d)
        elif "panicked" in r.err or r.rc > 1:
            ck.violation("clash:panic", "two modules called %s: %s" % (a.mod, short(r.err)), src=d)
        else:
            ck.count("clashes refused")
    except Inconclusive as e:
        ck.note_inconclusive("n%d: %s" % (i, e))
    finally:
        cleanup(case)


TW_H = """#pragma once
#include <cstdint>
#include <string>
struct P { uint32_t a; }; struct Q { Q(); uint32_t b; std::string s; }; struct B { B() {} virtual ~B() {} virtual uint32_t go(uint32_t a) const { return a; } };
template <class X> struct W { X x; }; struct T { T() {} uint32_t w; };
inline uint32_t f(const T& t, P p) { return t.w + p.a; } inline uint32_t g(uint32_t a) { return a; } inline const uint32_t* h(const uint32_t* a) { return a; }
inline uint32_t k(const W<int>& w) { return 1; } namespace n { inline uint32_t m(uint32_t a) { return a; } }
"""


def twins(ck, T, i):
    """Blocks in one archive which differ in a single directive: each gets the bindings it would get alone."""
    rng = ck.rng("tw", i)
    case = Case("c13_tw%d" % i, TW_H, "", "")
    try:
        write_case(case)
        d = case.dir
        open(os.path.join(d, "other.h"), "w").write('#include "input.h"\n')
        base = ['#include "input.h"', "safety!(unsafe)", 'generate!("f")', 'generate!("g")', 'generate!("h")']
        edits = {
            "safety": lambda l, r: [x if "safety" not in x else r for x in l], "pod": lambda l, r: l + ['pod!("P")'], "block": lambda l, r: l + ['block!("%s")' % r],
            "extern path": lambda l, r: l + ['extern_cpp_type!("T", crate::%s::T)' % r], "extern opaque": lambda l, r: l + ['extern_cpp_opaque_type!("T", crate::%s::T)' % r],
            "generate": lambda l, r: l + ['generate!("%s")' % r], "name": lambda l, r: l + ["name!(%s)" % r], "utilities": lambda l, r: l + ["exclude_utilities!()"],
            "impls": lambda l, r: l + ["exclude_impls!()"], "subclass": lambda l, r: l + ['subclass!("B", %s)' % r], "concrete": lambda l, r: l + ['generate!("k")', 'concrete!("W<int>", %s)' % r],
            "rust type": lambda l, r: l + ["rust_type!(%s)" % r], "constructors": lambda l, r: l + ['generate!("Q")'] + (['block_constructors!("Q")'] if r else []), "ns": lambda l, r: l + ['generate_ns!("n")'],
            "opaque": lambda l, r: l + ['opaque!("%s")' % r], "header": lambda l, r: [x if "#include" not in x else '#include "%s"' % r for x in l], "instantiable": lambda l, r: l + ['instantiable!("%s")' % r],
            "rust function": lambda l, r: l + ["extern_rust_function!(crate::%s, fn cb(a: u32) -> u32)" % r],
            "order": lambda l, r: l[:2] + l[:1:-1]}
        vals = {"safety": ["safety!(unsafe_ffi)", "safety!()", "safety!(unsafe_references_wrapped)"], "block": ["P", "T"], "extern path": ["here", "there", "here2"], "extern opaque": ["here", "there"], "generate": ["Q", "B"],
                "name": ["ffi2", "other"], "subclass": ["Sub", "Subb"], "concrete": ["Wi", "Wj"], "rust type": ["Ra", "Rb"], "constructors": ["", "1"], "opaque": ["P", "Q"], "header": ["other.h"],
                "instantiable": ["P", "Q"], "rust function": ["cb", "x::cb"]}
        k = rng.choice(sorted(edits))
        rs = rng.sample(vals.get(k, [""]), min(len(vals.get(k, [""])), rng.choice([1, 2, 3])))
        if k == "constructors":
            rs = ["", "1"]
        k2 = rng.choice(sorted(set(edits) - {"order", k, "name"}))
        common = edits[k2](base, rng.choice(vals.get(k2, [""]))) if rng.random() < .4 and not {"extern path", "extern opaque"} <= {k, k2} and not {"rust type", "rust function"} & {k2} else base
        vs = ([(k + " none", common)] if k not in ("constructors",) else []) + [(k + " " + r, edits[k](common, r)) for r in rs]
        for j, (_, l) in enumerate(vs):
            open(os.path.join(d, "v%d.rs" % j), "w").write(RS_ALLOW + "use autocxx::prelude::*;\ninclude_cpp! {\n%s\n}\nfn main() {}\n" % "\n".join(l))
        good = []
        for j in range(len(vs)):
            r = run([T.gen, "v%d.rs" % j, "-o", "o%d" % j, "-I", ".", "--gen-rs-archive", "--", "-std=c++14"], cwd=d, timeout=200)
            if r.killed:
                raise Inconclusive("generator killed")
            if r.rc == 0:
                good.append(j)
            else:
                ck.count("twins which cannot be generated alone")
        if len(good) < 2:
            raise Inconclusive("twins: only %d of %d %s can be generated" % (len(good), len(vs), [v[0] for v in vs]))
        rng.shuffle(good)
        r = run([T.gen] + ["v%d.rs" % j for j in good] + ["-o", "all", "-I", ".", "--gen-rs-archive", "--", "-std=c++14"], cwd=d, timeout=200)
        if r.killed:
            raise Inconclusive("generator killed")
        if r.rc != 0:
            ck.violation("twins:gen", "blocks differing in %s generate alone but not together: %s" % ([vs[j][0] for j in good], short(r.err)), src=d)
            return
        for j in good:
            t = []
            for o in ("o%d" % j, "all"):
                cmd = ["rustc", "--edition", "2021", "v%d.rs" % j, "-Zunpretty=expanded", "-L", "dependency=" + T.deps, "--extern", "autocxx=" + T.rlib_autocxx, "--extern", "cxx=" + T.rlib_cxx, "--cap-lints", "allow"]
                r = run(cmd, cwd=d, env={"AUTOCXX_RS_JSON_ARCHIVE": os.path.join(d, o, "gen.rs.json"), "RUSTC_BOOTSTRAP": "1"}, timeout=200)
                if r.killed:
                    raise Inconclusive("rustc killed")
                t.append(r.out)
            ck.evaluated("twins|%s|%d" % (vs[j][0], len(good)))
            ck.count("twin blocks")
            ck.saw("twin differences", k)
            if "mod " not in t[0]:
                raise Inconclusive("twins: no expansion: " + short(r.err))
            if t[0] != t[1]:
                ck.violation("twins:" + k, "a block (%s) next to nearly identical ones (%s) does not get the bindings it gets alone" % (vs[j][0], [vs[x][0] for x in good]), src=d)
    except Inconclusive as e:
        ck.note_inconclusive("tw%d: %s" % (i, e))
    finally:
        cleanup(case)


def main():
    ck = Check("C13")
    T = build_repo()
    ck.rule = ("one evaluation is one crate set with 1-4 include_cpp! blocks (modules x placement x crates x lookup mode) generated in one run, built and run with its "
               "trace compared, or one stale/missing/clashing-bindings attempt that must be refused; distinct = lookup mode x crates x per-block shape, or mismatch kind")
    ck.assumptions = ["blocks bind disjoint C++ entities (cxx gives each bound entity one symbol per program)",
                      "directory and single-file lookup go by module name, so stale text there is only detectable as missing names"]
    n, m = (22, 6) if ck.quick else (260, 30)
    jobs = [("p", i) for i in range(n)] + [("n", i) for i in range(m)] + [("t", i) for i in range(2 * n)]
    for r in pmap(lambda j: {"p": positive, "n": clashes, "t": twins}[j[0]](ck, T, j[1]), jobs):
        if isinstance(r, BaseException):
            raise r
    return ck.finish(min_evals=n)
