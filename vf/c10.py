"""C10 unsupported C++ degrades per item; bad input gives a diagnostic, never a crash, a hang or output that does not build."""
from .core import *
from .lib import *
from .types import wrap_ns, q
from .callgen import make_call_program
from . import mix

HDR = "#pragma once\n" + "".join("#include <%s>\n" % i for i in mix.INCLUDES)
STUBBED = re.compile(r"_1\d\d|\dK\d")       # symbols of the constructs (numbered from 100) and of the classes K<n>
MEMBER_DEFS = {
    "m_virtual": "uint32_t %s::mvirt() const { return 9; }\n",
    "m_op_new": "void* %s::operator new(size_t n) { return ::operator new(n); }\nvoid %s::operator delete(void* p) { ::operator delete(p); }\n",
}
CRASH = re.compile(r"panicked at|thread '.*' has overflowed|stack overflow|SIGSEGV|assertion failed|internal error: entered unreachable")


def crashed(r):
    """How the generator ended, when that is not a verdict of its own."""
    if r.rc < 0:
        return "signal %d" % -r.rc
    if r.rc == 101 or CRASH.search(r.err):
        m = re.search(r"panicked at [^\n]*\n?[^\n]*", r.err)
        return (m.group(0) if m else "exit %d" % r.rc)[:300]
    return None


def generated(case, out="out"):
    od = os.path.join(case.dir, out)
    t = ""
    for f in sorted(os.listdir(od)):
        if f.endswith(".rs"):
            t += open(os.path.join(od, f), errors="replace").read() + "\n"
    return re.sub(r"\s+", " ", t)


def placeholders(txt):
    """-> ({type/function placeholder name: reason}, {method placeholder name: reason})"""
    st, me = {}, {}
    for m in re.finditer(r'doc ?= ?"((?:[^"\\]|\\.)*)" ?\] ?pub struct (\w+) ?;', txt):
        if "bindings couldn't be generated" in m.group(1).replace("\\'", "'"):
            st[m.group(2)] = m.group(1)
    for m in re.finditer(r'doc ?= ?"((?:[^"\\]|\\.)*)" ?\] ?(?:pub )?fn (\w+) ?\( ?_uhoh', txt):
        me.setdefault(m.group(2), m.group(1))
    return st, me


def reason_ok(doc):
    t = doc.replace("\\'", "'")
    m = re.search(r"couldn't be generated: *(.*)", t)
    return bool(m and len(m.group(1).strip()) > 10)


class Mix:
    def __init__(self, rng, n, only=None):
        self.items, self.dirs, self.cpp, self.expect, self.desc = [], [], "", [], []
        self.meth = {}             # class qual -> [placeholder]
        self.rng = rng
        pool = [x for x, _ in mix.FREE if x not in mix.BROKEN]
        names = only if only is not None else [rng.choice(pool) for _ in range(n)]
        for j, name in enumerate(names):
            k = 100 + j
            text = mix.free(name, k)
            if not mix.names(name, "it", k) and not mix.names(name, "ph", k) and not mix.names(name, "ty", k):
                mode = rng.choice(["ns", "idle"])
            else:
                mode = rng.choice(["root", "root", "root", "ns", "nsname", "idle"]) if only is None else rng.choice(["root", "ns"])
            if "#" in text and mode != "root":
                mode = "root" if mode in ("ns", "nsname") else "idle"
            if 'extern "C"' in text or "operator\"\"" in text or "extern template" in text or "asm" in text:
                mode = {"ns": "root", "nsname": "root"}.get(mode, mode)
            path = ()
            if mode in ("ns", "nsname"):
                path = ("u%d" % k,) if rng.random() < 0.7 else ("u%d" % k, "v%d" % k)
            if mode == "ns":
                self.dirs.append('generate_ns!("%s")' % "::".join(path))
                it, ty, ph = mix.names(name, "nit", k), [], mix.names(name, "nph", k)
            elif mode == "idle":
                it, ty, ph = [], [], []
            else:
                it, ty, ph = (mix.names(name, x, k) for x in ("it", "ty", "ph"))
                if mode == "root" and it + ty + ph and rng.random() < 0.3:      # only some of its names are asked for
                    keep = set(rng.sample(it + ty + ph, max(1, len(it + ty + ph) // 2)))
                    it, ty, ph = [x for x in it if x in keep], [x for x in ty if x in keep], [x for x in ph if x in keep]
                self.dirs += ['generate!("%s")' % q(path, x) for x in it + ty + ph]
            self.items.append((path, text))
            self.desc.append((name, mode))
            self.expect += [(name, path, x, "item") for x in it + ty] + [(name, path, x, "ph") for x in ph]

    def cls_hook(self, c):
        rng = self.rng
        pool = [n for n, _ in mix.METHODS if n not in mix.BROKEN_METHODS]
        pick = rng.sample(pool, rng.choice([0, 1, 2, 3]))
        if len([p for p in pick if p.startswith("m_ctor_")]) > 1:      # (the suffixes of several would depend on each other)
            pick = [p for p in pick if not p.startswith("m_ctor_")]
        lines = ["  %s;" % f.proto() for f in c.fns]
        for p in pick:
            lines.insert(rng.randrange(len(lines) + 1), "  " + mix.method(p, c.name))
            if p in MEMBER_DEFS:
                self.cpp += MEMBER_DEFS[p].replace("%s", c.qual)
            self.desc.append((p, "member"))
            for x in mix.METHOD_PLACEHOLDERS[p].split():
                if x[0].islower():
                    self.meth.setdefault(c.qual, []).append((p, x))
        c.order = lines


def stubs(case):
    """The constructs are declared, never called and so not worth defining: gives their symbols an address."""
    r = run(["nm", "--undefined-only", "--format=posix", "unit.o"], cwd=case.dir)
    syms = [l.split()[0] for l in r.out.splitlines() if STUBBED.search(l.split()[0]) and "cxxbridge1" not in l]
    with open(os.path.join(case.dir, "stubs.s"), "w") as f:
        f.write('.section .note.GNU-stack,"",@progbits\n.data\n' + "".join('.globl "%s"\n"%s": .zero 64\n' % (x, x) for x in syms))
    if run(["clang++", "-c", "stubs.s", "-o", "stubs.o"], cwd=case.dir).rc != 0:
        raise Inconclusive("stubs")
    case.rustc_args += ["-C", "link-arg=stubs.o"]


def judge(ck, T, case, exp, m, sig):
    """Oracles common to mixes and single constructs. -> ok"""
    write_case(case)
    r = gen_step(T, case)
    if r.timed_out:
        r = gen_step(T, case, timeout=400)
        if r.timed_out:
            ck.violation(sig + ":hang", "%s: the generator did not end within 400 s on valid C++ %s" % (case.name, m.desc), src=case.dir)
            return False
    if r.killed:
        raise Inconclusive("generator killed")
    if r.rc != 0:
        v = run(["clang++", *case.clang_args, "-fsyntax-only", "-w", "-x", "c++", "-I.", "input.h"], cwd=case.dir)
        if v.rc != 0:
            raise Inconclusive("%s: the harness wrote C++ that clang rejects: %s" % (case.name, first_error(v)))
        ck.violation(sig + ":gen", "%s: the generator %s on a valid header with %s\n%s" % (case.name, crashed(r) or "gave up", m.desc, r.err[-2500:]), src=case.dir)
        return False
    c = compile_cxx(case)
    if c.killed:
        raise Inconclusive("clang killed")
    if c.rc != 0:
        v = run(["clang++", *case.clang_args, "-fsyntax-only", "-w", "-x", "c++", "-I.", "input.h"], cwd=case.dir)
        if v.rc != 0:
            raise Inconclusive("%s: the harness wrote C++ that clang rejects: %s" % (case.name, first_error(v)))
        ck.violation(sig + ":cxx", "%s: generated C++ does not build, header with %s: %s" % (case.name, m.desc, c.err[:3000]), src=case.dir)
        return False
    stubs(case)
    rs = rustc_step(T, case)
    if rs.killed:
        raise Inconclusive("rustc killed")
    if rs.rc != 0:
        ck.violation(sig + ":rustc", "%s: program using only supported items does not build, header with %s: %s\n%s" % (case.name, m.desc, first_error(rs), rs.err[:3000]), src=case.dir)
        return False
    e = exec_prog(case)
    if e.killed:
        raise Inconclusive("program killed")
    got = e.out.splitlines()
    ck.count("events_checked", len(exp))
    if got != exp or e.rc != 0:
        ck.violation(sig + ":run", "%s: supported items misbehave next to %s (rc=%s)\n%s\nstderr: %s" % (case.name, m.desc, e.rc, "\n".join(trace_diff(exp, got)), e.err[-1500:]),
                     src=case.dir, files={"expected.txt": "\n".join(exp), "observed.txt": e.out})
        return False
    # everything that was asked for exists: bound, or as a placeholder with a reason
    ok = True
    st, me = placeholders(generated(case))
    for name, path, x, kind in m.expect:
        ck.evaluated("%s %s %s" % (name, x[:3], kind))
        ck.count("item_" + kind)
        if kind == "item" and x in st:
            ck.violation(sig + ":lost:" + name, "%s: %s (construct %s) can be bound and is replaced by a placeholder: %s" % (case.name, q(path, x), name, st[x]), src=case.dir)
            ok = False
        if kind == "ph" and (x not in st or not reason_ok(st[x])):
            ck.violation(sig + ":undocumented:" + name, "%s: %s (construct %s) has no placeholder saying why it is missing: %r" % (case.name, q(path, x), name, st.get(x)), src=case.dir)
            ok = False
    for cq, l in m.meth.items():
        for name, x in l:
            ck.evaluated("%s %s method" % (name, x))
            ck.count("item_method_placeholder")
            if x not in me or not reason_ok(me[x]):
                ck.violation(sig + ":undocumented:" + name, "%s: method %s::%s (%s) has no placeholder saying why it is missing: %r" % (case.name, cq, x, name, me.get(x)), src=case.dir)
                ok = False
    pre = case.main[:case.main.rindex("fn main()")] + "fn main() {}"
    probes = ["mod _p%d { #[allow(unused)] use crate::ffi::%s as _x; }" % (i, "::".join(list(path) + [x])) for i, (_, path, x, _) in enumerate(m.expect)]
    if probes:
        rej, broken = probe(T, case, pre, probes)
        if broken:
            raise Inconclusive("%s: probe: %s" % (case.name, broken[0][:300]))
        for i, (code, msg) in rej.items():
            name, path, x, kind = m.expect[i]
            ck.violation(sig + ":missing:" + name, "%s: %s (construct %s) was asked for and is neither bound nor replaced by a placeholder: %s" % (case.name, q(path, x), name, msg), src=case.dir)
            ok = False
    return ok


def mixed(ck, T, i):
    rng = ck.rng("mix", i)
    m = Mix(rng, rng.randint(2, 8))
    case, exp, _, _ = make_call_program(rng, "c10_%d" % i, n_free=rng.randint(2, 6), n_cls=rng.randint(1, 3), calls=1, hdr=HDR,
                                        extra=m.items, extra_dirs=m.dirs, cls_hook=m.cls_hook)
    finish(case, m)
    ok = judge(ck, T, case, exp, m, "mix%d" % i)
    ck.count("mixes")
    for d in m.desc:
        ck.saw("constructs", d[0])
        ck.saw("construct_placements", d)
    if ok and i < 2:
        ck.sample({"constructs": m.desc, "placeholders": [e[2] for e in m.expect if e[3] == "ph"][:6], "supported_events": exp[:4]})
    cleanup(case)


def finish(case, m):
    case.cpp += m.cpp
    case.header = case.header.encode("utf8", "surrogateescape")


def alone(ck, T, name):
    """One construct by itself, everything it declares asked for, next to two ordinary functions."""
    m = Mix(random.Random(7), 0, only=[])
    if name.startswith("m_"):
        decl = "class K0 { public: K0(uint32_t v); ~K0(); uint32_t one() const; %s uint32_t two(uint32_t a) const; private: uint32_t v_; };\n" % mix.method(name, "K0")
        m.dirs.append('generate!("K0")')
        m.meth["K0"] = [(name, x) for x in mix.METHOD_PLACEHOLDERS[name].split() if x[0].islower()]
        defs = "K0::K0(uint32_t v) : v_(v) {}\nK0::~K0() {}\nuint32_t K0::one() const { return v_; }\nuint32_t K0::two(uint32_t a) const { return a + v_; }\n" + \
            MEMBER_DEFS.get(name, "").replace("%s", "K0")
        use = 'let g = ffi::K0::new(5).within_unique_ptr(); ev(format!("{} {}", g.one(), g.two(3)));'
        exp = ["5 8"]
    else:
        decl, defs, use, exp = mix.free(name, 100) + "\n", "", "", []
        for key, kind in (("it", "item"), ("ty", "item"), ("ph", "ph")):
            for x in mix.names(name, key, 100):
                m.dirs.append('generate!("%s")' % x)
                m.expect.append((name, (), x, kind))
    m.desc = [(name, "alone")]
    main = RS_ALLOW + "use autocxx::prelude::*;\ninclude_cpp! {\n#include \"input.h\"\nsafety!(unsafe)\ngenerate!(\"vf_before\")\ngenerate!(\"vf_after\")\n%s\n}\n%s\nfn main() { %s ev(format!(\"{}\", ffi::vf_before(1) + ffi::vf_after(2))); }\n" % (
        "\n".join(m.dirs), RT_RS, use)
    cc = RT_CPP + defs + "uint32_t vf_before(uint32_t a) { return a + 10; }\nuint32_t vf_after(uint32_t a) { return a + 20; }\n"
    case = Case("c10_alone_" + name, HDR + "uint32_t vf_before(uint32_t a);\n" + decl + "uint32_t vf_after(uint32_t a);\n", main, cc)
    finish(case, m)
    judge(ck, T, case, exp + ["33"], m, "alone:" + name)
    ck.count("constructs_alone")
    cleanup(case)


def chained(ck, T, i):
    """Types that cannot be bound, and items reaching them through several others: each item that would need one of them is replaced by a placeholder, everything else is bound."""
    rng = ck.rng("chain", i)
    m = Mix(random.Random(7), 0, only=[])
    k = 100
    late, decls, defs = [], [], ""
    bad_, pods = [], []                      # qualified names of types that have no bindings
    def place():
        return rng.choice([(), (), ("w%d" % k,), ("w%d" % k, "z%d" % k)])
    def put(path, text):
        decls.append(wrap_ns(path, text))
    def want(path, x, kind, d="generate"):
        m.dirs.append('%s!("%s")' % (d, q(path, x)))
        m.expect.append(("chain " + what, path, x, kind))
    for _ in range(rng.randint(1, 3)):
        k += 1
        root = what = rng.choice(["twin", "twin", "blocked"]) if bad_ or _ else "blocked"
        ck.saw("chain_roots", root)
        if root == "twin":
            n = rng.choice([2, 2, 3])
            kinds = [rng.choice(["struct Tw_%d { uint32_t a; };", "class Tw_%d { public: Tw_%d(); ~Tw_%d(); uint32_t g() const; };", "enum class Tw_%d { A, B };"]).replace("%d", str(k)) for _ in range(n)]
            for j, t in enumerate(kinds):
                path = ("tw%d_%d" % (k, j),)
                put(path, t)
                want(path, "Tw_%d" % k, "ph")
                if not t.startswith("class"):
                    bad_.append(q(path, "Tw_%d" % k))
        else:
            path = place()
            if root == "blocked":
                put((), "struct Bk_%d { uint32_t a; };" % k)
                m.dirs.append('block!("Bk_%d")' % k)
                put(path, "struct Bh_%d { Bk_%d* p; uint32_t z; };" % (k, k))
                want(path, "Bh_%d" % k, "ph", "generate_pod")
                bad_.append(q(path, "Bh_%d" % k))
    aliases = set()
    for _ in range(rng.randint(6, 14)):
        k += 1
        b = rng.choice(bad_[-3:] if rng.random() < 0.6 else bad_)
        path = place()
        what = rng.choice(["pod_ptr", "pod_ptr", "pod_value", "pod_base", "pod_array", "alias", "typedef", "fn_ref", "fn_ptr", "fn_value", "fn_ret", "fn_vec", "fn_up", "fn_ret_ptr", "late_fn", "class", "opaque", "plain"])
        if what.startswith("pod") and ("Tw_" in b or b in aliases):      # (a class, an enum; a typedef is not known to be safe by value)
            what = "pod_ptr"
        if what in ("alias", "typedef") and "Bh_" in b:                  # (an alias of a type given up early is a type of its own)
            what = "fn_ref"
        ck.saw("chain_links", what)
        x = "Lk_%d" % k
        if what.startswith("pod"):
            late.append((path, x))
            f = {"pod_ptr": "{ uint32_t y; const %s* p; }" % b, "pod_value": "{ %s v; uint32_t y; }" % b, "pod_array": "{ uint32_t y; %s v[3]; }" % b, "pod_base": ": public %s { uint32_t y; }" % b}[what]
            put(path, "struct %s %s;" % (x, f))
            want(path, x, "ph", "generate_pod")
            bad_.append(q(path, x))
        elif what in ("alias", "typedef"):
            put(path, "using %s = %s;" % (x, b) if what == "alias" else "typedef %s %s;" % (b, x))
            want(path, x, "ph")
            bad_.append(q(path, x))
            aliases.add(q(path, x))
        elif what == "class":
            ref = rng.choice(["void me(const %s& h) const;", "const %s* me(uint32_t a);", "%s& me();", "static void me(%s* h);", "void me(std::vector<%s> h);"]) % b
            put(path, "class %s { public: %s(uint32_t a); ~%s(); uint32_t ok() const; %s uint32_t ok2(uint32_t a) const; uint32_t v; };" % (x, x, x, ref))
            want(path, x, "item")
            if rng.random() < 0.7:
                m.meth.setdefault(q(path, x), []).append(("chain class", "me"))
        elif what == "opaque":
            put(path, "struct %s { std::string s; %s* v; uint32_t ok() const; };" % (x, b))
            want(path, x, "item")
            put(path, "uint32_t fo_%d(const %s& x);" % (k, x))
            want(path, "fo_%d" % k, "item")
        elif what == "plain":
            put(path, "struct %s { uint32_t s; };\nuint32_t fo_%d(%s x);" % (x, k, x))
            want(path, x, "item", "generate_pod")
            want(path, "fo_%d" % k, "item")
        elif what == "late_fn" and late:
            lp, lx = rng.choice(late)
            decls.insert(0, wrap_ns(lp, "struct %s;" % lx) + "\n" + wrap_ns(path, "uint32_t fl_%d(const %s* x);" % (k, q(lp, lx))))
            want(path, "fl_%d" % k, "ph")
        else:
            f = {"fn_ref": "uint32_t %s(const %s& a);", "fn_ptr": "uint32_t %s(%s* a);", "fn_value": "uint32_t %s(%s a);", "fn_ret": "const %s& %s();", "fn_ret_ptr": "%s* %s(uint32_t a);", "fn_vec": "uint32_t %s(const std::vector<%s>& a);",
                 "fn_up": "std::unique_ptr<%s> %s();"}.get(what, "uint32_t %s(const %s* a);")
            put(path, f % ((b, "fk_%d" % k) if what in ("fn_ret", "fn_ret_ptr", "fn_up") else ("fk_%d" % k, b)))
            want(path, "fk_%d" % k, "ph")
    rng.shuffle(m.dirs)
    m.desc = [("chain", i)]
    main = RS_ALLOW + "use autocxx::prelude::*;\ninclude_cpp! {\n#include \"input.h\"\nsafety!(unsafe)\ngenerate!(\"vf_before\")\ngenerate!(\"vf_after\")\n%s\n}\n%s\nfn main() { ev(format!(\"{}\", ffi::vf_before(3) + ffi::vf_after(0))); }\n" % (
        "\n".join(m.dirs), RT_RS)
    cc = RT_CPP + "uint32_t vf_before(uint32_t a) { return a + 10; }\nuint32_t vf_after(uint32_t a) { return a + 20; }\n"
    case = Case("c10_chain%d" % i, HDR + "uint32_t vf_before(uint32_t a);\n" + "\n".join(decls) + "\nuint32_t vf_after(uint32_t a);\n", main, cc)
    finish(case, m)
    judge(ck, T, case, ["33"], m, "chain%d" % i)
    ck.count("chains")
    ck.count("chain_types_without_bindings", len(bad_))
    cleanup(case)


# ---- bad input

TOK = re.compile(r'"(?:[^"\\]|\\.)*"|[A-Za-z_]\w*!?|\d\w*|::|->|[^\sA-Za-z_0-9]|\s+')
JUNK = ["generate!", '"x"', "{", "}", "(", ")", ";", "::", "struct", "fn", "safety!", "unsafe", "#", "include", "pod!", "block!", "42", "'a", "!", ",", "extern_rust_type!", "subclass!", "name!", "ffi",
        "instantiable!", "concrete!", "extern_cpp_type!", "generate_all!", "exclude_utilities!", "generate_ns!", "rust_fun!", "\"\"", "\"a::\"", "\"::b\"", "\"a b\"", "\"<int>\"", "self", "crate", "_"]
CJUNK = ["{", "}", "(", ")", ";", "::", "class", "struct", "template", "<", ">", "&", "&&", "*", "const", "virtual", "operator", "namespace", "int", "void", "typedef", "using", "=", "0", "~", "...", "static", "union",
         "enum", "decltype", "auto", "friend", "private:", "inline", "extern", "\"", "'", "#", "\\", "noexcept", "[[", "alignas(0)", "__attribute__", "mutable", "std::vector", "std::unique_ptr", "unsigned", "long", "x"]


def tok_mutate(rng, text, junk, lo, hi, n):
    toks = TOK.findall(text[lo:hi])
    for _ in range(n):
        if not toks:
            break
        i = rng.randrange(len(toks))
        k = rng.random()
        if k < 0.3:
            del toks[i]
        elif k < 0.45:
            toks.insert(i, toks[rng.randrange(len(toks))])
        elif k < 0.6:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k < 0.8:
            toks[i] = " %s " % rng.choice(junk)
        elif k < 0.9:
            toks.insert(i, " %s " % rng.choice(junk))
        elif k < 0.95:
            toks[i] = toks[i] * rng.choice([2, 50])
        else:
            j = min(len(toks), i + rng.randint(1, 12))
            del toks[i:j]
    return text[:lo] + "".join(toks) + text[hi:]


def bytes_mutate(rng, b, n):
    b = bytearray(b)
    for _ in range(n):
        if not b:
            break
        i = rng.randrange(len(b))
        k = rng.random()
        if k < 0.3:
            b[i] = rng.randrange(256)
        elif k < 0.5:
            del b[i]
        elif k < 0.6:
            b[i:i] = bytes(rng.randrange(256) for _ in range(rng.randint(1, 6)))
        elif k < 0.7:
            b = b[:i]
        elif k < 0.85:
            j = rng.randrange(len(b))
            b[i], b[j] = b[j], b[i]
        else:
            del b[i:i + rng.randint(1, 60)]
    return bytes(b)


def bad(ck, T, i):
    rng = ck.rng("bad", i)
    m = Mix(rng, rng.randint(0, 3))
    case, _, _, _ = make_call_program(rng, "c10_bad%d" % i, n_free=rng.randint(1, 4), n_cls=1, calls=1, hdr=HDR if m.items else "#pragma once\n#include <string>\n#include <cstdint>\n#include <memory>\n#include <vector>\n",
                                      extra=m.items, extra_dirs=m.dirs, cls_hook=m.cls_hook)
    finish(case, m)
    write_case(case)
    hdr, main = case.header, case.main
    hist = []
    for step in range(6):
        kind = rng.choice(["main_tok", "main_tok", "main_tok", "main_bytes", "hdr_tok", "hdr_tok", "hdr_bytes", "both", "dir", "world"])
        mm, hh = main, hdr
        lo = mm.index("include_cpp!")
        hi = mm.index("fn main()") if rng.random() < 0.1 else mm.index("\n}\n", lo) + 3
        flags, cl, env = list(case.gen_flags), list(case.clang_args), {}
        if kind in ("main_tok", "both"):
            mm = tok_mutate(rng, mm, JUNK, lo, hi, rng.choice([1, 1, 2, 5]))
        if kind in ("hdr_tok", "both"):
            t = hh.decode("utf8", "surrogateescape")
            a = t.rindex("#include <") if "#include <" in t else 0
            hh = tok_mutate(rng, t, CJUNK, a, len(t), rng.choice([1, 1, 2, 5])).encode("utf8", "surrogateescape")
        if kind == "main_bytes":
            mb = bytes_mutate(rng, mm[lo:hi].encode(), rng.choice([1, 1, 3, 10]))
        if kind == "hdr_bytes":
            hh = bytes_mutate(rng, hh, rng.choice([1, 1, 3, 10]))
        if kind == "dir":
            names = sorted(set(re.findall(r'!\("([^"]*)"\)', mm)))
            d = rng.choice(['generate!(%s)', 'generate_pod!(%s)', 'pod!(%s)', 'block!(%s)', 'block_constructors!(%s)', 'instantiable!(%s)', 'generate_ns!(%s)', 'concrete!(%s, Vfx)', 'concrete!("std::vector<int>", %s)',
                            'extern_cpp_type!(%s, crate::Foo)', 'extern_cpp_opaque_type!(%s, crate::Foo)', 'subclass!(%s, Vfs)', 'extern_rust_type!(%s)', 'rust_type!(%s)', 'exclude_impls!(%s)', 'name!(%s)', 'safety!(%s)',
                            'generate_all!(%s)', 'exclude_utilities!(%s)', 'nonsense!(%s)', '%s', '#include %s', 'extern_rust_function!(%s)'])
            a = rng.choice(['"%s"' % rng.choice(names or ["x"]), '"%s"' % (rng.choice(names or ["x"]) + rng.choice(["::", "::x", "<int>", " ", "*", "&", "$", "é", "-", "\\n"])), '"std::string"', '"std::vector"', '"int"', '""', '"::"', "x", "",
                            '"_x"', '"a__b"', '"Self"', '"self"', '"crate"', '"fn"', '"operator+"', '"T"', "1", "crate::x::y", "fn f(a: u32) -> u32", "unsafe", '"ffi"', '"cxxbridge"', '"root"', '"std"', '"rust::String"'])
            mm = mm[:lo] + mm[lo:].replace("safety!(" if "safety!(" in mm else '#include "input.h"\n', (d % a) + "\n" + ("safety!(" if "safety!(" in mm else '#include "input.h"\n'), 1)
            kind = "dir:" + d.split("!")[0]
        if kind == "world":
            w = rng.choice(["nohdr", "hdrdir", "flags", "flags", "nomain", "emptymain", "norust", "outfile", "hdrloop", "hdrempty", "main_dir", "noinc", "twoblocks", "deepmod", "nofailname", "bom", "nul"])
            kind = "world:" + w
            if w == "nohdr":
                mm = mm.replace("input.h", "missing.h")
            elif w == "hdrdir":
                mm = mm.replace("input.h", "out")
            elif w == "flags":
                cl = cl + rng.choice([["-Dvoid=int"], ["-std=c++98"], ["-include", "nope.h"], ["-Duint32_t=float"], ["-DNDEBUG"], ["-fshort-enums"], ["-funsigned-char"], ["-nostdinc"]])
            elif w == "emptymain":
                mm = ""
            elif w == "norust":
                mm = "int main() { return 0; }\n"
            elif w == "hdrloop":
                hh = b'#include "input.h"\n' + hh.replace(b"#pragma once\n", b"")
            elif w == "hdrempty":
                hh = b""
            elif w == "noinc":
                mm = mm.replace('#include "input.h"\n', "")
            elif w == "twoblocks":
                a = mm[lo:mm.index("\n}\n", lo) + 3]
                mm = mm[:lo] + a + mm[lo:]
            elif w == "deepmod":
                mm = mm[:lo] + "mod a { mod b { mod c { use autocxx::prelude::*;\n" + mm[lo:] + "\n} } }\nfn main() {}\n"
            elif w == "bom":
                mm = "\ufeff" + mm
            elif w == "nul":
                mm = mm[:lo] + "\0" + mm[lo:]
        with open(os.path.join(case.dir, "input.h"), "wb") as f:
            f.write(hh)
        with open(os.path.join(case.dir, "main.rs"), "wb") as f:
            f.write(mm[:lo].encode() + mb + mm[hi:].encode() if kind == "main_bytes" else mm.encode("utf8", "surrogatepass"))
        out = "o%d" % step
        if kind == "world:outfile":
            open(os.path.join(case.dir, out), "w").close()
        else:
            os.makedirs(os.path.join(case.dir, out), exist_ok=True)
        case2 = Case(case.name, "", "", gen_flags=flags, clang_args=cl, inputs=("nope.rs",) if kind == "world:nomain" else (".",) if kind == "world:main_dir" else ("main.rs",))
        case2.dir = case.dir
        if rng.random() < 0.1:
            case2.gen_flags.append("--auto-allowlist")
        r = gen_step(T, case2, out=out, timeout=180)
        if r.timed_out:
            r = gen_step(T, case2, out=out, timeout=600 if not ck.quick else 300)
            if r.timed_out:
                ck.violation("bad%d.%d:hang" % (i, step), "the generator does not end on a %s mutation" % kind, src=case.dir)
                break
        if r.rc == -9:
            raise Inconclusive("generator killed")
        ck.evaluated("bad %s %s" % (kind, re.sub(r"[\d\W]+", " ", first_error(r))[:60] if r.rc else "accepted"))
        ck.count("bad_" + ("accepted" if r.rc == 0 else "rejected"))
        ck.saw("bad_kinds", kind)
        if r.rc:
            ck.saw("diagnostics", re.sub(r"[\d\W]+", " ", first_error(r))[:50])
        c = crashed(r)
        if c:
            ck.violation("bad:" + re.sub(r"\d+", "N", c)[:80], "the generator crashed on a %s mutation: %s\n%s" % (kind, c, r.err[-3000:]), src=case.dir)
            break
        if r.rc and not (r.err + r.out).strip():
            ck.violation("bad:silent", "the generator failed without a diagnostic on a %s mutation" % kind, src=case.dir)
            break
    cleanup(case)


def main():
    ck = Check("C10")
    T = build_repo()
    ck.rule = ("one evaluation = one construct of a mixed header (item or placeholder verdict from the generated bindings, rustc and the running neighbours) or one malformed input given to the generator; "
               "distinct = distinct (construct, name, verdict) and (mutation, diagnostic)")
    ck.assumptions.append("constructs whose bindings are known not to build are re-tested alone, not in mixes (known-findings.txt)")
    n, nb, nc = (40, 60, 24) if ck.quick else (400, 900, 300)
    al = sorted(mix.BROKEN | mix.BROKEN_METHODS)
    if not ck.quick:
        al = [x for x, _ in mix.FREE] + [x for x, _ in mix.METHODS]
    jobs = [lambda x=x: alone(ck, T, x) for x in al] + [lambda i=i: mixed(ck, T, i) for i in range(n)] + [lambda i=i: chained(ck, T, i) for i in range(nc)] + [lambda i=i: bad(ck, T, i) for i in range(nb)]
    for r in pmap(lambda f: f(), jobs):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=100)
