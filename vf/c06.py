"""C06 only relocatable types can be POD: verdicts of the real pipeline against clang's own type traits."""
from .core import *
from .lib import *
from .types import wrap_ns, q

HDR = "#pragma once\n#include <cstdint>\n#include <cstddef>\n#include <string>\n#include <memory>\n#include <vector>\n#include <utility>\n#include <array>\n"
# ingredient -> declaration of a type {n}; None for "use this spelling directly as a field type"
BAD = [
    ("dtor", "struct {n} {{ uint32_t a; ~{n}() {{}} }};"),
    ("dtor_ool", "class {n} {{ public: ~{n}(); uint32_t a; }};\ninline {n}::~{n}() {{}}"),
    ("move", "struct {n} {{ uint32_t a; {n}() {{}} {n}({n}&& o) : a(o.a) {{}} }};"),
    ("copy", "struct {n} {{ uint32_t a; {n}() {{}} {n}(const {n}& o) : a(o.a) {{}} }};"),
    ("copymove", "struct {n} {{ uint32_t a; {n}() {{}} {n}(const {n}& o) : a(o.a) {{}} {n}({n}&& o) : a(o.a) {{}} ~{n}() {{}} }};"),
    ("delmove", "struct {n} {{ uint32_t a; {n}() {{}} {n}({n}&&) = delete; }};"),
    ("virt", "struct {n} {{ uint32_t a; virtual void f() {{}} }};"),
    ("virtonly", "struct {n} {{ virtual uint32_t f() const {{ return 1; }} }};"),
    ("vdtor", "struct {n} {{ uint32_t a; virtual ~{n}() = default; }};"),
    ("vbase", "struct {n}V {{ uint32_t a; }}; struct {n} : public virtual {n}V {{ uint32_t b; }};"),
    ("string", "struct {n} {{ std::string s; uint32_t a; }};"),
    ("uptr", "struct {n} {{ uint32_t a; std::unique_ptr<uint32_t> p; }};"),
    ("sptr", "struct {n} {{ std::shared_ptr<uint32_t> p; }};"),
    ("vec", "struct {n} {{ uint32_t a; std::vector<uint32_t> p; }};"),
    ("strarr", "struct {n} {{ uint32_t a; std::string p[2]; }};"),
    ("privdtor", "class {n} {{ public: uint32_t a; static void kill({n}* p) {{ delete p; }} private: ~{n}() {{}} }};"),
    ("tmpl", "template <typename T> struct {n}T {{ T t; ~{n}T() {{}} }}; struct {n} {{ {n}T<uint32_t> x; }};"),
    ("selfref", "struct {n} {{ {n}* self; {n}() : self(this) {{}} {n}(const {n}&) : self(this) {{}} }};"),
]
WRAP = [
    ("direct", None),
    ("field", "struct {n} {{ uint8_t x; {i} f; }};"),
    ("first", "class {n} {{ public: {i} f; uint8_t x; }};"),
    ("private_field", "class {n} {{ public: uint8_t x; private: {i} f; }};"),
    ("base", "struct {n} : public {i} {{ uint8_t x; }};"),
    ("privbase", "class {n} : private {i} {{ public: uint8_t x; }};"),
    ("secondbase", "struct {n}O {{ uint8_t o; }}; struct {n} : public {n}O, public {i} {{ uint8_t x; }};"),
    ("array", "struct {n} {{ uint8_t x; {i} f[3]; }};"),
    ("array2", "struct {n} {{ {i} f[2][2]; }};"),
    ("typedef", "typedef {i} {n}Td; struct {n} {{ uint8_t x; {n}Td f; }};"),
    ("using", "using {n}Td = {i}; struct {n} {{ uint8_t x; {n}Td f; }};"),
    ("deep", "struct {n}M {{ {i} f; }}; struct {n}L {{ uint8_t y; {n}M m; }}; struct {n} {{ {n}L l; uint8_t x; }};"),
    ("deepbase", "struct {n}M : public {i} {{ uint8_t z; }}; struct {n}L : public {n}M {{ }}; struct {n} {{ {n}L l; }};"),
    ("nested", "struct {n} {{ struct In {{ {i} f; }}; In in; }};"),
    ("stdarray", "struct {n} {{ uint8_t x; std::array<{i}, 2> f; }};"),
    ("tmplwrap", "template <typename T> struct {n}W {{ T t; }}; struct {n} {{ {n}W<{i}> w; }};"),
    ("anon", "struct {n} {{ struct {{ {i} f; }} m; }};"),
]
NOTWRAP = {("privdtor", w) for w, _ in WRAP if w != "direct"} | {("vbase", "stdarray")}

# (label, declaration, [(field, value)]) all of which must be granted with working fields
GOOD = [
    ("plain", "struct {n} {{ uint32_t a; uint8_t b; }};", "ab"),
    ("ctor", "struct {n} {{ uint32_t a; {n}() : a(0), b(0) {{}} explicit {n}(uint32_t x) : a(x), b(1) {{}} uint8_t b; }};", "ab"),
    ("defaulted", "struct {n} {{ uint32_t a; uint8_t b; {n}() = default; {n}(const {n}&) = default; {n}({n}&&) = default; ~{n}() = default; {n}& operator=(const {n}&) = default; }};", "ab"),
    ("methods", "struct {n} {{ uint32_t a; uint8_t b; uint32_t sum() const {{ return a + b; }} static int s; static int g() {{ return 1; }} }};", "ab"),
    ("nestedpod", "struct {n}I {{ uint32_t a; uint8_t b; }}; struct {n} {{ uint8_t pre; {n}I i; }};", "i.a i.b"),
    ("deeppod", "struct {n}I {{ uint32_t a; uint8_t b; }}; struct {n}J {{ {n}I i; }}; struct {n} {{ {n}J j; }};", "j.i.a j.i.b"),
    ("basepod", "struct {n}I {{ uint32_t a; uint8_t b; }}; struct {n} : public {n}I {{ uint64_t c; }};", "c"),
    ("arr", "struct {n} {{ uint32_t a; uint8_t b; uint16_t c[4]; }};", "ab"),
    ("ptr", "struct {n} {{ uint32_t a; uint8_t b; const char* p; {n}* next; void* v; }};", "ab"),
    ("enumf", "enum class {n}E : uint8_t {{ {n}E_A, {n}E_B }}; struct {n} {{ uint32_t a; uint8_t b; {n}E e; }};", "ab"),
    ("class", "class {n} {{ public: uint32_t a; uint8_t b; }};", "ab"),
    ("priv", "class {n} {{ public: uint32_t a; uint8_t b; private: uint32_t c; void m(); }};", "ab"),
    ("flts", "struct {n} {{ uint32_t a; uint8_t b; float f; double d; bool t; }};", "ab"),
    ("podlater", "struct {n}F; struct {n}U {{ {n}F* f; }}; struct {n}F {{ uint32_t a; uint8_t b; }}; struct {n} {{ {n}F f; {n}U u; }};", "f.a f.b"),
    ("assign", "struct {n} {{ uint32_t a; uint8_t b; {n}& operator=(const {n}& o) {{ a = o.a; b = o.b; return *this; }} bool operator==(const {n}& o) const {{ return a == o.a; }} }};", "ab"),
]
NSS = [(), ("na",), ("na", "nb")]


def main():
    ck = Check("C06")
    T = build_repo()
    ck.rule = ("one evaluation = one generate_pod!/pod! request whose fate in the real pipeline (generator, then clang on its C++, then rustc) was compared with "
               "clang's type traits; granted ones are also run and their fields exchanged with C++; distinct = ingredient x wrapping x request form")
    rng = ck.rng("m")
    pairs = [(b, w) for b in BAD for w in WRAP if (b[0], w[0]) not in NOTWRAP]
    if ck.quick:
        # every ingredient directly, every wrapping around the core ingredients, the rest sampled
        core = [p for p in pairs if p[1][0] == "direct" or p[0][0] in ("dtor", "copymove", "string", "virt")]
        rest = [p for p in pairs if p not in core]
        pairs = core + rng.sample(rest, 60)
    jobs = []
    for i, ((bl, bd), (wl, wd)) in enumerate(pairs):
        jobs.append((i, bl, bd, wl, wd, rng.choice(NSS), rng.choice(["generate_pod", "generate_pod", "pod"])))

    def bad(job):
        i, bl, bd, wl, wd, ns, how = job
        n = "X%d" % i
        if wd is None:
            decl, name = bd.format(n=n + "Q"), n + "Q"
        else:
            decl, name = bd.format(n=n + "I") + "\n" + wd.format(n=n + "Q", i=n + "I"), n + "Q"
        qual = q(ns, name)
        hdr = HDR + wrap_ns(ns, decl + "\ninline uint32_t ok_fn() { return 7; }")
        main_rs = RS_ALLOW + "use autocxx::prelude::*;\ninclude_cpp! {\n#include \"input.h\"\n%s\nsafety!(unsafe_ffi)\n}\nfn pod<T: cxx::ExternType<Kind = cxx::kind::Trivial>>() {}\nfn main() { pod::<ffi::%s>(); }\n" % (
            'generate!("%s")\ngenerate_pod!("%s")' % (q(ns, "ok_fn"), qual) if how == "generate_pod" else 'generate!("%s")\npod!("%s")\ngenerate!("%s")' % (q(ns, "ok_fn"), qual, qual), qual)
        case = Case("c06_%s_%s" % (bl, wl), hdr, main_rs, "")
        write_case(case)
        # the independent verdict
        probe = '#include "input.h"\n#include <type_traits>\ntypedef ::%s X;\nstatic_assert(!(std::is_trivially_move_constructible<X>::value && std::is_trivially_destructible<X>::value && !std::is_polymorphic<X>::value), "ok");\n' % qual
        if run(["clang++", "-std=c++14", "-w", "-fsyntax-only", "-x", "c++", "-I.", "-"], cwd=case.dir, stdin=probe.encode()).rc != 0:
            raise Inconclusive("c06: clang disagrees that %s/%s is unsafe" % (bl, wl))
        o = run_case(T, case, stop_after="rustc")
        ck.evaluated("bad %s %s %s" % (bl, wl, how))
        ck.count("rejected_by_" + o.stage if not o.ok else "granted")
        ck.saw("ingredients", bl)
        ck.saw("wrappings", wl)
        sig = "bad:%s:%s:%s" % (bl, wl, how)
        if o.ok:
            ck.violation(sig, "%s was granted as POD although C++ says it is not trivially relocatable:\n%s" % (qual, decl), src=case.dir)
        elif o.stage == "gen":
            if "panicked" in o.gen.err:
                ck.violation(sig + ":panic", "the generator panicked instead of rejecting %s\n%s" % (qual, o.gen.err[-2000:]), src=case.dir)
            elif n not in o.gen.err:
                ck.violation(sig + ":name", "the rejection of %s does not name it: %s" % (qual, o.gen.err[-1500:]), src=case.dir)
        cleanup(case)

    def good(k):
        r = ck.rng("good", k)
        pick = GOOD if k % 2 == 0 else r.sample(GOOD, 8)
        use_all = k % 4 == 3
        hdr, cpp, dirs, body, exp = HDR, RT_CPP, [], [], []
        for j, (lab, d, fields) in enumerate(pick):
            n = "G%d%s" % (j, lab.capitalize())
            ns = r.choice(NSS)
            qual = q(ns, n)
            fl = ["a", "b"] if fields == "ab" else fields.split()
            hdr += wrap_ns(ns, d.format(n=n) + "\nvoid show_%s(const %s& x);\nvoid bump_%s(%s& x);" % (n.lower(), n, n.lower(), n))
            cpp += "void %s(const ::%s& x) { VfL(\"S %s\")%s; }\nvoid %s(::%s& x) { %s }\n" % (
                q(ns, "show_" + n.lower()), qual, n, "".join(".u(x.%s)" % f for f in fl), q(ns, "bump_" + n.lower()), qual, " ".join("x.%s++;" % f for f in fl))
            dirs += ['%s!("%s")' % ("pod" if use_all else "generate_pod", qual)] + ([] if use_all and False else ['generate!("%s")' % q(ns, x + n.lower()) for x in ("show_", "bump_")])
            if use_all:
                dirs.append('generate!("%s")' % qual)
            vals = [r.randrange(0, 250) for _ in fl]
            body.append("pod::<ffi::%s>();" % qual)
            body.append("{ let mut x: ffi::%s = unsafe { std::mem::zeroed() };" % qual)
            for f, v in zip(fl, vals):
                body.append("x.%s = %d;" % (f, v))
            body.append("ffi::%s(&x); ffi::%s(std::pin::Pin::new(&mut x)); let y = x; ev(format!(\"R %s %s\", %s)); }" % (
                q(ns, "show_" + n.lower()), q(ns, "bump_" + n.lower()), n, " ".join("{}" for _ in fl), ", ".join("y.%s" % f for f in fl)))
            exp += ["S %s %s" % (n, " ".join(map(str, vals))), "R %s %s" % (n, " ".join(str(v + 1) for v in vals))]
        main_rs = RS_ALLOW + "use autocxx::prelude::*;\ninclude_cpp! {\n#include \"input.h\"\n%s\nsafety!(unsafe_ffi)\n}\n%s\nfn pod<T: cxx::ExternType<Kind = cxx::kind::Trivial>>() {}\nfn main() {\n%s\n}\n" % ("\n".join(dirs), RT_RS, "\n".join(body))
        case = Case("c06_good_%d" % k, hdr, main_rs, cpp)
        o = run_case(T, case)
        judge_trace(ck, case, o, exp, "good%d" % k)
        for lab, _, _ in pick:
            ck.evaluated("good %s %s" % (lab, use_all))
            ck.saw("granted_kinds", lab)
        ck.count("granted_and_run", len(pick))
        cleanup(case)

    for r in pmap(bad, jobs) + pmap(good, range(4 if ck.quick else 40)):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=60)
