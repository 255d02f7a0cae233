"""C05 layout of types, POD fields, enums, constants: both languages report, C++ is the reference."""
from .core import *
from .lib import *
from .types import wrap_ns, q
from .callgen import HDR

NSS = [(), ("na",), ("na", "nb"), ("nc",)]
FNAMES = ["a", "b", "count", "type", "match", "x1", "self_", "value", "Mixed", "ref", "data", "in", "p", "q2", "zz"]
RSN = {"type": "type_", "match": "match_", "ref": "ref_", "in": "in_"}


class Scal:
    def __init__(self, cpp, rs, signed, bits, wrap=None, kind=None):
        self.cpp, self.rs, self.signed, self.bits, self.wrap = cpp, rs, signed, bits, wrap
        self.kind = kind or cpp

    def val(self, rng):
        return rng_int(rng, self.signed, self.bits)

    def cpp_lit(self, v):
        return "(%s)%s" % (self.cpp, cpp_int(v, self.signed, self.bits))

    def rs_lit(self, v):
        s = "%d" % v
        return s if not self.wrap else "autocxx::%s(%s)" % (self.wrap, s)

    def cpp_log(self, e):
        return ".i((long long)%s)" % e if self.signed else ".u((unsigned long long)%s)" % e

    def rs_log(self, e):
        return "format!(\"{}\", %s%s)" % (e, ".0" if self.wrap else "")

    def dig(self, v):
        return str(v)

    def leaves(self, pre, v):
        return [(pre, self, v)]


class Bool(Scal):
    def __init__(self):
        super().__init__("bool", "bool", False, 1)

    def val(self, rng):
        return rng.randint(0, 1)

    def cpp_lit(self, v):
        return "true" if v else "false"
    rs_lit = cpp_lit

    def rs_log(self, e):
        return "format!(\"{}\", %s as u8)" % e


class Flt(Scal):
    def __init__(self, d):
        self.d = d
        super().__init__("double" if d else "float", "f64" if d else "f32", True, 64 if d else 32)

    def val(self, rng):
        return rng.choice([0.0, -0.0, 1.5, -2.25, 1e30, 3.0e-30, rng.randint(-9999, 9999) / 8.0])

    def cpp_lit(self, v):
        return ("vf_f64(0x%xULL)" % f64bits(v)) if self.d else "vf_f32(0x%xU)" % f32bits(v)

    def rs_lit(self, v):
        return ("f64::from_bits(0x%x)" % f64bits(v)) if self.d else "f32::from_bits(0x%x)" % f32bits(v)

    def cpp_log(self, e):
        return ".d(%s)" % e if self.d else ".f(%s)" % e

    def rs_log(self, e):
        return "vf::d(%s)" % e if self.d else "vf::f(%s)" % e

    def dig(self, v):
        return "d%016x" % f64bits(v) if self.d else "f%08x" % f32bits(v)


class Ptr(Scal):
    def __init__(self, const):
        self.const = const
        super().__init__(("const " if const else "") + "uint32_t*", "*const u32" if const else "*mut u32", False, 48)

    def cpp_lit(self, v):
        return "(%s)%dULL" % (self.cpp, v)

    def rs_lit(self, v):
        return "(%dusize as %s)" % (v, self.rs)

    def cpp_log(self, e):
        return ".u((unsigned long long)(uintptr_t)%s)" % e

    def rs_log(self, e):
        return "format!(\"{}\", %s as usize)" % e


class EnumF(Scal):
    def __init__(self, en):
        self.en = en
        self.cpp, self.kind = "::" + en.qual, "enum:" + en.under

    def val(self, rng):
        return rng.randrange(len(en_vals(self.en)))

    def cpp_lit(self, i):
        return "::" + q(self.en.ns, "%s::%s" % (self.en.name, self.en.vals[i][0]))

    def rs_lit(self, i):
        return "ffi::%s::%s" % (self.en.qual, self.en.vals[i][0])

    def cpp_log(self, e):
        return ".i((long long)%s)" % e if self.en.signed else ".u((unsigned long long)%s)" % e

    def rs_log(self, e):
        return "format!(\"{}\", unsafe { std::ptr::read(std::ptr::addr_of!(%s)) } as %s)" % (e, "i64" if self.en.signed else "u64")

    def dig(self, i):
        return str(self.en.vals[i][1])


def en_vals(e):
    return e.vals


class Enum:
    UND = [("int", True, 32), ("unsigned int", False, 32), ("int8_t", True, 8), ("uint8_t", False, 8), ("int16_t", True, 16), ("uint16_t", False, 16),
           ("int64_t", True, 64), ("uint64_t", False, 64), ("", None, 32)]

    def __init__(self, rng, ns, name):
        self.ns, self.name, self.qual = ns, name, q(ns, name)
        self.under, s, b = rng.choice(self.UND)
        self.cls = rng.random() < .5
        self.bits = b
        n = rng.randint(1, 9)
        vs = set()
        while len(vs) < n:
            if s is None:
                vs.add(rng.randint(-2 ** 31, 2 ** 31 - 1) if rng.random() < .7 else rng.randint(0, 20))
            else:
                vs.add(rng_int(rng, s, b))
            if len(vs) >= 2 ** b:
                break
        vs = list(vs)
        rng.shuffle(vs)
        if s is None:
            if not self.cls and min(vs) >= 0:
                s = False      # bindgen/C++ pick an unsigned underlying type for unscoped enums without negative values
            else:
                s = True
        self.signed = s
        self.vals = [("%s_K%d" % (name, i) if rng.random() < .7 else "%sX%d" % (name, i), v) for i, v in enumerate(vs)]

    def decl(self):
        return "enum %s%s%s { %s };" % ("class " if self.cls else "", self.name, " : " + self.under if self.under else "",
                                        ", ".join("%s = %s" % (n, cpp_int(v, self.signed, self.bits)) for n, v in self.vals))


class Arr:
    def __init__(self, el, n):
        self.el, self.n = el, n
        self.kind = "%s[%d]" % (el.kind, n)

    def val(self, rng):
        return [self.el.val(rng) for _ in range(self.n)]

    def leaves(self, pre, v):
        return [x for i in range(self.n) for x in self.el.leaves("%s[%d]" % (pre, i), v[i])]

    def rs_lit(self, v):
        return "[%s]" % ", ".join(self.el.rs_lit(x) for x in v)

    def decl(self, name):
        e, dims = self, ""
        while isinstance(e, Arr):
            dims += "[%d]" % e.n
            e = e.el
        return "%s %s%s" % (e.cpp, name, dims)


class Pod:
    def __init__(self, rng, ns, name, prev, enums, scal):
        self.ns, self.name, self.qual = ns, name, q(ns, name)
        self.cpp = "::" + self.qual
        self.kind = "pod"
        prev = [p for p in prev if not p.attr]   # bindgen makes fields/bases of over-aligned types opaque, so they are not POD
        bases = [p for p in prev if p.pure]      # see KNOWN: tail padding reuse
        self.base = rng.choice(bases) if bases and rng.random() < .3 else None
        self.attr = ""
        self.packed = False
        k = rng.random()
        self.fields = []
        names = rng.sample(FNAMES, rng.choice([1, 2, 3, 4, 6, 9]))
        if self.base:
            names = [n for n in names if n not in self.base.allnames()] or ["uniq_" + name.lower()]
        for n in names:
            r = rng.random()
            if r < .55:
                t = rng.choice(scal)
            elif r < .65 and enums:
                t = EnumF(rng.choice(enums))
            elif r < .8 and prev:
                t = rng.choice([p for p in prev])
            else:
                t = Arr(rng.choice(scal), rng.choice([1, 2, 3, 5, 17]))
                if rng.random() < .3:
                    t = Arr(t, 2)
            self.fields.append((n, t))
        if k < .1 and not self.base:
            self.attr = "alignas(%d) " % rng.choice([16, 32, 64])
        self.cls = rng.random() < .2
        self.pure = not self.base and all(t.pure if isinstance(t, Pod) else not isinstance(t, Arr) or not isinstance(t.el, Pod) for _, t in self.fields)

    def allnames(self):
        return [n for n, _ in self.fields] + (self.base.allnames() if self.base else [])

    def decl(self):
        fs = " ".join((t.decl(n) if isinstance(t, Arr) else "%s %s" % (t.cpp, n)) + ";" for n, t in self.fields)
        kw = "class" if self.cls else "struct"
        return "%s %s%s%s { %s%s };" % (kw, self.attr, self.name, " : public %s" % self.base.cpp if self.base else "", "public: " if self.cls else "", fs)

    def val(self, rng):
        d = {n: t.val(rng) for n, t in self.fields}
        if self.base:
            d["__base"] = self.base.val(rng)
        return d

    def leaves(self, pre, v):
        """(cpp path, rs path) pairs packed as a tuple in the path slot"""
        out = []
        if self.base:
            for p, t, x in self.base.leaves(pre, v["__base"]):
                out.append((p[:len(pre)] + "\0B" + p[len(pre):], t, x))
        for n, t in self.fields:
            out += t.leaves("%s.%s" % (pre, n), v[n])
        return out


def cpp_path(p):
    return p.replace("\0B", "")


def rs_path(p):
    p = p.replace("\0B", "._base")
    return ".".join(RSN.get(re.sub(r"\[.*", "", s), re.sub(r"\[.*", "", s)) + ("[" + s.split("[", 1)[1] if "[" in s else "") for s in p.split("."))


OPAQUES = [
    ("virt", "class {n} {{ public: virtual ~{n}() {{}} virtual int f() {{ return 1; }} int a; }};"),
    ("empty", "class {n} {{ public: {n}() {{}} }};"),
    ("str", "struct {n} {{ uint8_t a; std::string s; uint16_t b; }};"),
    ("vec", "struct {n} {{ uint8_t a; std::vector<uint32_t> s; std::vector<{n}*> t; uint16_t b; }};"),
    ("sptr", "struct {n} {{ std::shared_ptr<uint32_t> s; uint8_t c; std::weak_ptr<uint32_t> w; }};"),
    ("uptr", "struct {n} {{ uint8_t c; std::unique_ptr<uint32_t> w; uint8_t d; }};"),
    ("align", "struct alignas(64) {n} {{ uint8_t c; std::string s; }};"),
    ("bits", "struct {n} {{ unsigned a : 3; unsigned b : 17; unsigned long long c : 40; std::string s; }};"),
    ("union", "struct {n} {{ union {{ uint8_t a; uint64_t b; float c; }}; uint8_t t; {n}() {{}} ~{n}() {{}} }};"),
    ("fptr", "struct {n} {{ void (*cb)(int); uint8_t c; ~{n}() {{}} }};"),
    ("arr", "struct {n} {{ uint16_t a[7]; std::string s; uint8_t b[3]; }};"),
    ("priv", "class {n} {{ public: {n}() {{}} ~{n}() {{}} private: uint64_t a; uint8_t b; protected: uint16_t c; }};"),
    ("base", "struct {n}B {{ virtual void g() {{}} uint64_t x; }}; struct {n} : public {n}B {{ uint8_t y; ~{n}() {{}} }};"),
    ("mbase", "struct {n}B {{ virtual void g() {{}} uint8_t x; }}; struct {n}C {{ uint64_t q; uint8_t z; }}; struct {n} : public {n}B, public {n}C {{ uint8_t y; }};"),
    ("ebase", "struct {n}B {{ }}; struct {n} : public {n}B {{ uint16_t y; ~{n}() {{}} }};"),
    ("vbase", "struct {n}B {{ uint64_t q; }}; struct {n} : public virtual {n}B {{ uint8_t y; }};"),
    ("nest", "struct {n} {{ struct In {{ uint8_t a; uint32_t b; }}; In i; In j[2]; std::string s; }};"),
    ("tmpl", "template <typename T> struct {n}T {{ T a; uint8_t b; }}; struct {n} {{ {n}T<uint64_t> x; {n}T<uint16_t> y; ~{n}() {{}} }};"),
    ("ld", "struct {n} {{ uint8_t a; long double b; ~{n}() {{}} }};"),
    ("optf", "struct {n} {{ std::array<uint16_t, 5> m; uint8_t c; ~{n}() {{}} }};"),
    ("func", "struct {n} {{ std::function<void()> m; uint8_t c; }};"),
    ("ref", "struct {n} {{ {n}(uint32_t& x) : r(x) {{}} uint32_t& r; uint8_t c; ~{n}() {{}} }};"),
    ("wch", "struct {n} {{ wchar_t a; char16_t b; char32_t c; bool d; ~{n}() {{}} }};"),
    ("big", "struct {n} {{ uint8_t a[5000]; uint16_t b; ~{n}() {{}} }};"),
    ("packed", "#pragma pack(push, 1)\nstruct {n} {{ uint8_t a; uint32_t b; uint16_t c; ~{n}() {{}} }};\n#pragma pack(pop)"),
    ("pair", "struct {n} {{ std::pair<uint8_t, uint32_t> p; uint8_t c; ~{n}() {{}} }};"),
    ("vb", "struct {n} {{ std::vector<bool> p; uint8_t c; }};"),
    ("pods", "struct {n}P {{ uint8_t a; double b; }}; struct {n} {{ uint8_t a; {n}P p[3]; std::string s; }};"),
    ("enumf", "struct {n} {{ enum class K : uint8_t {{ A, B }}; K k; uint32_t u; ~{n}() {{}} }};"),
    ("mutable", "struct {n} {{ mutable uint32_t a; volatile uint8_t b; static uint64_t s; ~{n}() {{}} }};"),
]


def make(rng, name):
    scal = [Scal(c, r, s, b, None, c) for c, r, s, b, w in INT_TYPES] + [Bool(), Flt(0), Flt(1), Ptr(True), Ptr(False)]
    enums = [Enum(rng, rng.choice(NSS), "E%d" % i) for i in range(4)]
    pods = []
    for i in range(6):
        pods.append(Pod(rng, rng.choice(NSS), "P%d" % i, pods[:], enums, scal))
    ops = [(k, rng.choice(NSS), "O%d" % i, d) for i, (k, d) in enumerate(rng.sample(OPAQUES, 9))]
    hdr = HDR + "#include <map>\n#include <array>\n#include <functional>\n#include <utility>\n"
    cpp = RT_CPP
    dirs, body, exp, sigs = [], [], [], []
    # Expectations come in pairs: "Z" lines from C++ give the reference, Rust's own lines must match
    for e in enums:
        hdr += wrap_ns(e.ns, e.decl() + "\nint64_t id_%s(%s x); %s mk_%s(int64_t i);" % (e.name.lower(), e.name, e.name, e.name.lower()))
        dirs += ['generate!("%s")' % x for x in (e.qual, q(e.ns, "id_" + e.name.lower()), q(e.ns, "mk_" + e.name.lower()))]
        E = "::" + e.qual
        cpp += "int64_t %s(%s x) { VfL(\"V %s\")%s; switch (x) { %s default: return -1; } }\n" % (q(e.ns, "id_" + e.name.lower()), E, e.name, EnumF(e).cpp_log("x"), " ".join("case %s::%s: return %d;" % (E, n, i) for i, (n, v) in enumerate(e.vals)))
        cpp += "%s %s(int64_t i) { static const %s t[] = { %s }; return t[i]; }\n" % (E, q(e.ns, "mk_" + e.name.lower()), E, ", ".join("%s::%s" % (E, n) for n, v in e.vals))
        for i, (n, v) in enumerate(e.vals):
            body.append('ev(format!("E {} {}", ffi::%s(ffi::%s::%s), ffi::%s::%s as %s));' % (q(e.ns, "id_" + e.name.lower()), e.qual, n, e.qual, n, "i64" if e.signed else "u64"))
            exp += ["V %s %d" % (e.name, v), "E %d %d" % (i, v)]
            body.append('ev(format!("M {}", ffi::%s(%d) as %s));' % (q(e.ns, "mk_" + e.name.lower()), i, "i64" if e.signed else "u64"))
            exp.append("M %d" % v)
        body.append('ev(format!("ZE %s {}", std::mem::size_of::<ffi::%s>()));' % (e.name, e.qual))
        exp.append(("SIZE", E, "ZE %s" % e.name))
        sigs.append("enum %s %s %d" % ("class" if e.cls else "plain", e.under, len(e.vals)))
    for p in pods:
        l = p.name.lower()
        n = lambda x: q(p.ns, x + l)
        hdr += wrap_ns(p.ns, p.decl() + "\n%s get_%s(); void show_%s(const %s& x); void fill_%s(%s& x); void byval_%s(%s x); void byptr_%s(const %s* x);" % ((p.name, l, l, p.name, l, p.name, l, p.name, l, p.name)))
        dirs += ['generate_pod!("%s")' % p.qual] + ['generate!("%s")' % n(x) for x in ("get_", "show_", "fill_", "byval_", "byptr_")]
        v1, v2, v3 = p.val(rng), p.val(rng), p.val(rng)
        L = lambda v: [x for x in p.leaves("x", v)]
        log = "".join(t.cpp_log(cpp_path(pa)) for pa, t, _ in L(v1))
        cpp += "void %s(const %s& x) { VfL(\"S %s\")%s; }\nvoid %s(%s x) { VfL(\"B %s\")%s; }\nvoid %s(const %s* y) { const %s& x = *y; VfL(\"Q %s\")%s; }\n" % (n("show_"), p.cpp, p.name, log, n("byval_"), p.cpp, p.name, log, n("byptr_"), p.cpp, p.cpp, p.name, log)
        cpp += "void %s(%s& x) { %s }\n" % (n("fill_"), p.cpp, " ".join("%s = %s;" % (cpp_path(pa), t.cpp_lit(x)) for pa, t, x in L(v2)))
        cpp += "%s %s() { %s x{}; %s return x; }\n" % (p.cpp, n("get_"), p.cpp, " ".join("%s = %s;" % (cpp_path(pa), t.cpp_lit(x)) for pa, t, x in L(v1)))
        dg = lambda v: " ".join(t.dig(x) for _, t, x in L(v))
        rlog = lambda tag: 'ev(format!("%s %s %s", %s));' % (tag, p.name, " ".join("{}" for _ in L(v1)), ", ".join(t.rs_log(rs_path(pa)) for pa, t, _ in L(v1)))
        R = "ffi::" + p.qual
        body.append("{ let mut x = ffi::%s();" % n("get_"))
        body.append(rlog("G"))
        exp.append("G %s %s" % (p.name, dg(v1)))
        body.append("ffi::%s(std::pin::Pin::new(&mut x));" % n("fill_"))
        body.append(rlog("H"))
        exp.append("H %s %s" % (p.name, dg(v2)))
        # Rust writes every field, C++ reads it
        order = L(v3)
        rng.shuffle(order)
        for pa, t, x in order:
            body.append("%s = %s;" % (rs_path(pa), t.rs_lit(x)))
        body.append("ffi::%s(&x);" % n("show_"))
        body.append("unsafe { ffi::%s(&x) };" % n("byptr_"))
        body.append("ffi::%s(x); }" % n("byval_"))
        exp += ["S %s %s" % (p.name, dg(v3)), "Q %s %s" % (p.name, dg(v3)), "B %s %s" % (p.name, dg(v3))]
        body.append('ev(format!("ZP %s {} {}%s", std::mem::size_of::<%s>(), std::mem::align_of::<%s>()%s));' % (
            p.name, " {}" * len(p.fields), R, R, "".join(", std::mem::offset_of!(%s, %s)" % (R, RSN.get(f, f)) for f, _ in p.fields)))
        exp.append(("POD", p.cpp, "ZP %s" % p.name, [f for f, _ in p.fields]))
        sigs.append("pod " + (p.attr or "") + ("derived " if p.base else "") + " ".join(t.kind for _, t in p.fields))
    for k, ns, nm, d in ops:
        hdr += wrap_ns(ns, d.format(n=nm))
        dirs.append('generate!("%s")' % q(ns, nm))
        R = "ffi::" + q(ns, nm)
        body.append('ev(format!("ZO %s {} {}", std::mem::size_of::<%s>(), std::mem::align_of::<%s>()));' % (nm, R, R))
        exp.append(("OPQ", "::" + q(ns, nm), "ZO %s" % nm))
        sigs.append("opaque " + k)
    # constants
    consts = []
    for i in range(12):
        c, r, s, b, w = rng.choice([t for t in INT_TYPES if t[0] not in ("char",)])
        v = rng_int(rng, s, b)
        ns = rng.choice(NSS)
        form = rng.choice(["const %s K%d = %s;", "constexpr %s K%d = %s;", "static constexpr %s K%d = %s;"])
        hdr += wrap_ns(ns, form % (c, i, cpp_int(v, s, b) if b == 64 else "(%s)%s" % (c, cpp_int(v, s, b))))
        consts.append((ns, "K%d" % i, v, form.split(" %s")[0] + " " + c))
    for i in range(6):
        v = rng.choice([0, 1, rng.randrange(1 << 31), rng.randrange(1 << 40), 0xffffffff, -rng.randrange(1 << 31)])
        txt = rng.choice(["%d" % v, "(%d)" % v] + (["0x%x" % v] if v >= 0 else []))
        hdr += "#define D%d %s\n" % (i, txt)
        consts.append(((), "D%d" % i, v, "define"))
    cn = "enum"
    for ns, nme, v, lab in consts:
        dirs.append('generate!("%s")' % q(ns, nme))
        body.append('ev(format!("K %s {}", ffi::%s));' % (nme, q(ns, nme)))
        exp.append("K %s %d" % (nme, v))
        sigs.append("const " + lab)
    # the C++ references
    cpp += "extern \"C\" void vf_ref() {\n"
    for e in exp:
        if isinstance(e, tuple):
            if e[0] == "SIZE":
                cpp += ' VfL("#R %s").u(sizeof(%s));\n' % (e[2], e[1])
            elif e[0] == "OPQ":
                cpp += ' VfL("#R %s").u(sizeof(%s)).u(alignof(%s));\n' % (e[2], e[1], e[1])
            else:
                cpp += ' VfL("#R %s").u(sizeof(%s)).u(alignof(%s))%s;\n' % (e[2], e[1], e[1], "".join(".u(__builtin_offsetof(%s, %s))" % (e[1], f) for f in e[3]))
    cpp += "}\n"
    main = RS_ALLOW + "use autocxx::prelude::*;\ninclude_cpp! {\n#include \"input.h\"\n%s\nsafety!(unsafe_ffi)\n}\n%s\nextern \"C\" { fn vf_ref(); }\nfn main() { unsafe { vf_ref() };\n%s\n}\n" % (
        "\n".join(dirs), RT_RS, "\n".join(body))
    return Case(name, hdr, main, cpp, clang_args=[rng.choice(["-std=c++14", "-std=c++17"])]), exp, sigs


# Inputs on which the layout is known to be wrong on the unchanged tree (known-findings.txt); each is judged on its own,
# so any other wrong layout is still a violation.
KNOWN = [
    ("string-array-field", "#include <string>\nstruct X { uint16_t a[7]; std::string s[3]; };", "generate"),
    ("map-field", "#include <map>\nstruct X { std::map<int, int> m; uint8_t c; };", "generate"),
    ("tail-padding-polymorphic-base", "struct XB { virtual void g() {} uint8_t x; }; struct X : public XB { uint8_t y; ~X() {} };", "generate"),
    ("tail-padding-pod-derived-twice", "struct XA { uint32_t x; uint8_t c; }; struct XB : public XA { uint8_t d; }; struct X : public XB { uint8_t e; };", "generate_pod"),
    ("tail-padding-pod-base-with-ctor", "struct XB { XB() {} uint32_t x; uint8_t c; }; struct X : public XB { uint8_t d; };", "generate_pod"),
]


def known_case(ck, T, sig, decl, how):
    hdr = "#pragma once\n#include <cstdint>\n#include <cstddef>\n" + decl + "\nsize_t szx();\n"
    main = RS_ALLOW + "use autocxx::prelude::*;\ninclude_cpp! {\n#include \"input.h\"\n%s!(\"X\")\ngenerate!(\"szx\")\nsafety!(unsafe_ffi)\n}\n%s\nfn main() { ev(format!(\"{}\", ffi::szx() == std::mem::size_of::<ffi::X>())); }\n" % (how, RT_RS)
    case = Case("c05_" + sig, hdr, main, RT_CPP + "size_t szx() { return sizeof(X); }\n")
    o = run_case(T, case)
    if o.stage == "run" and o.trace == ["true"] and o.ok:
        ck.evaluated("fixed " + sig)
    elif o.stage == "run" and o.trace == ["false"]:
        ck.violation(sig, "Rust size of X differs from C++: " + decl, src=case.dir)
    else:
        judge_trace(ck, case, o, ["true"], "known-" + sig)
    cleanup(case)


def main():
    ck = Check("C05")
    T = build_repo()
    ck.rule = ("one evaluation = one type/enum/constant whose size, alignment, offsets and field values as seen from Rust were compared with what C++ reported "
               "in the same process; distinct = distinct declaration shapes")
    n = 20 if ck.quick else 200

    def one(i):
        rng = ck.rng("prog", i)
        case, exp, sigs = make(rng, "c05_%d" % i)
        o = run_case(T, case)
        if o.stage == "run":
            ref = {}
            for l in o.trace:
                if l.startswith("#R "):
                    w = l.split(" ")
                    ref[" ".join(w[1:3])] = " ".join(w[1:])
            exp2 = [ref.get(e[2], e[2] + " <no reference>") if isinstance(e, tuple) else e for e in exp]
            o.trace = [l for l in o.trace if not l.startswith("#R ")]
        else:
            exp2 = []
        ok = judge_trace(ck, case, o, exp2, "prog%d" % i)
        for s in sigs:
            ck.evaluated(s)
            ck.saw("kinds", s.split(" ")[0])
        ck.count("programs")
        ck.count("values_checked", len(exp))
        if ok and i < 2:
            ck.sample({"shapes": sigs[:8], "events": exp2[:6]})
        cleanup(case)

    for r in pmap(lambda k: known_case(ck, T, *k), KNOWN) + pmap(one, range(n)):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=100)
