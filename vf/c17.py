"""C17: strings, smart pointers and vectors across the boundary.

Random ownership histories over real bindings: values are made in Rust and in C++, passed by value, reference and inside
unique_ptr / shared_ptr / weak_ptr / vector, stored in C++ slots, taken back, cloned, mutated from both sides and dropped.
Both sides log the content they see (as byte digests), null-ness and use_count; the model predicts the whole history;
tracked payloads, AddressSanitizer and LeakSanitizer watch ownership."""
from .core import *
from .lib import *
from .types import wrap_ns, q
from .track import TRACK_RT, TRACK_RS, TrTy

NSS = [(), ("na",), ("na", "nb")]
NSLOT = 3


# ------------------------------------------------------------------ payloads
class Pay:
    """A payload type. Values are Python objects with value semantics; table entry k is the value C++ makes for index k."""
    trivial = up = vec = True
    mutable = True
    events = False

    def make_ev(self, v):
        return []


class PStr(Pay):
    tag, cpp, rs = "s", "std::string", "cxx::CxxString"
    trivial = False

    def __init__(self, rng):
        self.table = [rng_str(rng).encode() if rng.random() < .6 else bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 15, 16, 31, 32, 200, 5000 if rng.random() < .3 else 3]))) for _ in range(8)]

    def cpp_table(self):
        return "static const std::string tab_s[] = { %s };\nstatic std::string mk_s(uint32_t k) { return tab_s[k]; }\nstatic void mut_s(std::string& x) { x.push_back('\\0'); x += \"!\\xff\"; x.insert(0, \"<\"); }\n" % ", ".join(cpp_str(b) for b in self.table)

    def cdig(self, e):
        return ".h(%s)" % e

    def rdig(self, e):
        return "vf::hex((%s).as_bytes())" % e

    def dig(self, v):
        return hexs(v)

    def cmut(self, v):
        return b"<" + v + b"\0!\xff"

    def rmut(self, rng, pin, v):
        k = rng.randrange(4)
        if k == 0:
            s = rng_str(rng)
            return "%s.push_str(%s);" % (pin, rs_str(s)), v + s.encode()
        if k == 1:
            b = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 16, 40])))
            return "%s.push_bytes(&[%s]);" % (pin, ", ".join(map(str, b))), v + b
        if k == 2:
            return "%s.clear();" % pin, b""
        n = rng.choice([0, 1, 15, 64, 4096])
        return "%s.reserve(%d);" % (pin, n), v


class PPod(Pay):
    tag = "p"

    def __init__(self, rng, ns):
        self.ns, self.name = ns, "Pd"
        self.cpp, self.rs = "::" + q(ns, "Pd"), "ffi::" + q(ns, "Pd")
        self.table = [(rng_int(rng, False, 32), rng_int(rng, False, 8), rng_int(rng, True, 64)) for _ in range(8)]

    def decl(self):
        return "struct Pd { uint32_t a; uint8_t b; int64_t c; };"

    def cpp_table(self):
        return "static const %s tab_p[] = { %s };\nstatic %s mk_p(uint32_t k) { return tab_p[k]; }\nstatic void mut_p(%s& x) { x.a += 1; x.b ^= 0x80; x.c = ~x.c; }\n" % (
            self.cpp, ", ".join("{%d, %d, %s}" % (a, b, cpp_int(c, True, 64)) for a, b, c in self.table), self.cpp, self.cpp)

    def cdig(self, e):
        return ".u(%s.a).u(%s.b).i(%s.c)" % (e, e, e)

    def rdig(self, e):
        return "{ let x = &*(%s); format!(\"{} {} {}\", x.a, x.b, x.c) }" % e

    def dig(self, v):
        return "%d %d %d" % v

    def cmut(self, v):
        return ((v[0] + 1) % 2**32, v[1] ^ 0x80, ~v[2])

    def rmut(self, rng, pin, v):
        n = rng_int(rng, False, 32)
        return "{ let mut m = %s; m.a = %d; m.b ^= 1; }" % (pin, n), (n, v[1] ^ 1, v[2])

    def rs_lit(self, v):
        return "%s { a: %d, b: %d, c: %d }" % (self.rs, *v)

    def rand(self, rng):
        return (rng_int(rng, False, 32), rng_int(rng, False, 8), rng_int(rng, True, 64))


class PInt(Pay):
    up = False

    def __init__(self, rng):
        self.cpp, self.rs, self.sg, self.bits = rng.choice([("uint8_t", "u8", False, 8), ("int8_t", "i8", True, 8), ("uint16_t", "u16", False, 16), ("int16_t", "i16", True, 16),
                                                            ("uint32_t", "u32", False, 32), ("int32_t", "i32", True, 32), ("uint64_t", "u64", False, 64), ("int64_t", "i64", True, 64), ("size_t", "usize", False, 64)])
        self.tag = "i"
        self.table = [rng_int(rng, self.sg, self.bits) for _ in range(8)]

    def cpp_table(self):
        return "static const %s tab_i[] = { %s };\nstatic %s mk_i(uint32_t k) { return tab_i[k]; }\nstatic void mut_i(%s& x) { x = (%s)~x; }\n" % (
            self.cpp, ", ".join("(%s)%s" % (self.cpp, cpp_int(v, self.sg, self.bits)) for v in self.table), self.cpp, self.cpp, self.cpp)

    def cdig(self, e):
        return (".i((long long)%s)" if self.sg else ".u((unsigned long long)%s)") % e

    def rdig(self, e):
        return "(*(%s)).to_string()" % e

    def dig(self, v):
        return str(v)

    def cmut(self, v):
        return ~v if self.sg else (1 << self.bits) - 1 - v

    def rmut(self, rng, pin, v):
        n = rng_int(rng, self.sg, self.bits)
        return "{ *Pin::into_inner(%s) = %s; }" % (pin, self.rs_lit(n)), n

    def rs_lit(self, v):
        return "(%d as %s)" % (v, self.rs)

    def rand(self, rng):
        return rng_int(rng, self.sg, self.bits)


class PDbl(Pay):
    up = False
    tag, cpp, rs = "d", "double", "f64"

    def __init__(self, rng):
        self.table = [rng.choice([0, 1 << 63, 0x3ff0000000000000, 0x7ff0000000000000, 0x7ff8000000001234, 0x1, rng.getrandbits(52)]) for _ in range(8)]

    def cpp_table(self):
        return "static double mk_d(uint32_t k) { static const uint64_t t[] = { %s }; return vf_f64(t[k]); }\nstatic void mut_d(double& x) { x = -x; }\n" % ", ".join("%dULL" % v for v in self.table)

    def cdig(self, e):
        return ".d(%s)" % e

    def rdig(self, e):
        return "vf::d(*(%s))" % e

    def dig(self, v):
        return "d%016x" % v

    def cmut(self, v):
        return v ^ (1 << 63)

    def rmut(self, rng, pin, v):
        n = self.rand(rng)
        return "{ *Pin::into_inner(%s) = %s; }" % (pin, self.rs_lit(n)), n

    def rs_lit(self, v):
        return "f64::from_bits(%d)" % v

    def rand(self, rng):
        return rng.getrandbits(62)


class PEnum(Pay):
    mutable = False

    def __init__(self, rng, ns):
        self.ns, self.name, self.tag = ns, "En", "e"
        self.base = rng.choice(["uint8_t", "uint16_t", "uint32_t", "uint64_t"])
        self.cpp, self.rs = "::" + q(ns, "En"), "ffi::" + q(ns, "En")
        self.table = [rng.randrange(4) for _ in range(8)]
        self.vals = {"uint8_t": [0, 1, 77, 255], "uint16_t": [0, 3, 400, 65535]}.get(self.base, [0, 3, 70000, 4000000000])

    def decl(self):
        return "enum class En : %s { V0 = %d, V1 = %d, V2 = %d, V3 = %dU };" % (self.base, *self.vals)

    def cpp_table(self):
        return "static const %s tab_e[] = { %s };\nstatic %s mk_e(uint32_t k) { return tab_e[k]; }\nstatic void mut_e(%s& x) { x = x == %s::V0 ? %s::V3 : %s::V0; }\n" % (
            self.cpp, ", ".join("%s::V%d" % (self.cpp, v) for v in self.table), self.cpp, self.cpp, self.cpp, self.cpp, self.cpp)

    def cdig(self, e):
        return ".u((unsigned long long)%s)" % e

    def rdig(self, e):
        return "format!(\"{:?}\", match *(%s) { %s })" % (e, ", ".join("%s::V%d => %du64" % (self.rs, i, v) for i, v in enumerate(self.vals)))

    def dig(self, v):
        return str(self.vals[v])

    def cmut(self, v):
        return 3 if v == 0 else 0

    def rmut(self, rng, pin, v):
        n = rng.randrange(4)
        return "{ *Pin::into_inner(%s) = %s; }" % (pin, self.rs_lit(n)), n

    def rs_lit(self, v):
        return "%s::V%d" % (self.rs, v)

    def rand(self, rng):
        return rng.randrange(4)


class PTrk(Pay):
    trivial = False

    def __init__(self, rng, ns):
        self.tag = "t"
        self.t = TrTy(ns, "Tk", rng.choice(["cm", "cm", "c", "m", "virt", "vec", "big", "implicit", "implicit_base"]), opnew=rng.random() < .3 )
        self.cpp, self.rs, self.ns = self.t.cpp, self.t.rs, ns
        self.table = [10 + i for i in range(8)]
        self.copy = self.t.copy

    def decl(self):
        return self.t.decl()

    def cpp_table(self):
        return "static uint32_t mk_t_n(uint32_t k) { return 10 + k; }\nstatic %s mk_t(uint32_t k) { return %s(mk_t_n(k)); }\nstatic void mut_t(%s& x) { x.set(x.get() + 1000); }\n" % (self.cpp, self.cpp, self.cpp)

    def cdig(self, e):
        return ".u(%s.get())" % e

    def rdig(self, e):
        return "(%s).get().to_string()" % e

    def dig(self, v):
        return str(v)

    def cmut(self, v):
        return v + 1000

    def rmut(self, rng, pin, v):
        n = rng.randrange(1, 100000)
        return "%s.set(%d);" % (pin, n), n

    def make_ev(self, v):
        return [self.t.new_event(v)]


class PAbs(Pay):
    """Abstract class; C++ makes objects of a derived class it alone knows."""
    trivial = vec = False
    tag = "a"

    def __init__(self, rng, ns):
        self.ns, self.cpp, self.rs = ns, "::" + q(ns, "Ab"), "ffi::" + q(ns, "Ab")
        self.table = [500 + i for i in range(8)]

    def decl(self):
        return "class Ab { public: virtual ~Ab(); virtual uint32_t get() const = 0; virtual void set(uint32_t v) = 0; };"

    def cpp_table(self):
        return ("%s::~Ab() {}\nclass AbImpl : public %s { public: AbImpl(uint32_t v) : core_(v), h_(new uint32_t(v)) { VfL(\"N AbImpl\").u(v); vf_born(this, \"AbImpl\", 8, sizeof(AbImpl), v); }\n"
                " ~AbImpl() override { vf_dead(this, \"AbImpl\", this); delete h_; } uint32_t get() const override { vf_use(this, \"AbImpl\", this); return *h_; } void set(uint32_t v) override { *h_ = v; vf_set(this, \"AbImpl\", v); }\n"
                " private: uint32_t core_; uint32_t* h_; };\nstatic void mut_a(%s& x) { x.set(x.get() + 1000); }\n") % (q(self.ns, "Ab"), self.cpp, self.cpp)

    cdig = PTrk.cdig
    rdig = PTrk.rdig
    dig = PTrk.dig
    cmut = PTrk.cmut
    rmut = PTrk.rmut

    def make_ev(self, v):
        return ["N AbImpl %d" % v]


# ------------------------------------------------------------------ the C++ API
class Fn:
    def __init__(self, how, ns, name, ret, params, body, const=False):
        self.how, self.ns, self.name, self.ret, self.params, self.body, self.const = how, ns, name, ret, params, body, const

    def decl(self):
        s = "%s %s(%s)" % (self.ret, self.name, ", ".join("%s %s" % p for p in self.params))
        return {"free": s + ";", "static": "static " + s + ";", "method": s + (" const;" if self.const else ";"), "virt": "virtual " + s + (" const;" if self.const else ";")}[self.how]

    def defn(self, hubns):
        qn = q(self.ns, self.name) if self.how == "free" else q(hubns, "Hub::" + self.name)
        return "%s %s(%s)%s { %s }\n" % (self.ret, qn, ", ".join("%s %s" % p for p in self.params), " const" if self.how in ("method", "virt") and self.const else "", self.body)

    def call(self, args):
        a = ", ".join(args)
        if self.how == "free":
            return "ffi::%s(%s)" % (q(self.ns, self.name), a)
        if self.how == "static":
            return "%s::%s(%s)" % ("HUB", self.name, a)
        return "hub.%s%s(%s)" % ("" if self.const else "pin_mut().", self.name, a)


class Obj:
    """A heap object (model): a payload value shared by reference, or a list of values."""

    def __init__(self, v):
        self.v, self.strong = v, 1


class Gen:
    def __init__(self, rng, name):
        self.rng, self.name = rng, name
        self.ns = rng.choice(NSS)
        self.fns, self.body, self.exp, self.sigs = [], [], [], []
        self.nv = 0
        self.pays = [PStr(rng)]
        pool = [PPod(rng, rng.choice(NSS)), PInt(rng), PDbl(rng), PEnum(rng, rng.choice(NSS)), PTrk(rng, rng.choice(NSS)), PAbs(rng, rng.choice(NSS))]
        rng.shuffle(pool)
        self.pays += pool[:4]
        if not any(isinstance(p, (PTrk, PAbs)) for p in self.pays):
            self.pays.append(PTrk(rng, rng.choice(NSS)))
        self.slots, self.vars = {}, {}
        self.kinds = []            # (container, pay)
        for p in self.pays:
            for c in ("up", "sp", "vec", "str"):
                if c == "vec" and not p.vec or c in ("up", "sp") and not p.up or c == "str" and p.tag != "s":
                    continue
                self.kinds.append((c, p))
                self.api(c, p)
        self.f = {f.name: f for f in self.fns}

    # -------- declare functions for one container of one payload
    def api(self, c, p):
        rng, t, g = self.rng, p.cpp, p.tag

        def fn(name, ret, params, body, const=False, hows=("free", "free", "static", "method", "virt")):
            how = rng.choice(hows)
            self.fns.append(Fn(how, rng.choice(NSS), name, ret, params, body, const and rng.random() < .6))
        new = "new ::AbImpl(500 + k)" if g == "a" else "new %s(%s)" % (t, "mk_t_n(k)" if g == "t" else "mk_%s(k)" % g)
        mk_sp = "std::shared_ptr<%s>(%s)" % (t, new) if g in "a" or rng.random() < .5 else "std::make_shared<%s>(%s)" % (t, "mk_t_n(k)" if g == "t" else "mk_%s(k)" % g)
        N = "%s_%s" % (c, g)
        U = "std::unique_ptr<%s>" % t
        D = lambda e, tag: '{ VfL l("C %s"); if (%s) l%s; else l.t("null"); }' % (tag, e, p.cdig("(*%s)" % e))
        if c == "str":
            fn("str_give", "std::string", [("uint32_t", "k")], "return mk_s(k);")
            fn("str_take", "void", [("std::string", "s")], 'VfL("C str_take").h(s);')
            fn("str_two", "std::string", [("std::string", "s"), ("uint32_t", "n"), ("std::string", "t")], 'VfL("C str_two").h(s).u(n).h(t); return s + t;')
            fn("str_pass", "std::string", [("std::string", "s")], 'VfL("C str_pass").h(s); return s;')
            fn("str_cref", "void", [("const std::string&", "s")], 'VfL("C str_cref").h(s);')
            fn("str_mref", "void", [("std::string&", "s")], 'mut_s(s); VfL("C str_mref").h(s);')
            fn("str_back", "const std::string&", [("const std::string&", "s")], "return s;", hows=("free", "static"))
            self.slots["str", g] = [b"", b"", b""]
            fn("str_store", "void", [("uint32_t", "i"), ("std::string", "s")], "slot_str[i] = s;")
            self.fns.append(Fn("method", (), "str_at", "const std::string&", [("uint32_t", "i")], "return slot_str[i];", True))
            self.fns.append(Fn("method", (), "str_at_mut", "std::string&", [("uint32_t", "i")], "return slot_str[i];"))
        elif c == "up":
            self.slots[c, g] = [None] * NSLOT
            sl = "slot_up_%s" % g
            fn(N + "_give", U, [("uint32_t", "k")], "if (k == 99) return nullptr; return %s(%s);" % (U, new))
            fn(N + "_take", "void", [(U, "x")], D("x", N + "_take"))
            fn(N + "_pass", U, [(U, "x")], D("x", N + "_pass") + " return x;")
            fn(N + "_cref", "void", [("const %s&" % U, "x")], D("x", N + "_cref"))
            fn(N + "_mref", "void", [("%s&" % U, "x"), ("uint32_t", "op"), ("uint32_t", "k")], "if (op == 0) x.reset(); else if (op == 1) x.reset(%s); else if (op == 2) std::swap(x, %s[k]); else if (x) mut_%s(*x);" % (new, sl, g))
            fn(N + "_store", "void", [("uint32_t", "i"), (U, "x")], "%s[i] = std::move(x);" % sl)
            fn(N + "_load", U, [("uint32_t", "i")], "return std::move(%s[i]);" % sl)
            self.fns.append(Fn("method", (), N + "_at", "const %s&" % U, [("uint32_t", "i")], "return %s[i];" % sl, True))
        elif c == "sp":
            S, W = "std::shared_ptr<%s>" % t, "std::weak_ptr<%s>" % t
            self.slots[c, g] = [None] * NSLOT
            self.slots["wp", g] = [None] * NSLOT
            sl, wl = "slot_sp_%s" % g, "slot_wp_%s" % g
            L = lambda tag: '{ VfL l("C %s"); l.u(x.use_count()); if (x) l%s; else l.t("null"); }' % (tag, p.cdig("(*x)"))
            M = "wp_" + g
            WL = lambda tag: '{ VfL l("C %s"); l.u(x.use_count()); auto s = x.lock(); if (s) l%s; else l.t("null"); }' % (tag, p.cdig("(*s)"))
            fn(N + "_give", S, [("uint32_t", "k")], "if (k == 99) return nullptr; return %s;" % mk_sp)
            fn(N + "_take", "void", [(S, "x")], L(N + "_take"))
            fn(N + "_pass", S, [(S, "x")], L(N + "_pass") + " return x;")
            fn(N + "_cref", "void", [("const %s&" % S, "x")], L(N + "_cref"))
            fn(N + "_mref", "void", [("%s&" % S, "x"), ("uint32_t", "op"), ("uint32_t", "k")], "if (op == 0) x.reset(); else if (op == 1) x = %s; else if (op == 2) x = %s[k]; else if (x) mut_%s(*x);" % (mk_sp, sl, g))
            fn(N + "_store", "void", [("uint32_t", "i"), (S, "x")], "%s[i] = std::move(x);" % sl)
            fn(N + "_load", S, [("uint32_t", "i")], "return %s[i];" % sl)
            self.fns.append(Fn("method", (), N + "_at", "const %s&" % S, [("uint32_t", "i")], "return %s[i];" % sl, True))
            fn(M + "_of", W, [("uint32_t", "i")], "return %s(%s[i]);" % (W, sl))
            fn(M + "_take", "void", [(W, "x")], WL(M + "_take"))
            fn(M + "_cref", "void", [("const %s&" % W, "x")], WL(M + "_cref"))
            fn(M + "_lock", S, [("const %s&" % W, "x")], "return x.lock();")
            fn(M + "_mref", "void", [("%s&" % W, "x"), ("uint32_t", "op"), ("uint32_t", "k")], "if (op == 0) x.reset(); else x = %s[k];" % sl)
            fn(M + "_store", "void", [("uint32_t", "i"), (W, "x")], "%s[i] = std::move(x);" % wl)
            fn(M + "_load", W, [("uint32_t", "i")], "return %s[i];" % wl)
        else:
            V = "std::vector<%s>" % t
            UV = "std::unique_ptr<%s>" % V
            self.slots[c, g] = [[] for _ in range(NSLOT)]
            sl = "slot_vec_%s" % g
            dl = lambda e: "l.u(%s.size()); for (const auto& y : %s) l%s;" % (e, e, p.cdig("y"))
            L = lambda tag: '{ VfL l("C %s"); %s }' % (tag, dl("x"))
            LP = lambda tag: '{ VfL l("C %s"); if (x) { %s } else l.t("null"); }' % (tag, dl("(*x)"))
            add = "x.emplace_back(mk_t_n(k));" if g == "t" else "x.push_back(mk_%s(k));" % g
            fill = "for (uint32_t j = 0; j < n; j++) { uint32_t k = (s + j * 3) % 8; " + add + " }"
            fn(N + "_give", V, [("uint32_t", "s"), ("uint32_t", "n")], "%s x; %s return x;" % (V, fill))
            fn(N + "_giveup", UV, [("uint32_t", "s"), ("uint32_t", "n")], "if (n == 99) return nullptr; %s r(new %s); { auto& x = *r; %s } return r;" % (UV, V, fill))
            fn(N + "_take", "void", [(V, "x")], L(N + "_take"))
            fn(N + "_takeup", "void", [(UV, "x")], LP(N + "_takeup"))
            fn(N + "_pass", V, [(V, "x")], L(N + "_pass") + " return x;")
            fn(N + "_passup", UV, [(UV, "x")], LP(N + "_passup") + " return x;")
            fn(N + "_cref", "void", [("const %s&" % V, "x")], L(N + "_cref"))
            fn(N + "_mref", "void", [("%s&" % V, "x"), ("uint32_t", "op"), ("uint32_t", "k")],
               "if (op == 0) x.clear(); else if (op == 1) { %s } else if (op == 2) std::swap(x, %s[k]); else if (op == 3) { for (size_t a = 0; a + a + 1 < x.size(); a++) std::swap(x[a], x[x.size() - 1 - a]); } else for (auto& y : x) mut_%s(y);" % (add, sl, g)
               if g != "t" or p.t.variant not in ("c", "m", "cm", "virt", "big", "vec", "implicit", "implicit_base") else
               "if (op == 0) x.clear(); else if (op == 1) { %s } else if (op == 2) std::swap(x, %s[k]); else for (auto& y : x) mut_%s(y);" % (add, sl, g))
            fn(N + "_store", "void", [("uint32_t", "i"), (V, "x")], "%s[i].swap(x);" % sl)
            fn(N + "_load", V, [("uint32_t", "i")], "%s x; x.swap(%s[i]); return x;" % (V, sl))
            self.fns.append(Fn("method", (), N + "_at", "const %s&" % V, [("uint32_t", "i")], "return %s[i];" % sl, True))
            self.fns.append(Fn("method", (), N + "_at_mut", "%s&" % V, [("uint32_t", "i")], "return %s[i];" % sl))

    def header(self):
        hubns = self.hubns = self.rng.choice(NSS)
        out = "#pragma once\n#include <cstdint>\n#include <cstddef>\n#include <string>\n#include <memory>\n#include <vector>\n"
        for p in self.pays:
            if hasattr(p, "decl"):
                out += wrap_ns(p.ns, p.decl()) + "\n"
        hub = ""
        frees = []
        for f in self.fns:
            if f.how == "free":
                frees.append(wrap_ns(f.ns, f.decl()))
            else:
                hub += f.decl() + "\n"
        self.rng.shuffle(frees)
        out += wrap_ns(hubns, "class Hub { public: Hub(); virtual ~Hub(); void clear_all();\n" + hub + "};\n")
        out += "\n".join(frees) + "\n"
        return out

    def cpp(self):
        s = TRACK_RT
        for p in self.pays:
            if isinstance(p, PTrk):
                s += p.t.defs()
            s += p.cpp_table()
        cl = ""
        for (c, g), v in self.slots.items():
            p = [p for p in self.pays if p.tag == g][0]
            ty = {"str": "std::string", "up": "std::unique_ptr<%s>" % p.cpp, "sp": "std::shared_ptr<%s>" % p.cpp, "wp": "std::weak_ptr<%s>" % p.cpp, "vec": "std::vector<%s>" % p.cpp}[c]
            nm = "slot_str" if c == "str" else "slot_%s_%s" % (c, g)
            s += "static %s %s[%d];\n" % (ty, nm, NSLOT)
            cl += "for (auto& x : %s) %s;\n" % (nm, {"str": "x.clear()", "vec": "x.clear()"}.get(c, "x.reset()"))
        h = q(self.hubns, "Hub")
        s += "%s::Hub() {} %s::~Hub() {}\nvoid %s::clear_all() { %s }\n" % (h, h, h, cl)
        for f in self.fns:
            s += f.defn(self.hubns)
        return s

    # ------------------------------------------------------------------ history
    def var(self, kind, v):
        self.nv += 1
        n = "x%d" % self.nv
        self.vars[n] = [kind, v]
        return n

    def pick(self, *kinds):
        c = [n for n, (k, v) in self.vars.items() if k in kinds]
        return self.rng.choice(c) if c else None

    def emit(self, *lines):
        self.body += list(lines)

    def ex(self, *lines):
        self.exp += list(lines)

    def call(self, name, *args):
        self.sig(name)
        return self.f[name].call(list(args)).replace("HUB", "ffi::" + q(self.hubns, "Hub"))

    def sig(self, name):
        f = self.f.get(name)
        self.sigs.append("%s/%s" % (name, f.how) if f else name)

    def dg(self, p, v):
        return p.dig(v) if v is not None else "null"

    def vdig(self, p, l):
        return "%d%s" % (len(l), "".join(" " + p.dig(v) for v in l))

    def step(self):
        c, p = self.rng.choice(self.kinds)
        getattr(self, "step_" + c)(p)

    def mk(self, p):
        k = self.rng.randrange(8)
        return k, p.table[k]

    # strings: variable kind "s": UniquePtr<CxxString>, value bytes
    def str_arg(self):
        """An argument for a by-value std::string."""
        rng = self.rng
        k = rng.randrange(5)
        x = self.pick(("up", "s"))
        if k >= 3 and x and self.vars[x][1] is not None:
            if k == 4:
                v = self.vars.pop(x)[1]
                self.sig("arg:UniquePtr")
                return x, v.v
        s = rng_str(rng)
        self.sig("arg:%d" % min(k, 2))
        return [rs_str(s), "String::from(%s)" % rs_str(s), "&String::from(%s)" % rs_str(s)][min(k, 2)], s.encode()

    def show_str(self, e, v):
        """Log everything Rust can see of the string `e`."""
        self.emit('ev(format!("R {} {} {}", vf::hex(%s.as_bytes()), %s.len(), %s.is_empty()));' % (e, e, e))
        self.ex("R %s %d %s" % (hexs(v), len(v), str(not v).lower()))
        if self.rng.random() < .3:
            self.emit('ev(format!("U {} {}", %s.to_str().is_ok(), vf::hex(%s.to_string_lossy().as_bytes())));' % (e, e))
            try:
                v.decode("utf-8")
                ok = True
            except UnicodeDecodeError:
                ok = False
            if ok:
                self.ex("U true %s" % hexs(v))
            else:
                # Rust and Python agree on the substitution of maximal subparts
                self.ex("U false %s" % hexs(v.decode("utf-8", "replace").encode()))

    def step_str(self, p):
        rng = self.rng
        k = rng.randrange(12)
        if k == 0:
            s = rng_str(rng)
            n = self.var(("up", "s"), Obj(s.encode()))
            self.emit("let mut %s = ffi::make_string(%s);" % (n, rs_str(s)))
            self.sig("make_string")
        elif k == 1:
            i, v = self.mk(p)
            n = self.var(("up", "s"), Obj(v))
            self.emit("let mut %s = %s;" % (n, self.call("str_give", str(i))))
        elif k == 2:
            a, v = self.str_arg()
            self.emit(self.call("str_take", a) + ";")
            self.ex("C str_take " + hexs(v))
        elif k == 3:
            a, v = self.str_arg()
            b, w = self.str_arg()
            n = self.var(("up", "s"), Obj(v + w))
            self.emit("let mut %s = %s;" % (n, self.call("str_two", a, "7", b)))
            self.ex("C str_two %s 7 %s" % (hexs(v), hexs(w)))
        elif k == 4:
            a, v = self.str_arg()
            n = self.var(("up", "s"), Obj(v))
            self.emit("let mut %s = %s;" % (n, self.call("str_pass", a)))
            self.ex("C str_pass " + hexs(v))
        elif k == 5:
            i = rng.randrange(NSLOT)
            a, v = self.str_arg()
            self.slots["str", "s"][i] = v
            self.emit(self.call("str_store", str(i), a) + ";")
        elif k == 6:
            i = rng.randrange(NSLOT)
            self.show_str(self.call("str_at", str(i)), self.slots["str", "s"][i])
        elif k == 7:
            i = rng.randrange(NSLOT)
            s, v = p.rmut(rng, self.call("str_at_mut", str(i)), self.slots["str", "s"][i])
            self.slots["str", "s"][i] = v
            self.emit(s)
        elif k == 8:
            # a stack string
            s = rng_str(rng)
            self.emit("{ cxx::let_cxx_string!(st = %s);" % rs_str(s))
            self.sig("let_cxx_string")
            self.emit(self.call("str_mref", "st.as_mut()") + ";")
            v = p.cmut(s.encode())
            self.ex("C str_mref " + hexs(v))
            self.show_str("st", v)
            self.emit("}")
        elif k == 9:
            # references from other owners
            srcs = [("&*%s" % n, o.v) for n, (kd, o) in self.vars.items() if kd in (("up", "s"),) and o]
            srcs += [("%s.as_ref().unwrap()" % n, o.v) for n, (kd, o) in self.vars.items() if kd == ("sp", "s") and o]
            srcs += [("%s.get(%d).unwrap()" % (n, j), w) for n, (kd, l) in self.vars.items() if kd == ("vec", "s") and l for j, w in enumerate(l.v)]
            f = rng.choice(["str_cref", "str_back"])
            if self.f[f].how in ("free", "static"):
                srcs += [(self.call("str_at", str(j)), w) for j, w in enumerate(self.slots["str", "s"])]
            if not srcs:
                return
            e, v = rng.choice(srcs)
            if f == "str_cref":
                self.emit(self.call(f, e) + ";")
                self.ex("C str_cref " + hexs(v))
            else:
                self.show_str(self.call(f, e), v)
        elif k == 10:
            x = self.pick(("up", "s"))
            if x and self.vars[x][1]:
                o = self.vars[x][1]
                self.emit(self.call("str_mref", "%s.pin_mut()" % x) + ";")
                o.v = p.cmut(o.v)
                self.ex("C str_mref " + hexs(o.v))
        else:
            # null where a value is needed: a clean panic
            f = rng.choice(["str_take", "str_pass"])
            self.emit('ev(if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = %s; })).is_err() { "PANIC" } else { "NOPANIC" });' % self.call(f, "cxx::UniquePtr::null()"))
            self.ex("PANIC")
            self.sig("arg:null")

    def show(self, p, e, v):
        """Log the payload an Option<&T> expression yields."""
        self.emit('ev(match %s { Some(y) => format!("R {}", %s), None => "R null".to_string() });' % (e, p.rdig("y")))
        self.ex("R " + self.dg(p, v))

    def step_up(self, p):
        rng, g = self.rng, p.tag
        kind, N = ("up", g), "up_" + g
        k = rng.randrange(13)
        x = self.pick(kind)
        if k <= 1 or (x is None and k not in (6,)):
            if rng.random() < .15:
                n = self.var(kind, None)
                self.emit("let mut %s = %s;" % (n, rng.choice(["cxx::UniquePtr::<%s>::null()" % p.rs, self.call(N + "_give", "99")])))
                return
            if p.trivial and rng.random() < .3:
                v = p.rand(rng)
                n = self.var(kind, Obj(v))
                self.emit("let mut %s = cxx::UniquePtr::new(%s);" % (n, p.rs_lit(v)))
                self.sig("UniquePtr::new<%s>" % g)
                return
            i, v = self.mk(p)
            n = self.var(kind, Obj(v))
            self.emit("let mut %s = %s;" % (n, self.call(N + "_give", str(i))))
            self.ex(*p.make_ev(v))
            return
        if k == 6 or x is None:
            i = rng.randrange(NSLOT)
            o = self.slots[kind][i]
            self.slots[kind][i] = None
            n = self.var(kind, o)
            self.emit("let mut %s = %s;" % (n, self.call(N + "_load", str(i))))
            return
        o = self.vars[x][1]
        v = o.v if o else None
        if k == 2:
            self.vars.pop(x)
            self.emit(self.call(N + "_take", x) + ";")
            self.ex("C %s_take %s" % (N, self.dg(p, v)))
        elif k == 3:
            self.vars.pop(x)
            n = self.var(kind, o)
            self.emit("let mut %s = %s;" % (n, self.call(N + "_pass", x)))
            self.ex("C %s_pass %s" % (N, self.dg(p, v)))
        elif k == 4:
            self.emit(self.call(N + "_cref", "&" + x) + ";")
            self.ex("C %s_cref %s" % (N, self.dg(p, v)))
        elif k == 5:
            i = rng.randrange(NSLOT)
            self.vars.pop(x)
            self.slots[kind][i] = o
            self.emit(self.call(N + "_store", str(i), x) + ";")
        elif k == 7:
            op, kk = rng.randrange(4), rng.randrange(8)
            if op == 2:
                kk %= NSLOT
            self.emit(self.call(N + "_mref", "Pin::new(&mut %s)" % x, str(op), str(kk)) + ";")
            if op == 0:
                self.vars[x][1] = None
            elif op == 1:
                self.vars[x][1] = Obj(p.table[kk])
                self.ex(*p.make_ev(p.table[kk]))
            elif op == 2:
                self.vars[x][1], self.slots[kind][kk] = self.slots[kind][kk], o
            elif o:
                o.v = p.cmut(v)
        elif k == 8:
            i = rng.randrange(NSLOT)
            so = self.slots[kind][i]
            self.show(p, self.call(N + "_at", str(i)) + ".as_ref()", so.v if so else None)
        elif k == 9:
            self.emit('ev(format!("Z {}", %s.is_null()));' % x)
            self.ex("Z " + str(o is None).lower())
            self.show(p, x + ".as_ref()", v)
        elif k == 10 and o:
            s, o.v = p.rmut(rng, "%s.pin_mut()" % x, v)
            self.emit(s)
            self.sig("rmut:" + N)
        elif k == 11:
            self.vars.pop(x)
            self.emit("drop(%s);" % x)
            self.sig("drop:" + N)
        elif k == 12:
            # round trip through a raw pointer
            self.vars.pop(x)
            n = self.var(kind, o)
            self.emit("let mut %s = unsafe { let r = %s.into_raw(); cxx::UniquePtr::from_raw(r) };" % (n, x))
            self.sig("raw:" + N)

    def rel(self, o):
        if o:
            o.strong -= 1

    def sdig(self, p, o, extra=0):
        """use_count and content as seen by C++ with `extra` more owners than the model's."""
        return "0 null" if o is None else "%d %s" % (o.strong + extra, p.dig(o.v))

    def wdig(self, p, o):
        if o is None or o.strong == 0:
            return "0 null"
        return "%d %s" % (o.strong, p.dig(o.v))

    def step_sp(self, p):
        rng, g = self.rng, p.tag
        kind, wk, N, M = ("sp", g), ("wp", g), "sp_" + g, "wp_" + g
        k = rng.randrange(26)
        x, w = self.pick(kind), self.pick(wk)
        if k <= 2 or (x is None and k < 12):
            if rng.random() < .12:
                n = self.var(kind, None)
                self.emit("let mut %s = %s;" % (n, rng.choice(["cxx::SharedPtr::<%s>::null()" % p.rs, self.call(N + "_give", "99")])))
                return
            if p.trivial and rng.random() < .3:
                v = p.rand(rng)
                n = self.var(kind, Obj(v))
                self.emit("let mut %s = cxx::SharedPtr::new(%s);" % (n, p.rs_lit(v)))
                self.sig("SharedPtr::new<%s>" % g)
                return
            i, v = self.mk(p)
            n = self.var(kind, Obj(v))
            self.emit("let mut %s = %s;" % (n, self.call(N + "_give", str(i))))
            self.ex(*p.make_ev(v))
            return
        if k < 12:
            o = self.vars[x][1]
            if k == 3:
                self.vars.pop(x)
                self.emit(self.call(N + "_take", x) + ";")
                self.ex("C %s_take %s" % (N, self.sdig(p, o)))
                self.rel(o)
            elif k == 4:
                self.vars.pop(x)
                n = self.var(kind, o)
                self.emit("let mut %s = %s;" % (n, self.call(N + "_pass", x)))
                self.ex("C %s_pass %s" % (N, self.sdig(p, o)))
            elif k == 5:
                self.emit(self.call(N + "_cref", "&" + x) + ";")
                self.ex("C %s_cref %s" % (N, self.sdig(p, o)))
            elif k == 6:
                i = rng.randrange(NSLOT)
                self.vars.pop(x)
                self.rel(self.slots[kind][i])
                self.slots[kind][i] = o
                self.emit(self.call(N + "_store", str(i), x) + ";")
            elif k == 7:
                op, kk = rng.randrange(4), rng.randrange(8)
                if op == 2:
                    kk %= NSLOT
                self.emit(self.call(N + "_mref", "Pin::new(&mut %s)" % x, str(op), str(kk)) + ";")
                if op == 0:
                    self.rel(o)
                    self.vars[x][1] = None
                elif op == 1:
                    self.ex(*p.make_ev(p.table[kk]))
                    self.rel(o)
                    self.vars[x][1] = Obj(p.table[kk])
                elif op == 2:
                    so = self.slots[kind][kk]
                    if so:
                        so.strong += 1
                    self.rel(o)
                    self.vars[x][1] = so
                elif o:
                    o.v = p.cmut(o.v)
            elif k == 8:
                n = self.var(kind, o)
                if o:
                    o.strong += 1
                self.emit("let mut %s = %s.clone();" % (n, x))
                self.sig("clone:" + N)
            elif k == 9:
                self.vars.pop(x)
                self.rel(o)
                self.emit("drop(%s);" % x)
                self.sig("drop:" + N)
            elif k == 10:
                self.emit('ev(format!("Z {}", %s.is_null()));' % x)
                self.ex("Z " + str(o is None).lower())
                self.show(p, x + ".as_ref()", o.v if o else None)
            else:
                n = self.var(wk, o)
                self.emit("let mut %s = %s.downgrade();" % (n, x))
                self.sig("downgrade:" + N)
        elif k <= 14:
            i = rng.randrange(NSLOT)
            o = self.slots[kind][i]
            if k == 12:
                n = self.var(kind, o)
                if o:
                    o.strong += 1
                self.emit("let mut %s = %s;" % (n, self.call(N + "_load", str(i))))
            elif k == 13:
                self.show(p, self.call(N + "_at", str(i)) + ".as_ref()", o.v if o else None)
            else:
                n = self.var(kind, o)
                if o:
                    o.strong += 1
                self.emit("let mut %s = %s.clone();" % (n, self.call(N + "_at", str(i))))
        elif k == 15 or w is None:
            i = rng.randrange(NSLOT)
            if rng.random() < .1:
                n = self.var(wk, None)
                self.emit("let mut %s = cxx::WeakPtr::<%s>::null();" % (n, p.rs))
            elif rng.random() < .5:
                n = self.var(wk, self.slots[kind][i])
                self.emit("let mut %s = %s;" % (n, self.call(M + "_of", str(i))))
            else:
                n = self.var(wk, self.slots[wk][i])
                self.emit("let mut %s = %s;" % (n, self.call(M + "_load", str(i))))
        else:
            o = self.vars[w][1]
            alive = o is not None and o.strong > 0
            if k == 16:
                self.vars.pop(w)
                self.emit(self.call(M + "_take", w) + ";")
                self.ex("C %s_take %s" % (M, self.wdig(p, o)))
            elif k <= 18:
                self.emit(self.call(M + "_cref", "&" + w) + ";")
                self.ex("C %s_cref %s" % (M, self.wdig(p, o)))
            elif k == 19:
                n = self.var(kind, o if alive else None)
                if alive:
                    o.strong += 1
                self.emit("let mut %s = %s;" % (n, self.call(M + "_lock", "&" + w)))
            elif k == 20:
                n = self.var(kind, o if alive else None)
                if alive:
                    o.strong += 1
                self.emit("let mut %s = %s.upgrade();" % (n, w))
                self.sig("upgrade:" + M)
            elif k == 21:
                i = rng.randrange(NSLOT)
                op = rng.randrange(2)
                self.emit(self.call(M + "_mref", "unsafe { Pin::new_unchecked(&mut %s) }" % w, str(op), str(i)) + ";")
                self.vars[w][1] = None if op == 0 else self.slots[kind][i]
            elif k == 22:
                i = rng.randrange(NSLOT)
                self.vars.pop(w)
                self.slots[wk][i] = o
                self.emit(self.call(M + "_store", str(i), w) + ";")
            elif k == 23:
                self.var(wk, o)
                self.emit("let mut x%d = %s.clone();" % (self.nv, w))
                self.sig("clone:" + M)
            elif k == 24:
                self.vars.pop(w)
                self.emit("drop(%s);" % w)
                self.sig("drop:" + M)
            else:
                self.emit('ev(format!("Z {}", %s.upgrade().is_null()));' % w)
                self.ex("Z " + str(not alive).lower())

    def show_vec(self, p, e, l):
        """Log a &CxxVector expression through one of the ways Rust has of reading it."""
        rng = self.rng
        k = rng.randrange(4 if p.trivial else 3)
        if k == 0:
            it = "y.iter()"
        elif k == 1:
            it = "(0..y.len()).map(|j| y.get(j).unwrap())"
        elif k == 2:
            it = "y.into_iter()"
        else:
            it = "y.as_slice().iter()"
        self.emit('{ let y = %s; let mut s = format!("R {} {} {}", y.len(), y.is_empty(), y.get(%d).is_none()); for z in %s { s.push(\' \'); s.push_str(&%s); } ev(s); }' % (
            e, len(l), it, p.rdig("z")))
        self.ex("R %d %s true%s" % (len(l), str(not l).lower(), "".join(" " + p.dig(v) for v in l)))
        self.sig("read%d:vec_%s" % (k, p.tag))

    def mut_vec(self, p, pin, l):
        """Rust mutates a Pin<&mut CxxVector>; returns the new content."""
        rng = self.rng
        k = rng.randrange(5)
        l = list(l)
        self.sig("mut%d:vec_%s" % (k, p.tag))
        if k == 0 and p.trivial:
            v = p.rand(rng)
            self.emit("%s.push(%s);" % (pin, p.rs_lit(v)))
            return l + [v]
        if k == 1 and p.trivial:
            self.emit('ev(match %s.pop() { Some(y) => format!("P {}", %s), None => "P none".to_string() });' % (pin, p.rdig("&y")))
            self.ex("P " + (p.dig(l.pop()) if l else "none"))
            return l
        if k == 2 and p.trivial:
            self.emit("%s.as_mut_slice().reverse();" % pin)
            return l[::-1]
        if k == 3 and l:
            j = rng.randrange(len(l))
            s, l[j] = p.rmut(rng, "%s.index_mut(%d).unwrap()" % (pin, j), l[j])
            self.emit(s)
            return l
        if l and p.tag == "t":
            self.emit("for (j, z) in %s.iter_mut().enumerate() { z.set(70000 + j as u32); }" % pin)
            return [70000 + j for j in range(len(l))]
        if l and p.tag == "s":
            self.emit("for z in %s.iter_mut() { z.push_str(\"~\"); }" % pin)
            return [v + b"~" for v in l]
        return l

    def step_vec(self, p):
        rng, g = self.rng, p.tag
        kind, N = ("vec", g), "vec_" + g
        k = rng.randrange(17)
        x = self.pick(kind)
        if k <= 2 or x is None:
            s, n = rng.randrange(8), rng.choice([0, 1, 2, 3, 5, 9, 17])
            l = [p.table[(s + j * 3) % 8] for j in range(n)]
            c = rng.randrange(6)
            if c == 0:
                nm = self.var(kind, None)
                self.emit("let mut %s = %s;" % (nm, rng.choice(["cxx::UniquePtr::<cxx::CxxVector<%s>>::null()" % p.rs, self.call(N + "_giveup", "0", "99")])))
                return
            if c == 1:
                nm = self.var(kind, Obj([]))
                self.emit("let mut %s = cxx::CxxVector::<%s>::new();" % (nm, p.rs))
                self.sig("CxxVector::new<%s>" % g)
                return
            nm = self.var(kind, Obj(l))
            self.emit("let mut %s = %s;" % (nm, self.call(N + rng.choice(["_give", "_giveup"]), str(s), str(n))))
            for v in l:
                self.ex(*p.make_ev(v))
            return
        o = self.vars[x][1]
        d = "null" if o is None else self.vdig(p, o.v)
        if k == 3:
            self.vars.pop(x)
            self.emit(self.call(N + "_takeup", x) + ";")
            self.ex("C %s_takeup %s" % (N, d))
        elif k == 4:
            self.vars.pop(x)
            n = self.var(kind, o)
            self.emit("let mut %s = %s;" % (n, self.call(N + "_passup", x)))
            self.ex("C %s_passup %s" % (N, d))
        elif k in (5, 6, 7):
            f = {5: "_take", 6: "_pass", 7: "_store"}[k]
            i = rng.randrange(NSLOT)
            self.vars.pop(x)
            call = self.call(N + f, *([str(i), x] if k == 7 else [x]))
            if o is None:
                self.emit('ev(if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = %s; })).is_err() { "PANIC" } else { "NOPANIC" });' % call)
                self.ex("PANIC")
                self.sig("arg:null-vec")
            elif k == 5:
                self.emit(call + ";")
                self.ex("C %s_take %s" % (N, d))
            elif k == 6:
                n = self.var(kind, o)
                self.emit("let mut %s = %s;" % (n, call))
                self.ex("C %s_pass %s" % (N, d))
            else:
                self.slots[kind][i] = o.v
                self.emit(call + ";")
        elif k == 8:
            i = rng.randrange(NSLOT)
            n = self.var(kind, Obj(self.slots[kind][i]))
            self.slots[kind][i] = []
            self.emit("let mut %s = %s;" % (n, self.call(N + "_load", str(i))))
        elif k == 9 and o:
            self.emit(self.call(N + "_cref", "&" + x) + ";")
            self.ex("C %s_cref %s" % (N, d))
        elif k in (10, 11) and o:
            op, kk = rng.randrange(5), rng.randrange(8)
            if g == "t":
                op = min(op, 3)
            if op == 2:
                kk %= NSLOT
            self.emit(self.call(N + "_mref", "%s.pin_mut()" % x, str(op), str(kk)) + ";")
            if op == 0:
                o.v = []
            elif op == 1:
                self.ex(*p.make_ev(p.table[kk]))
                o.v = o.v + [p.table[kk]]
            elif op == 2:
                o.v, self.slots[kind][kk] = self.slots[kind][kk], o.v
            elif op == 3 and g != "t":
                o.v = o.v[::-1]
            else:
                o.v = [p.cmut(v) for v in o.v]
        elif k == 12:
            i = rng.randrange(NSLOT)
            self.show_vec(p, self.call(N + "_at", str(i)), self.slots[kind][i])
        elif k == 13:
            i = rng.randrange(NSLOT)
            self.emit("{ let mut m = %s;" % self.call(N + "_at_mut", str(i)))
            self.slots[kind][i] = self.mut_vec(p, "m.as_mut()", self.slots[kind][i])
            self.emit("}")
        elif k == 14 and o:
            o.v = self.mut_vec(p, "%s.pin_mut()" % x, o.v)
        elif k == 15:
            self.vars.pop(x)
            self.emit("drop(%s);" % x)
            self.sig("drop:" + N)
        elif o:
            self.show_vec(p, "&*%s" % x, o.v)

    def live(self):
        """Values of all live tracked objects."""
        vs, seen = [], set()

        def add(kind, v):
            if kind[1] not in ("t", "a") or v is None or kind[0] == "wp":
                return
            if kind[0] == "vec":
                vs.extend(v.v if isinstance(v, Obj) else v)
            elif id(v) not in seen:
                seen.add(id(v))
                vs.append(v.v)
        for k, v in self.vars.values():
            add(k, v)
        for k, l in self.slots.items():
            for v in l:
                add(k, v)
        vs.sort()
        self.emit("tr::live();")
        self.ex("L %d%s" % (len(vs), "".join(" %d" % v for v in vs)))


def make(rng, name, steps):
    g = Gen(rng, name)
    hdr = g.header()
    cpp = g.cpp()
    for i in range(steps):
        g.step()
        if i % 6 == 5:
            g.live()
    # drop the rest in random order, then what C++ holds
    for n in rng.sample(sorted(g.vars), len(g.vars)):
        g.emit("drop(%s);" % n)
        k, v = g.vars.pop(n)
        if k[0] == "sp":
            g.rel(v)
    g.live()
    g.emit("hub.pin_mut().clear_all();")
    for k in g.slots:
        g.slots[k] = [[] if k[0] == "vec" else b"" if k[0] == "str" else None] * NSLOT
    g.live()
    dirs = ['generate!("%s")' % q(g.hubns, "Hub")]
    for p in g.pays:
        if isinstance(p, PPod):
            dirs.append('generate_pod!("%s")' % q(p.ns, "Pd"))
        elif isinstance(p, PEnum):
            dirs.append('generate!("%s")' % q(p.ns, "En"))
        elif isinstance(p, PAbs):
            dirs.append('generate!("%s")' % q(p.ns, "Ab"))
        elif isinstance(p, PTrk):
            dirs += p.t.directives()
    dirs += ['generate!("%s")' % q(f.ns, f.name) for f in g.fns if f.how == "free"]
    rng.shuffle(dirs)
    std = rng.choice(["-std=c++14", "-std=c++17", "-std=c++20"])
    uses = "".join("use ffi::%sToCppString as _;\n" % "" for _ in range(1))
    main = RS_ALLOW + "use autocxx::prelude::*;\nuse std::pin::Pin;\ninclude_cpp! {\n#include \"input.h\"\n%s\nsafety!(unsafe_ffi)\n}\nuse ffi::ToCppString;\n%s\nfn main() { vf::quiet_panics();\nlet mut hub = ffi::%s::new().within_unique_ptr();\n%s\ntr::stats(); }\n" % (
        "\n".join(dirs), TRACK_RS, q(g.hubns, "Hub"), "\n".join(g.body))
    return Case(name, hdr, main, cpp, clang_args=[std]), g.exp, g.sigs


def main():
    ck = Check("C17")
    T = build_repo()
    ck.rule = ("one evaluation = one step of an ownership history (a call or Rust operation on a string, smart pointer or vector) whose content, null-ness, "
               "use_count and ownership events were checked; distinct = distinct (operation, call form)")
    n = 20 if ck.quick else 220

    def one(i):
        rng = ck.rng("prog", i)
        case, exp, sigs = make(rng, "c17_%d" % i, 110 if ck.quick else 220)
        o = run_case(T, case)
        stats = [l for l in o.trace if l.startswith("#STATS")]
        for s in stats:
            for k, v in re.findall(r"(\w+)=(\d+)", s):
                ck.count("tracked_" + k, int(v))
        o.trace = [l for l in o.trace if not l.startswith(("ON ", "OD ", "#STATS"))]
        ok = judge_trace(ck, case, o, exp, "prog%d" % i)
        for s in sigs:
            ck.evaluated(s)
            ck.saw("operations", s.split("/")[0])
        ck.count("programs")
        ck.count("events_checked", len(exp))
        if ok and i < 2:
            ck.sample({"operations": sigs[:8], "events": exp[:8]})
        cleanup(case)

    for r in pmap(one, range(n)):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=500)
