"""C22: types shared between include_cpp! modules (extern_cpp_type!, extern_cpp_opaque_type!) are one type.

One module binds classes, structs and enums; one or two more declare them external and bind functions and methods using
them by value, reference, pointer and smart pointer. Rust passes objects between the modules in random histories; a
registry in C++ watches their lifetimes, the values and identities are predicted, and rustc is asked whether the names in
the modules are the same type. User C++ includes the generated headers of all modules in one file."""
from .core import *
from .lib import *
from .types import q, wrap_ns
from .track import TRACK_RT, TRACK_RS


class Ty:
    def __init__(self, kind, name, ns):
        self.kind, self.name, self.ns = kind, name, ns
        self.cpp = "::" + q(ns, name)
        self.plain = q(ns, name)
        self.path = "::".join(list(ns) + [name])


def compile_separately(case, out="out", headers=()):
    """Every generated file and the user's C++ each in its own object (as a build would), joined into unit.o."""
    d = case.dir
    with open(os.path.join(d, "user.cc"), "w") as f:
        f.write('#include "input.h"\n' + "".join('#include "%s"\n' % h for h in headers) + '#include "input.cc"\n')
    objs = []
    for j, u in enumerate([os.path.join(out, x) for x in sorted(os.listdir(os.path.join(d, out))) if x.endswith(".cc")] + ["user.cc"]):
        r = run(["clang++", *case.clang_args, "-O0", "-g1", "-w", *SAN, "-I.", "-I" + out, "-c", u, "-o", "u%d.o" % j], cwd=d, timeout=180)
        if r.rc != 0:
            return r
        objs.append("u%d.o" % j)
    return run(["clang++", "-r", "-nostdlib", "-o", "unit.o"] + objs, cwd=d, timeout=60)


def run_multi(T, case, headers):
    o = Outcome()
    write_case(case)
    for stage, f in (("gen", lambda: gen_step(T, case)), ("cxx", lambda: compile_separately(case, headers=headers)), ("rustc", lambda: rustc_step(T, case)), ("run", lambda: exec_prog(case))):
        o.stage = stage
        r = f()
        setattr(o, "runr" if stage == "run" else stage, r)
        if r.killed:
            raise Inconclusive("%s: %s killed or timed out" % (case.name, stage))
        if stage != "run" and r.rc != 0:
            return o
    o.trace = [l for l in o.runr.out.splitlines() if not l.startswith("#")]
    o.ok = o.runr.rc == 0
    return o


def program(ck, T, i):
    rng = ck.rng("prog", i)
    h = ["#pragma once"] + ["#include <%s>" % x for x in ("cstdint", "memory", "string", "vector")]
    cc = [TRACK_RT]
    tys = []
    shared_ns = [(), ("n%d" % rng.randrange(9),), ("m%d" % rng.randrange(9), "k")]
    for j in range(rng.choice([1, 1, 2])):
        tys.append(Ty("class", "Tr%d" % j, rng.choice(shared_ns)))
    for j in range(rng.choice([1, 1, 2])):
        tys.append(Ty("pod", "Pd%d" % j, rng.choice(shared_ns)))
    tys.append(Ty("enum", "En", rng.choice(shared_ns)))
    opq = rng.choice(["", "bridge", "autocxx"])
    if opq:
        tys.append(Ty("opaque", "Op", () if opq == "bridge" else rng.choice(shared_ns)))
    for t in tys:
        if t.kind in ("class", "opaque"):
            pad = rng.choice(["", "uint64_t pad_[%d];" % rng.randint(1, 5), "std::string s_;", "uint8_t b_;", "std::vector<uint32_t> q_;"])
            h.append(wrap_ns(t.ns, "class %s { public: explicit %s(uint32_t v); %s(const %s& o); %s(%s&& o); ~%s(); uint32_t get() const; void set(uint32_t v); %s uint32_t v; const %s* self; };" % (
                (t.name,) * 7 + (pad, t.name))))
            al = "alignof(%s), sizeof(%s)" % (t.cpp, t.cpp)
            n = t.cpp[2:] + "::"
            cc.append(('%(n)s%(x)s(uint32_t a) : v(a), self(this) { vf_born(this, "%(x)s", %(al)s, v); }\n%(n)s%(x)s(const %(x)s& o) : v(o.v), self(this) { vf_use(&o, "%(x)s", o.self); vf_born(this, "%(x)s", %(al)s, v); }\n'
                       '%(n)s%(x)s(%(x)s&& o) : v(o.v), self(this) { vf_use(&o, "%(x)s", o.self); o.v = 0; vf_set(&o, "%(x)s", 0); vf_born(this, "%(x)s", %(al)s, v); }\n%(n)s~%(x)s() { vf_dead(this, "%(x)s", self); }\n'
                       'uint32_t %(n)sget() const { vf_use(this, "%(x)s", self); return v; }\nvoid %(n)sset(uint32_t a) { v = a; vf_set(this, "%(x)s", a); }') % {"n": n, "x": t.name, "al": al})
        elif t.kind == "pod":
            t.f = [("uint8_t", 8), ("uint64_t", 64), ("uint32_t", 32), ("uint16_t", 16)]
            rng.shuffle(t.f)
            t.f = t.f[:rng.randint(1, 4)]
            h.append(wrap_ns(t.ns, "struct %s { %s };" % (t.name, " ".join("%s f%d;" % (c, k) for k, (c, _) in enumerate(t.f)))))
        else:
            t.under = rng.choice(["uint8_t", "int16_t", "uint32_t"])
            t.vals = sorted(rng.sample(range(1, 100), 3))
            h.append(wrap_ns(t.ns, "enum class %s : %s { %s };" % (t.name, t.under, ", ".join("V%d = %d" % (k, v) for k, v in enumerate(t.vals)))))
    # modules
    mods = ["a", "b"] + (["c"] if rng.random() < 0.6 else [])
    owner = {t: "a" for t in tys}
    dirs = {m: [] for m in mods}
    declared = {m: [] for m in mods}
    for t in tys:
        if t.kind == "opaque" and opq == "bridge":
            owner[t] = "br"
        else:
            dirs["a"].append(('generate_pod!("%s")' if t.kind == "pod" else 'generate!("%s")') % t.plain)
    for m in mods:
        src = "a"
        for t in tys:
            if m == "a" and (owner[t] == "a" or t.kind == "opaque"):      # (a name that nothing uses is not bound)
                continue
            via = "a" if m != "c" or rng.random() < 0.6 or t.kind == "opaque" or owner[t] == "br" else "b"
            base = "crate::br" if owner[t] == "br" else "crate::mod_%s" % via
            p = base + "::" + t.path
            if t.kind == "opaque":
                dirs[m].append('extern_cpp_opaque_type!("%s", %s)' % (t.plain, p))
            else:
                dirs[m].append('extern_cpp_type!("%s", %s)' % (t.plain, p))
                if t.kind != "class":
                    dirs[m].append('pod!("%s")' % t.plain)
            declared[m].append(t)
            ck.saw("declared", (t.kind, "nested" if t.ns else "root", "via " + via if owner[t] == "a" else "bridge"))
    # functions
    fns, k = [], 0
    cls = {m: "Kl_%s" % m for m in mods}
    meth = {m: [] for m in mods}
    for m in mods:
        for t in tys:
            if t.kind == "opaque" and m == "a" and owner[t] != "a":
                continue
            forms = {"class": ["ref", "mut", "val", "ret", "up", "upin", "ptr", "sp", "rv", "same", "mptr"], "opaque": ["ref", "mut", "up", "upin", "ptr", "same"] + (["ret"] if m != "a" else []),
                     "pod": ["prt", "pmut", "psame", "pptr"], "enum": ["ert"]}[t.kind]
            for form in rng.sample(forms, min(len(forms), rng.randint(1, 5))):
                k += 1
                n = "%s_%d" % (form, k)
                c = t.cpp
                isup = "std::unique_ptr<%s>" % c
                sg, body = {
                    "ref": ("uint32_t @(const %s& t)" % c, "return t.get();"), "mut": ("void @(%s& t, uint32_t v)" % c, "t.set(v);"), "val": ("uint32_t @(%s t)" % c, "return t.get();"),
                    "ret": ("%s @(uint32_t v)" % c, "return %s(v);" % c), "up": ("%s @(uint32_t v)" % isup, "return %s(new %s(v));" % (isup, c)), "upin": ("uint32_t @(%s t)" % isup, "return t->get();"),
                    "ptr": ("uint32_t @(const %s* t)" % c, "return t->get();"), "mptr": ("void @(%s* t, uint32_t v)" % c, "t->set(v);"), "sp": ("std::shared_ptr<%s> @(uint32_t v)" % c, "return std::make_shared<%s>(v);" % c),
                    "rv": ("uint32_t @(%s&& t)" % c, "%s x(std::move(t)); return x.get();" % c), "same": ("const %s& @(const %s& t)" % (c, c), "t.get(); return t;"),
                    "prt": ("%s @(%s p)" % (c, c), "p.f0++; return p;"), "pmut": ("void @(%s& p)" % c, "p.f0++;"), "psame": ("const %s& @(const %s& p)" % (c, c), "return p;"), "pptr": ("uint64_t @(const %s* p)" % c, "return p->f0;"),
                    "ert": ("%s @(%s e)" % (c, c), "" if t.kind != "enum" else "return e == %s::V0 ? %s::V1 : e == %s::V1 ? %s::V2 : %s::V0;" % ((c,) * 5)),
                }[form]
                if form in ("mut", "pmut", "mptr") or rng.random() < 0.6 or form in ("same", "psame"):
                    h.append(sg.replace("@", n) + ";")
                    cc.append("%s { %s }" % (sg.replace("@", n), body))
                    dirs[m].append('generate!("%s")' % n)
                    call = "mod_%s::%s" % (m, n)
                else:
                    meth[m].append((sg.replace("@", n), sg.replace("@", cls[m] + "::" + n), body))
                    call = "k_%s.%s" % (m, n)
                    ck.count("methods")
                fns.append((form, t, call, m))
                ck.saw("forms", (form, t.kind, "owner" if m == owner[t] else "other"))
    for m in mods:
        if any(c.startswith("k_" + m) for _, _, c, _ in fns):
            h.append("class %s { public: %s(); %s uint32_t z; };" % (cls[m], cls[m], " ".join(x[0] + " const;" for x in meth[m])))
            cc.append("%s::%s() : z(1) {}" % (cls[m], cls[m]))
            cc += ["%s const { %s }" % (x[1], x[2]) for x in meth[m]]
            dirs[m].append('generate!("%s")' % cls[m])
    # subclasses, whose C++ halves are in the generated headers
    subs = []
    for m in mods:
        if rng.random() < 0.6:
            h.append("class Su_%s { public: Su_%s() {} virtual ~Su_%s() {} virtual uint32_t vf(uint32_t a) const { return a + 1; } };\nuint32_t run_%s(const Su_%s& s, uint32_t a);" % (m, m, m, m, m))
            cc.append("uint32_t run_%s(const Su_%s& s, uint32_t a) { static_assert(sizeof(::Sub_%sCpp) >= sizeof(::Su_%s), \"\"); return s.vf(a); }" % (m, m, m, m))
            dirs[m] += ['generate!("run_%s")' % m, 'subclass!("Su_%s", Sub_%s)' % (m, m)]
            subs.append(m)
    main = RS_ALLOW + "use autocxx::prelude::*;\n"
    pol = rng.choice(["unsafe", "unsafe_ffi"])
    for m in rng.sample(mods, len(mods)):
        rng.shuffle(dirs[m])
        main += "pub mod mod_%s { use autocxx::prelude::*;\nautocxx::include_cpp! {\n#include \"input.h\"\nname!(ffi_%s)\nsafety!(%s)\n%s\n}\npub use ffi_%s::*;\nuse ffi_%s as ffi;\n" % (m, m, pol, "\n".join(dirs[m]), m, m)
        if m in subs:
            main += ("use autocxx::subclass::prelude::*;\n#[subclass]\n#[derive(Default)]\npub struct Sub_%s { n: u32 }\nimpl ffi::Su_%s_methods for Sub_%s { fn vf(&self, a: u32) -> u32 { a + 1000 } }\nimpl CppSubclassDefault<ffi::Sub_%sCpp> for Sub_%s {}\n"
                     % (m, m, m, m, m)).replace("impl CppSubclassDefault<ffi::Sub_%sCpp> for Sub_%s {}\n" % (m, m), "")
        main += "}\n"
    if opq == "bridge":
        main += "#[cxx::bridge]\npub mod br { unsafe extern \"C++\" { include!(\"input.h\"); type Op; fn get(self: &Op) -> u32; fn set(self: Pin<&mut Op>, v: u32); } impl UniquePtr<Op> {} }\n"
    pre = main
    # history
    st, exp, objs, pods, v = [], [], [], [], 0
    for m in mods:
        if any(c.startswith("k_" + m) for _, _, c, _ in fns):
            st.append("let k_%s = mod_%s::%s::new().within_unique_ptr();" % (m, m, cls[m]))
    for m in subs:
        st.append('{ use autocxx::subclass::prelude::*; let s = mod_%s::Sub_%s::default_rust_owned(); let g = s.as_ref().borrow(); ev(format!("S {}", mod_%s::run_%s(g.as_ref(), 5))); }' % (m, m, m, m))
        exp.append("S 1005")

    def val():
        return rng.randrange(1, 1 << 31)

    def rsname(t):
        ms = [owner[t]] + [m for m in mods if t in declared[m]]
        m = rng.choice(ms)
        return ("br::" if m == "br" else "mod_%s::" % m) + t.path

    def podlit(t, vals):
        return "%s { %s }" % (rsname(t), ", ".join("f%d: %d" % (j, x) for j, x in enumerate(vals)))
    n_ops = 0
    for t in [x for x in tys if x.kind == "class" and rng.random() < 0.7]:
        v = val()
        st.append("let mut x%d = %s::new(%d).within_unique_ptr();" % (len(objs), "mod_a::" + t.path, v))
        objs.append([t, "u", v, len(objs)])
    order = fns * 2
    rng.shuffle(order)
    order.sort(key=lambda f: f[0] not in ("ret", "up", "sp") and rng.random() < 0.6)
    for form, t, call, m in order:
        n_ops += 1
        if form in ("ret", "up", "sp"):
            x = val()
            j = len(objs)
            kind = "u"
            if form == "ret" and t.kind == "class":
                kind = rng.choice("ub")
                st.append("let mut x%d: %s = %s(%d).%s();" % (j, ("cxx::UniquePtr<%s>" if kind == "u" else "std::pin::Pin<Box<%s>>") % rsname(t), call, x, "within_unique_ptr" if kind == "u" else "within_box"))
            else:
                kind = "s" if form == "sp" else "u"
                st.append("let mut x%d: cxx::%sPtr<%s> = %s(%d);" % (j, "Shared" if kind == "s" else "Unique", rsname(t), call, x))
            objs.append([t, kind, x, j])
        elif t.kind in ("class", "opaque"):
            have = [o for o in objs if o[0] is t and o[1] != "gone" and not (form in ("mut", "upin", "rv", "mptr") and o[1] == "s") and not (form in ("upin", "rv") and o[1] == "b")]
            if not have:
                continue
            o = rng.choice(have)
            x = "x%d" % o[3]
            if form in ("ref",):
                st.append('ev(format!("R {}", %s(&%s)));' % (call, x))
                exp.append("R %d" % o[2])
            elif form == "ptr":
                st.append('ev(format!("R {}", unsafe { %s(&*%s as *const %s) }));' % (call, x, rsname(t)))
                exp.append("R %d" % o[2])
            elif form == "mptr":
                y = val()
                st.append("unsafe { %s(%s.get_unchecked_mut() as *mut %s, %d) };" % (call, x + (".as_mut()" if o[1] == "b" else ".pin_mut()"), rsname(t), y))
                o[2] = y
            elif form == "mut":
                y = val()
                st.append("%s(%s, %d);" % (call, x + (".as_mut()" if o[1] == "b" else ".pin_mut()"), y))
                o[2] = y
            elif form == "same":
                st.append('{ let r: &%s = %s(&%s); ev(format!("I {} {}", std::ptr::eq(r, &*%s), r.get())); }' % (rsname(t), call, x, x))
                exp.append("I true %d" % o[2])
            elif form == "val":
                if o[1] == "u" and rng.random() < 0.4:
                    st.append('ev(format!("V {}", %s(%s)));' % (call, x))
                    exp.append("V %d" % o[2])
                    o[1] = "gone"
                else:
                    st.append('ev(format!("V {}", %s(&*%s)));' % (call, x))
                    exp.append("V %d" % o[2])
            else:
                st.append('ev(format!("U {}", %s(%s)));' % (call, x))
                exp.append("U %d" % o[2])
                o[1] = "gone"
            if rng.random() < 0.5 and o[1] != "gone":
                st.append('ev(format!("G {}", x%d.get()));' % o[3])
                exp.append("G %d" % o[2])
        elif t.kind == "pod":
            vals = [rng.randrange(0, (1 << b) - 1) for _, b in t.f]
            after = [vals[0] + 1] + vals[1:]
            sh = 'format!("P %s", %s)' % (" ".join("{}" for _ in vals), ", ".join("p.f%d" % j for j in range(len(vals))))
            if form == "prt":
                st.append("{ let p: %s = %s(%s); ev(%s); }" % (rsname(t), call, podlit(t, vals), sh))
                exp.append("P " + " ".join(map(str, after)))
            elif form == "pmut":
                st.append("{ let mut p = %s; %s(std::pin::Pin::new(&mut p)); ev(%s); }" % (podlit(t, vals), call, sh))
                exp.append("P " + " ".join(map(str, after)))
            elif form == "psame":
                st.append('{ let p = %s; let r: &%s = %s(&p); ev(format!("I {}", std::ptr::eq(r, &p))); }' % (podlit(t, vals), rsname(t), call))
                exp.append("I true")
            else:
                st.append('{ let p: %s = %s; ev(format!("R {}", unsafe { %s(&p) })); }' % (rsname(t), podlit(t, vals), call))
                exp.append("R %d" % vals[0])
        else:
            j = rng.randrange(3)
            st.append('{ let e: %s = %s(%s::V%d); ev(format!("E {}", e as u64)); }' % (rsname(t), call, rsname(t), j))
            exp.append("E %d" % t.vals[(j + 1) % 3])
        if rng.random() < 0.3:
            st.append("tr::live();")
            live = sorted(o[2] for o in objs if o[1] != "gone")
            exp.append("L %d" % len(live) + "".join(" %d" % x for x in live))
    st.append("}")
    st.append("tr::live();")
    exp.append("L 0")
    main += TRACK_RS + "fn main() {\n{\n" + "\n".join(st) + "\n}\n"
    case = Case("c22_%d" % i, "\n".join(h) + "\n", main, "\n".join(cc) + "\n", inputs=("main.rs",))
    heads = ["autocxxgen_ffi_%s.h" % m for m in rng.sample(subs, len(subs))]
    try:
        o = run_multi(T, case, heads)
        if judge_trace(ck, case, o, exp, "shared", alone=False):
            probes, what = [], []
            for t in tys:
                ms = [owner[t]] + [m for m in mods if t in declared[m]]
                ps = [("br::" if m == "br" else "mod_%s::" % m) + t.path for m in ms]
                for a in ps[:1]:
                    for b in ps[1:]:
                        probes.append("pub fn p%d(x: cxx::UniquePtr<%s>) -> cxx::UniquePtr<%s> { x }" % (len(probes), a, b) if t.kind in ("class", "opaque") else "pub fn p%d(x: %s) -> %s { x }" % (len(probes), a, b))
                        what.append((t.plain, a, b))
            rej, broken = probe(T, case, pre + "fn main() {}\n", probes)
            if broken:
                raise Inconclusive("%s: probe: %s" % (case.name, broken[0][:300]))
            for j, r in rej.items():
                ck.violation("shared:identity", "%s: %s is not one type: %s and %s differ: %s" % ((case.name,) + what[j] + (r,)), src=case.dir)
            ck.count("identities_checked", len(probes))
    finally:
        cleanup(case)
    ck.evaluated("%s | %s" % (" ".join(sorted("%s:%s" % (f, "m" if c.startswith("k_") else "f") for f, _, c, _ in fns)), ",".join(mods)))
    ck.count("events", len(exp))
    ck.count("operations", n_ops)
    ck.count("headers_included_together", len(heads) if len(heads) > 1 else 0)
    if i < 2:
        ck.sample({"modules": {m: dirs[m][:6] for m in mods}, "events": exp[:6]})


def field(ck, T):
    """A field of a shared type in a struct bound by another module."""
    h = "#pragma once\n#include <cstdint>\nstruct Pf { uint32_t a; };\nstruct Hf { Pf p; uint32_t b; };\nHf hf(Hf h);\n"
    main = RS_ALLOW + """use autocxx::prelude::*;
pub mod mod_a { autocxx::include_cpp! {
#include "input.h"
name!(ffi_a)
safety!(unsafe_ffi)
generate_pod!("Pf")
} pub use ffi_a::*; }
pub mod mod_b { autocxx::include_cpp! {
#include "input.h"
name!(ffi_b)
safety!(unsafe_ffi)
generate_pod!("Hf")
generate!("hf")
extern_cpp_type!("Pf", crate::mod_a::Pf)
pod!("Pf")
} pub use ffi_b::*; }
""" + TRACK_RS + """fn main() { let h = mod_b::hf(mod_b::Hf { p: mod_a::Pf { a: 3 }, b: 4 }); let p: mod_a::Pf = h.p; ev(format!("F {}", p.a)); }
"""
    case = Case("c22_field", h, main, TRACK_RT + "Hf hf(Hf h) { h.p.a++; return h; }\n")
    try:
        o = run_multi(T, case, [])
        judge_trace(ck, case, o, ["F 4"], "field", alone=False)
    finally:
        cleanup(case)


def main():
    ck = Check("C22")
    ck.rule = "one program per evaluation: two or three modules sharing types, with a random history of calls across them; distinct by the forms of use and the modules"
    ck.assumptions += ["types declared external have the same size as the C++ type because another module of autocxx, or a cxx bridge, binds them (documented requirement)"]
    T = build_repo()
    n = 24 if ck.quick else 300
    jobs = [lambda: field(ck, T)] + [lambda i=i: program(ck, T, i) for i in range(n)]
    for r in pmap(lambda f: f(), jobs):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=max(1, n // 2))
