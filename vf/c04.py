"""C04 constructing, storing and dropping C++ objects from Rust: histories against an ownership model."""
from .core import *
from .track import *
from .types import wrap_ns, q
from .callgen import HDR


class Prog:
    def __init__(self, rng):
        self.rng = rng
        self.body, self.exp, self.sigs = [], [], set()
        self.live = []          # [var, kind, type, value]
        self.n = 0

    def v(self):
        self.n += 1
        return 2000 + self.n

    def name(self):
        self.n += 1
        return "o%d" % self.n

    def emit(self, r, e=()):
        self.body.append(r)
        self.exp += list(e)

    def report(self, extra=()):
        vals = sorted([l[3] for l in self.live] + list(extra))
        self.emit("tr::live();", ["L %d%s" % (len(vals), "".join(" %d" % x for x in vals))])


def new_expr(P, t):
    """-> (expr, event, value, label) for something implementing New"""
    rng = P.rng
    v = P.v()
    k = rng.random()
    if t.ctors and k < .15:
        return "%s::new1()" % t.rs, "Nd %s 42" % t.core(), 42, "default-ctor"
    if t.ctors and k < .35:
        a, b, neg = rng.randint(1, 9), rng.randint(0, 9), rng.random() < .5
        val = (a - b) & 0xffffffff if neg else a * 1000 + b
        return "%s::new2(%d, %d, %s)" % (t.rs, a, b, "true" if neg else "false"), "Nt %s %d" % (t.core(), val), val, "3arg-ctor"
    if k < .55:
        return "ffi::%s(%d)" % (q(t.ns, "mk_" + t.name.lower()), v), "N %s %d" % (t.core(), v), v, "by-value-return"
    if k < .65:
        return "ffi::%sFac::produce(%d)" % (t.name, v), "N %s %d" % (t.core(), v), v, "static-factory"
    return "%s::new(%d)" % (t.rs, v), "N %s %d" % (t.core(), v), v, "ctor"


HOLD = ["up", "up_emplace", "box", "box_emplace", "pin", "upin", "shared", "vec", "opt"]


def put(P, t, expr, label, events, value, hold):
    """Emplaces expr in holder kind `hold`; returns slot."""
    x = P.name()
    heap = hold in ("up", "up_emplace", "upin", "shared", "vec", "opt")
    code = {"up": "let mut %s = %s.within_unique_ptr();", "up_emplace": "let mut %s = cxx::UniquePtr::emplace(%s);",
            "box": "let mut %s = %s.within_box();", "box_emplace": "let mut %s = Box::emplace(%s);",
            "pin": "let mut %s = %s.within_cpp_pin();",
            "upin": "let mut %s = autocxx::CppUniquePtrPin::new(%s.within_unique_ptr());",
            "shared": "let mut %s: cxx::SharedPtr<" + t.rs + "> = { let u = %s.within_unique_ptr(); ffi::" + q(t.ns, "shr_" + t.name.lower()) + "(u) };",
            "vec": "let mut %s = vec![%s.within_unique_ptr()];",
            "opt": "let mut %s = Some(%s.within_unique_ptr());"}[hold] % (x, expr)
    ev = (["ON %s" % t.core()] if heap and t.opnew else []) + events
    P.emit(code, ev)
    P.sigs.add("%s %s in %s opnew=%s" % (label, t.variant, hold, t.opnew))
    kind = {"up_emplace": "up", "box_emplace": "box"}.get(hold, hold)
    P.live.append([x, kind, t, value])
    return P.live[-1]


def shared_ref(s):
    return {"up": "(*%s)", "box": "(*%s)", "pin": "(*unsafe { &*%s.as_ptr() })", "upin": "(*unsafe { &*%s.as_ptr() })", "shared": "(*%s)", "vec": "(*%s[0])", "opt": "(**%s.as_ref().unwrap())"}[s[1]] % s[0]


def pin_mut(s):
    return {"up": "%s.pin_mut()", "box": "%s.as_mut()", "pin": "(unsafe { std::pin::Pin::new_unchecked(%s.as_mut()) })",
            "upin": "(unsafe { std::pin::Pin::new_unchecked(&mut *%s.as_cpp_mut_ref().as_mut_ptr()) })", "vec": "%s[0].pin_mut()", "opt": "%s.as_mut().unwrap().pin_mut()"}[s[1]] % s[0]


def step(P, tys):
    rng = P.rng
    k = rng.random()
    if not P.live or k < .28:
        t = rng.choice(tys)
        e, ev, v, lab = new_expr(P, t)
        put(P, t, e, lab, [ev], v, rng.choice(HOLD))
        return
    s = rng.choice(P.live)
    x, kind, t, v = s
    if k < .36:
        P.emit('ev(format!("G {}", %s.get()));' % shared_ref(s), ["G %d" % v])
        P.sigs.add("get %s %s" % (t.variant, kind))
    elif k < .46:
        if kind == "shared":
            return step(P, tys)
        nv = P.v()
        P.emit("%s.set(%d);" % (pin_mut(s), nv))
        s[3] = nv
        P.sigs.add("set %s %s" % (t.variant, kind))
    elif k < .56:
        # copy construct from a live object
        if not t.copy:
            return step(P, tys)
        put(P, t, "moveit::new::copy(%s)" % ("&" + shared_ref(s)), "copy-from-" + kind, [], v, rng.choice(HOLD))
    elif k < .66:
        # move construct out of a box (or unique_ptr)
        if t.variant == "c" or kind not in ("box", "up"):
            return step(P, tys)
        P.live.remove(s)
        hold = rng.choice(HOLD)
        put(P, t, "moveit::new::mov(%s)" % x, "move-from-" + kind, [], v, hold)
        if kind == "up" and t.opnew:
            P.exp.append("OD %s" % t.core())
    elif k < .72:
        if kind != "up":
            return step(P, tys)
        y = P.name()
        P.emit("let raw = %s.into_raw(); let mut %s = unsafe { cxx::UniquePtr::from_raw(raw) };" % (x, y))
        s[0] = y
        P.sigs.add("into_raw/from_raw %s" % t.variant)
    elif k < .78:
        if kind != "up":
            return step(P, tys)
        P.live.remove(s)
        P.emit("ev(format!(\"T {}\", ffi::%s(%s)));" % (q(t.ns, "take_" + t.name.lower()), x), ["C take %d" % v] + (["OD %s" % t.core()] if t.opnew else []) + ["T %d" % v])
        P.sigs.add("give-to-C++ %s" % t.variant)
    elif k < .82:
        nv = P.v()
        y = P.name()
        P.emit("let mut %s = ffi::%s(%d);" % (y, q(t.ns, "give_" + t.name.lower()), nv), (["ON %s" % t.core()] if t.opnew else []) + [t.new_event(nv)])
        P.live.append([y, "up", t, nv])
        P.sigs.add("get-from-C++ %s" % t.variant)
    elif k < .85:
        # never emplaced: nothing may be constructed
        e, ev, v2, lab = new_expr(P, t)
        P.emit(rng.choice(["let _unused = %s;", "{ let _z = %s; }", "drop(%s);", "let _ = %s;"]) % e)
        P.sigs.add("unused %s %s" % (lab, t.variant))
    elif k < .90:
        # stack
        e, ev, v2, lab = new_expr(P, t)
        y = P.name()
        nv = P.v()
        P.emit("{ moveit::moveit! { let mut %s = %s; }" % (y, e), [ev])
        P.emit("ev(format!(\"G {}\", %s.get())); %s.as_mut().set(%d); ev(format!(\"G {}\", ffi::%s(&%s)));" % (y, y, nv, q(t.ns, "peek_" + t.name.lower()), y), ["G %d" % v2, "C peek %d" % nv, "G %d" % nv])
        P.report([nv])
        P.emit("}")
        P.sigs.add("stack %s %s" % (lab, t.variant))
    elif k < .93:
        # unwinding
        e, ev, v2, lab = new_expr(P, t)
        e2, ev2, v3, lab2 = new_expr(P, t)
        P.emit("let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let a = %s.within_unique_ptr(); let b = %s.within_box(); moveit::moveit! { let c = %s::new(5); } if a.get() != 0xfffffff1 { panic!() } drop(c); drop(b); }));" % (e, e2, t.rs),
               (["ON %s" % t.core()] if t.opnew else []) + [ev, ev2, t.new_event(5)] + (["OD %s" % t.core()] if t.opnew else []))
        P.emit('ev(if r.is_err() { "PANIC" } else { "NOPANIC" });', ["PANIC"])
        P.sigs.add("unwind %s" % t.variant)
    elif k < .95:
        ups = [l for l in P.live if l[1] == "up" and l[2] is t]
        if len(ups) < 2:
            return step(P, tys)
        a, b = rng.sample(ups, 2)
        P.emit("std::mem::swap(&mut %s, &mut %s);" % (a[0], b[0]))
        a[3], b[3] = b[3], a[3]
        P.sigs.add("swap %s" % t.variant)
    else:
        P.live.remove(s)
        P.emit("drop(%s);" % x, ["OD %s" % t.core()] if t.opnew and kind in ("up", "upin", "shared", "vec", "opt") else [])
        P.sigs.add("drop %s %s" % (t.variant, kind))


def make(rng, name):
    std = rng.choice(["-std=c++14", "-std=c++17", "-std=c++20"])
    vs = rng.sample([v for v in VARIANTS if v != "al32" or std != "-std=c++14"], 4)
    tys = [TrTy(rng.choice([(), ("na",), ("na", "nb")]), "T%d" % i, v, opnew=(not v.startswith("implicit") and v != "al32" and rng.random() < .5), ctors=rng.random() < .7) for i, v in enumerate(vs)]
    hdr = HDR
    cpp = TRACK_RT
    dirs = []
    for t in tys:
        l = t.name.lower()
        hdr += wrap_ns(t.ns, t.decl() + "\n%s mk_%s(uint32_t v); std::unique_ptr<%s> give_%s(uint32_t v); uint32_t take_%s(std::unique_ptr<%s> p); uint32_t peek_%s(const %s& x); std::shared_ptr<%s> shr_%s(std::unique_ptr<%s> p);" % (
            t.name, l, t.name, l, l, t.name, l, t.name, t.name, l, t.name))
        hdr += "class %sFac { public: static %s produce(uint32_t v); };\n" % (t.name, t.cpp)
        cpp += t.defs()
        cpp += "%s %sFac::produce(uint32_t v) { return %s(v); }\n" % (t.cpp, t.name, t.cpp)
        n = lambda p: q(t.ns, p + l)
        cpp += "%s %s(uint32_t v) { return %s(v); }\n" % (t.cpp, n("mk_"), t.cpp)
        cpp += "std::unique_ptr<%s> %s(uint32_t v) { return std::unique_ptr<%s>(new %s(v)); }\n" % (t.cpp, n("give_"), t.cpp, t.cpp)
        cpp += "uint32_t %s(std::unique_ptr<%s> p) { uint32_t v = p->get(); VfL(\"C take\").u(v); p.reset(); return v; }\n" % (n("take_"), t.cpp)
        cpp += "uint32_t %s(const %s& x) { uint32_t v = x.get(); VfL(\"C peek\").u(v); return v; }\n" % (n("peek_"), t.cpp)
        cpp += "std::shared_ptr<%s> %s(std::unique_ptr<%s> p) { return std::shared_ptr<%s>(std::move(p)); }\n" % (t.cpp, n("shr_"), t.cpp, t.cpp)
        dirs += t.directives() + ['generate!("%s")' % n(p) for p in ("mk_", "give_", "take_", "peek_", "shr_")] + ['generate!("%sFac")' % t.name]
    hdr += "struct PP { uint16_t a; uint64_t b; };\nuint64_t peek_pp(const PP& p);\nuint64_t take_pp(std::unique_ptr<PP> p);\n"
    cpp += "uint64_t peek_pp(const PP& p) { return p.a * 7 + p.b; }\nuint64_t take_pp(std::unique_ptr<PP> p) { return p->a * 7 + p->b; }\n"
    dirs += ['generate_pod!("PP")', 'generate!("peek_pp")', 'generate!("take_pp")']
    P = Prog(rng)
    for i in range(70):
        step(P, tys)
        P.report()
        if i % 17 == 0:
            a, b = rng.randrange(1 << 16), rng.randrange(1 << 63)
            P.emit("{ let p = ffi::PP { a: %d, b: %d }.%s(); ev(format!(\"P {} {} {}\", p.a, p.b, ffi::peek_pp(&p))); }" % (a, b, rng.choice(["within_unique_ptr", "within_box"])), ["P %d %d %d" % (a, b, (a * 7 + b) % (1 << 64))])
            P.emit("ev(format!(\"P {}\", ffi::take_pp(ffi::PP { a: %d, b: %d }.within_unique_ptr())));" % (a, b), ["P %d" % ((a * 7 + b) % (1 << 64))])
    while P.live:
        s = P.live.pop(rng.randrange(len(P.live)))
        P.emit("drop(%s);" % s[0], ["OD %s" % s[2].core()] if s[2].opnew and s[1] in ("up", "upin", "shared", "vec", "opt") else [])
        P.report()
    main = RS_ALLOW + "use autocxx::prelude::*;\nuse autocxx::moveit;\nuse autocxx::moveit::Emplace;\ninclude_cpp! {\n#include \"input.h\"\n%s\nsafety!(unsafe_ffi)\n}\n%s\nfn main() { vf::quiet_panics();\n%s\n tr::live(); tr::stats(); }\n" % (
        "\n".join(dirs), TRACK_RS, "\n".join(P.body))
    P.exp.append("L 0")
    return Case(name, hdr, main, cpp, clang_args=[std]), P.exp, sorted(P.sigs)


STAT = re.compile(r"#STATS value=(\d+) copy=(\d+) move=(\d+) dtor=(\d+) use=(\d+)")


def main():
    ck = Check("C04")
    T = build_repo()
    ck.rule = ("one evaluation = one step of an ownership history (create / copy / move / hand over / unwind / drop in some storage) after which "
               "the set of live C++ objects, constructor events and operator new/delete events were compared with the model; distinct = distinct (operation, class shape, storage)")
    n = 20 if ck.quick else 200

    def one(i):
        rng = ck.rng("prog", i)
        case, exp, sigs = make(rng, "c04_%d" % i)
        o = run_case(T, case)
        for l in o.trace:
            m = STAT.match(l)
            if m:
                for k, v in zip(("value_ctors", "copies", "moves", "dtors", "uses"), m.groups()):
                    ck.count(k, int(v))
        o.trace = [l for l in o.trace if not l.startswith("#STATS")]
        ok = judge_trace(ck, case, o, exp, "prog%d" % i)
        for s in sigs:
            ck.evaluated(s)
        ck.evaluated(None, 70 - min(70, len(sigs)))
        ck.count("programs")
        ck.count("events_checked", len(exp))
        if ok and i < 2:
            ck.sample({"steps": sigs[:6], "events": exp[:10]})
        cleanup(case)

    for r in pmap(one, range(n)):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=100)
