"""C03 by-value and rvalue parameters."""
from .core import *
from .track import *
from .types import wrap_ns, q
from .callgen import HDR


class PFn:
    """Function with tracked parameters passed by value or rvalue reference, plus plain ints."""

    def __init__(self, fid, ns, kinds, cls=None, how="free", ret=None):
        # kinds: list of ("val"|"rv"|"int"|"cref", type)
        self.fid, self.ns, self.kinds, self.cls, self.how, self.ret = fid, ns, kinds, cls, how, ret

    def cpp_params(self):
        out = []
        for i, (k, t) in enumerate(self.kinds):
            out.append({"val": "%s a%d", "rv": "%s&& a%d", "cref": "const %s& a%d"}.get(k, "uint32_t a%d") % ((t.cpp, i) if k != "int" else (i,)))
        return ", ".join(out)

    def rtype(self):
        return self.ret.cpp if self.ret else "uint32_t"

    def proto(self, qual=False):
        n = self.fid.lower()
        if self.how == "ctor":
            return "%s%s(%s)" % ((self.cls.qual + "::") if qual else "", self.cls.name, self.cpp_params())
        if self.how in ("method", "cmethod", "static"):
            pre = "static " if self.how == "static" and not qual else ""
            return "%s%s %s%s(%s)%s" % (pre, self.rtype(), (self.cls.qual + "::") if qual else "", n, self.cpp_params(), " const" if self.how == "cmethod" else "")
        return "%s %s(%s)" % (self.rtype(), q(self.ns, n) if qual else n, self.cpp_params())

    def definition(self):
        b = '{ VfL vf_l("C %s");' % self.fid
        for i, (k, t) in enumerate(self.kinds):
            b += " vf_l.u(a%d);" % i if k == "int" else " vf_l.u(a%d.get());" % i
        b += " }"
        echo = None
        for i, (k, t) in enumerate(self.kinds):
            if k in ("val", "rv"):
                if self.ret is t and echo is None:
                    echo = "return %s;" % ("std::move(a%d)" % i)
                elif k == "val":
                    b += " a%d.set(%d);" % (i, 777000 + i)
                elif i % 2 == 0:
                    b += " { %s sink(std::move(a%d)); }" % (t.cpp, i)
        if self.how == "ctor":
            return "%s : id_(1) { %s }\n" % (self.proto(True), b)
        return "%s { %s %s }\n" % (self.proto(True), b, echo or ("return %dU;" % (len(self.kinds) + 100)))


class Holder:
    def __init__(self, name):
        self.name = name
        self.qual = name
        self.fns, self.ctors = [], []

    def decl(self):
        return "class %s { public: %s(); ~%s(); %s %s private: uint32_t id_; };" % (
            self.name, self.name, self.name, " ".join(f.proto() + ";" for f in self.ctors), " ".join(f.proto() + ";" for f in self.fns))

    def defs(self):
        return "%s::%s() : id_(0) {}\n%s::~%s() {}\n" % (self.name, self.name, self.name, self.name) + "".join(f.definition() for f in self.ctors + self.fns)


VALFORMS_COPY = ["up", "box", "ref_up", "ref_box", "refupobj", "refboxobj", "as_copy", "as_mov_up", "as_mov_box", "as_new", "stack_ref", "as_mov_stack"]
VALFORMS_MOVE = ["up", "box", "as_mov_up", "as_mov_box", "as_new", "as_mov_stack"]
VALFORMS_CONLY = [f for f in VALFORMS_COPY if not f.startswith("as_mov")]
RVFORMS = ["up", "box", "moveref"]


def make(rng, name):
    tys = []
    std = rng.choice(["-std=c++14", "-std=c++17", "-std=c++20"])
    # before C++17 the language itself does not align `new` for over-aligned types
    vs = rng.sample([v for v in VARIANTS if v != "al32" or std != "-std=c++14"], 5)
    for i, v in enumerate(vs):
        tys.append(TrTy(rng.choice([(), ("na",), ("na", "nb")]), "T%d" % i, v, opnew=(v in ("cm", "big") and rng.random() < .5)))
    fns = []
    hold = Holder("Hold")
    n = 0
    def rk():
        k = rng.random()
        t = rng.choice(tys)
        if k < 0.55:
            return ("val", t)
        if k < 0.8:
            return ("rv", t)
        if k < 0.9:
            return ("cref", t)
        return ("int", None)
    for i in range(9):
        kinds = [rk() for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5]))]
        cand = [t for k, t in kinds if k in ("val", "rv")]
        ret = rng.choice(cand) if cand and rng.random() < .4 else None
        fns.append(PFn("FN%d" % i, rng.choice([(), ("na",), ("nc",)]), kinds, ret=ret))
    for i in range(4):
        kinds = [rk() for _ in range(rng.choice([1, 2, 3]))]
        cand = [t for k, t in kinds if k in ("val", "rv")]
        hold.fns.append(PFn("ME%d" % i, (), kinds, hold, rng.choice(["method", "cmethod", "static"]), ret=rng.choice(cand) if cand and rng.random() < .4 else None))
    used = set()
    for i in range(2):
        kinds = [rk() for _ in range(rng.choice([1, 2]))]
        key = tuple(t.cpp if t else "int" for k, t in kinds)
        if key in used:
            continue
        used.add(key)
        hold.ctors.append(PFn("CT%d" % i, (), kinds, hold, "ctor"))
    hdr = HDR + "".join(wrap_ns(t.ns, t.decl()) for t in tys) + "".join(wrap_ns(f.ns, f.proto() + ";") for f in fns) + hold.decl() + "\n"
    cpp = TRACK_RT + "".join(t.defs() for t in tys) + "".join(f.definition() for f in fns) + hold.defs()
    dirs = [d for t in tys for d in t.directives()] + ['generate!("%s")' % q(f.ns, f.fid.lower()) for f in fns] + ['generate!("Hold")']
    body, exp, sigs = [], [], set()
    val = [0]

    def newval():
        val[0] += 1
        return 1000 + val[0]

    def arg(kind, t, live, force_null=False):
        """-> pre lines, expr, pre events, value in callee, survivors[(name,value)] after the call"""
        v = newval()
        x = "x%d" % v
        new = "%s::new(%d)" % (t.rs, v)
        if kind == "cref":
            return ["let %s = %s.within_unique_ptr();" % (x, new)], "&*%s" % x, [t.new_event(v)], v, [(x, v)], "cref"
        if kind == "rv":
            f = rng.choice(RVFORMS)
            if f == "up":
                return ["let %s = %s.within_unique_ptr();" % (x, new)], x, [t.new_event(v)], v, [], "rv:up"
            if f == "box":
                return ["let %s = %s.within_box();" % (x, new)], x, [t.new_event(v)], v, [], "rv:box"
            # the stack slot keeps the object until the scope ends, but MoveRef destroys it when dropped
            return ["moveit::moveit! { let %s = %s; }" % (x, new)], x, [t.new_event(v)], v, [], "rv:moveref"
        f = rng.choice(VALFORMS_CONLY if t.variant == "c" else VALFORMS_COPY if t.copy else VALFORMS_MOVE)
        ev_ = [t.new_event(v)]
        if f == "up":
            return ["let %s = %s.within_unique_ptr();" % (x, new)], x, ev_, v, [], "val:up"
        if f == "box":
            return ["let %s = %s.within_box();" % (x, new)], x, ev_, v, [], "val:box"
        if f == "ref_up":
            return ["let %s = %s.within_unique_ptr();" % (x, new)], "&*%s" % x, ev_, v, [(x, v)], "val:&*up"
        if f == "ref_box":
            return ["let %s = %s.within_box();" % (x, new)], "&*%s" % x, ev_, v, [(x, v)], "val:&*box"
        if f == "refupobj":
            return ["let %s = %s.within_unique_ptr();" % (x, new)], "&%s" % x, ev_, v, [(x, v)], "val:&up"
        if f == "refboxobj":
            return ["let %s = %s.within_box();" % (x, new)], "&%s" % x, ev_, v, [(x, v)], "val:&box"
        if f == "as_copy":
            return ["let %s = %s.within_unique_ptr();" % (x, new)], "autocxx::as_copy(%s.as_ref().unwrap())" % x, ev_, v, [(x, v)], "val:as_copy"
        if f == "as_mov_up":
            return ["let %s = %s.within_unique_ptr();" % (x, new)], "autocxx::as_mov(%s)" % x, ev_, v, [], "val:as_mov(up)"
        if f == "as_mov_box":
            return ["let %s = %s.within_box();" % (x, new)], "autocxx::as_mov(%s)" % x, ev_, v, [], "val:as_mov(box)"
        if f == "as_new":
            return [], "autocxx::as_new(%s)" % new, [("NEWARG", t.new_event(v))], v, [], "val:as_new"
        if f == "stack_ref":
            return ["moveit::moveit! { let %s = %s; }" % (x, new)], "&*%s" % x, ev_, v, [(x, v)], "val:&stack"
        if f == "as_mov_stack":
            return ["moveit::moveit! { let %s = %s; }" % (x, new)], "autocxx::as_mov(%s)" % x, ev_, v, [], "val:as_mov(stack)"

    todo = fns * 2 + hold.fns * 2 + hold.ctors * 2
    rng.shuffle(todo)
    keep = []      # long-lived (name, value) objects at outer scope
    for f in todo:
        body.append("{")
        pres, exprs, evs, newargs, vals, surv, lab = [], [], [], [], [], [], []
        nullpos = None
        ok_null = [i for i, (k, t) in enumerate(f.kinds) if k in ("val", "rv")]
        if ok_null and rng.random() < 0.15 and f.how != "ctor":
            nullpos = rng.choice(ok_null)
        for i, (k, t) in enumerate(f.kinds):
            if k == "int":
                v = newval()
                exprs.append(str(v))
                vals.append(v)
                continue
            if i == nullpos:
                pres.append("let null%d: cxx::UniquePtr<%s> = cxx::UniquePtr::null();" % (i, t.rs))
                exprs.append("null%d" % i)
                lab.append(k + ":NULL")
                continue
            p, e, ev_, v, s, l = arg(k, t, None)
            while nullpos is not None and "stack" in l or nullpos is not None and l in ("rv:moveref", "val:as_new", "cref"):
                p, e, ev_, v, s, l = arg(k, t, None) if k != "cref" else (["let x%d = %s::new(%d).within_unique_ptr();" % (val[0], t.rs, 1000 + val[0])], "&*x%d" % val[0], [t.new_event(1000 + val[0])], 1000 + val[0], [("x%d" % val[0], 1000 + val[0])], "cref2")
            pres += p
            exprs.append(e)
            for x in ev_:
                (newargs if isinstance(x, tuple) else evs).append(x[1] if isinstance(x, tuple) else x)
            vals.append(v)
            surv += s
            lab.append(l)
        body += pres
        exp += evs
        alive = sorted([v for _, v in keep] + [v for _, v in surv])
        fnpath = {"free": "ffi::" + q(f.ns, f.fid.lower())}.get(f.how)
        if f.how == "static":
            fnpath = "ffi::Hold::" + f.fid.lower()
        elif f.how in ("method", "cmethod"):
            body.append("let mut h = ffi::Hold::new().within_unique_ptr();")
            fnpath = ("h.pin_mut()." if f.how == "method" else "h.") + f.fid.lower()
        elif f.how == "ctor":
            fnpath = "ffi::Hold::new%d" % (hold.ctors.index(f) + 1)
        call = "%s(%s)" % (fnpath, ", ".join(exprs))
        if nullpos is not None:
            post = "" if not f.ret else ".within_box()"
            body.append("let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { %s let _ = %s%s; }));" % (
                "", call if f.how not in ("method", "cmethod") else call, post))
            # survivors were moved into the closure (move): everything dies with it
            body.append('ev(if r.is_err() { "PANIC" } else { "NOPANIC" });')
            exp.append("PANIC")
            alive = sorted(v for _, v in keep)
        else:
            exp += newargs
            cev = "C %s%s" % (f.fid, "".join(" %d" % v for v in vals))
            if f.how == "ctor":
                body.append("let o = %s.within_unique_ptr();" % call)
                exp.append(cev)
            elif f.ret:
                # first by-value/rvalue parameter of the returned type is echoed back
                ei = [i for i, (k, t) in enumerate(f.kinds) if t is f.ret and k in ("val", "rv")][0]
                rv = vals[ei]
                hk = rng.choice(["within_unique_ptr", "within_box"])
                body.append("let r = %s.%s(); ev(format!(\"R {}\", r.get()));" % (call, hk))
                exp += [cev, "R %d" % rv]
                alive = sorted(alive + [rv])
                surv.append(("r", rv))
                if rng.random() < .3:
                    pass
            else:
                body.append("let r = %s; ev(format!(\"R {}\", r));" % call)
                exp += [cev, "R %d" % (len(f.kinds) + 100)]
            for x, v in surv:
                body.append('ev(format!("S {}", %s.get()));' % x)
                exp.append("S %d" % v)
        body.append("tr::live();")
        exp.append("L %d%s" % (len(alive), "".join(" %d" % v for v in alive)))
        body.append("}")
        body.append("tr::live();")
        k = sorted(v for _, v in keep)
        exp.append("L %d%s" % (len(k), "".join(" %d" % v for v in k)))
        sigs.add("%s %s -> %s | %s" % (f.how, ",".join((k + "<" + t.variant + ">") if t else "int" for k, t in f.kinds), f.ret.variant if f.ret else "u32", ",".join(lab)))
    main = RS_ALLOW + "use autocxx::prelude::*;\nuse autocxx::moveit;\nuse autocxx::WithinBox;\ninclude_cpp! {\n#include \"input.h\"\n%s\nsafety!(unsafe_ffi)\n}\n%s\nfn main() { vf::quiet_panics(); unsafe {\n%s\n} tr::live(); tr::stats(); }\n" % (
        "\n".join(dirs), TRACK_RS, "\n".join(body))
    exp.append("L 0")
    return Case(name, hdr, main, cpp, clang_args=[std]), exp, sorted(sigs)


STAT = re.compile(r"#STATS value=(\d+) copy=(\d+) move=(\d+) dtor=(\d+) use=(\d+)")


def strip_on(lines):
    return [l for l in lines if not l.startswith(("ON ", "OD ", "#STATS"))]


def main():
    ck = Check("C03")
    T = build_repo()
    ck.rule = ("one evaluation = one call history step (a call with by-value/rvalue tracked arguments) whose value, lifetime and "
               "ownership events were checked; distinct = distinct (function shape, type variants, argument-passing forms)")
    n = 20 if ck.quick else 200

    def one(i):
        rng = ck.rng("prog", i)
        case, exp, sigs = make(rng, "c03_%d" % i)
        o = run_case(T, case)
        for l in o.trace:
            m = STAT.match(l)
            if m:
                for k, v in zip(("value_ctors", "copies", "moves", "dtors", "uses"), m.groups()):
                    ck.count(k, int(v))
        o.trace = strip_on(o.trace)
        ok = judge_trace(ck, case, o, exp, "prog%d" % i)
        for s in sigs:
            ck.evaluated(s)
            for l in s.split("| ")[1].split(","):
                ck.saw("forms", l)
        ck.count("programs")
        ck.count("events_checked", len(exp))
        if ok and i < 2:
            ck.sample({"calls": sigs[:5], "events": exp[:8]})
        cleanup(case)

    for r in pmap(one, range(n)):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=50)
