"""C08 unsafety, mutability and lifetimes of the exposed signatures: rustc's verdict on use and misuse of the real bindings."""
from .core import *
from .lib import *
from .types import wrap_ns, q

HDR = "#pragma once\n#include <cstdint>\n#include <cstddef>\n#include <string>\n#include <memory>\n#include <vector>\n"
NSS = [(), ("na",), ("na", "nb")]
# referents: key -> (C++ spelling, Rust spelling); filled per program for the classes
BASIC = {"u": ("uint32_t", "u32"), "i": ("int64_t", "i64"), "d": ("double", "f64"), "s": ("std::string", "cxx::CxxString"), "b": ("bool", "bool")}


class Fn:
    """One C++ function. kind: free | static | const | mut | ctor"""

    def __init__(self, rng, name, kind, owner, classes, ns, virt=False):
        self.name, self.kind, self.owner, self.ns, self.virt = name, kind, owner, ns, virt
        refs = [c for c in classes] + list(BASIC)
        self.params = []            # (form, key)
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3]) if kind != "ctor" else rng.choice([1, 1, 2, 3])):
            form = rng.choice(["cref", "cref", "mref", "mref", "val", "val", "cptr", "mptr"] if rng.random() < .5 else ["cref", "mref", "val", "val"])
            key = rng.choice(refs)
            if form == "val" and key == "b":
                key = "u"
            self.params.append((form, key))
        if kind in ("const", "mut") and rng.random() < .5:
            self.params = [p for p in self.params if p[0] == "val"] if rng.random() < .7 else self.params
        self.ret = None
        if kind != "ctor" and rng.random() < .85:
            form = rng.choice(["cref", "cref", "mref", "mref", "val", "val", "cptr", "mptr", "uptr"])
            key = rng.choice(refs)
            if form == "uptr":
                key = rng.choice(classes)
            self.ret = (form, key)

    def cpp(self, types):
        def sp(form, key):
            t = types[key][0]
            return {"cref": "const %s&", "mref": "%s&", "val": "%s", "cptr": "const %s*", "mptr": "%s*", "uptr": "std::unique_ptr<%s>"}[form] % t
        ps = ", ".join("%s a%d" % (sp(*p), i) for i, p in enumerate(self.params))
        if self.kind == "ctor":
            return "%s(%s);" % (self.owner, ps)
        r = sp(*self.ret) if self.ret else "void"
        return "%s%s%s %s(%s)%s;" % ("static " if self.kind == "static" else "", "virtual " if self.virt else "", r, self.name, ps, " const" if self.kind == "const" else "")

    def refs(self):
        """Reference parameters, receiver first: list of 'c'/'m'."""
        r = {"const": ["c"], "mut": ["m"]}.get(self.kind, [])
        return r + [f[0] for f, _ in self.params if f in ("cref", "mref")]

    def ptr(self):
        return any(f in ("cptr", "mptr") for f, _ in self.params)

    def exposed(self):
        """None: the documented rules do not settle it."""
        r = self.refs()
        if self.ret and self.ret[0] == "cref":
            return len(r) == 1
        if self.ret and self.ret[0] == "mref":
            if r.count("m") != 1:
                return False
            return True if len(r) == 1 else None
        return True

    def sig(self):
        return "%s(%s)->%s" % (self.kind, ",".join("%s %s" % p if p[1] in BASIC else p[0] + " C" for p in self.params), self.ret and (self.ret[0], self.ret[1] in BASIC))


def program(ck, T, i, policy):
    rng = ck.rng("prog", i)
    ns = rng.choice(NSS)
    types = dict(BASIC)
    pods, opaque = ["Pa", "Pb"], ["Xa", "Xb"]
    for c in pods + opaque:
        types[c] = ("::" + q(ns, c), "ffi::" + q(ns, c))
    fns, decls = [], "class Xa; class Xb; struct Pa; struct Pb;\n"
    body = {"Pa": "uint32_t a_; uint8_t b_;", "Pb": "double d_;", "Xa": "std::string s_;", "Xb": "virtual ~Xb(); std::unique_ptr<uint32_t> p_; Xb(const Xb&);"}
    bodies = ""
    for c in pods + opaque:
        ms = []
        for k in range(rng.choice([3, 4, 5])):
            f = Fn(rng, "%s_m%d" % (c.lower(), k), rng.choice(["const", "const", "mut", "mut", "static"]), c, pods + opaque, ns)
            if c in opaque and f.kind in ("const", "mut") and rng.random() < .3:
                f.virt = True
            ms.append(f)
        if c in opaque:
            ms.append(Fn(rng, "new", "ctor", c, pods + opaque, ns))
            p = ms[-1].params
            if p in ([("cref", c)], [("val", c)], [("mref", c)]) or p == [("val", c)]:
                ms[-1].params = [("val", "u")]
            if len(p) >= 1 and p[0] in (("val", c),):
                ms[-1].params[0] = ("val", "u")
        fns += ms
        decls_m = " ".join(f.cpp(types) for f in ms)
        extra = "" if c == "Pa" or c == "Pb" else ""
        bodies += "%s %s { public: %s %s %s };\n" % ("struct" if c in pods else "class", c, extra, decls_m, body[c])
    order = pods + opaque
    decls += bodies
    for k in range(14):
        f = Fn(rng, "fn_%d" % k, "free", None, pods + opaque, ns)
        fns.append(f)
        decls += f.cpp(types) + "\n"
    hdr = HDR + wrap_ns(ns, decls)
    safety = {"none": "", "empty": "safety!()", "unsafe_ffi": "safety!(unsafe_ffi)", "unsafe": "safety!(unsafe)"}[policy]
    safe_policy = policy in ("unsafe", "unsafe_ffi")
    pre = RS_ALLOW + "use autocxx::prelude::*;\nuse std::pin::Pin;\ninclude_cpp! {\n#include \"input.h\"\n%s\n%s\n}\nfn any<T>() -> T { loop {} }\nfn main() {}\n" % (
        "\n".join(['generate_pod!("%s")' % q(ns, c) for c in pods] + ['generate!("%s")' % q(ns, c) for c in opaque] + ['generate!("%s")' % q(ns, f.name) for f in fns if f.kind == "free"]), safety)
    case = Case("c08_%d_%s" % (i, policy), hdr, pre, "")
    write_case(case)
    if run(["clang++", "-std=c++14", "-w", "-fsyntax-only", "-x", "c++", "input.h"], cwd=case.dir).rc != 0:
        raise Inconclusive("c08: harness header rejected by clang")
    o = run_case(T, case, stop_after="gen")
    if not o.ok:
        judge_trace(ck, case, o, [], "prog%d" % i)
        cleanup(case)
        return
    probes, meta = [], []

    def rt(key):
        return types[key][1]

    def add(f, want, what, gens, args, ret, body):
        probes.append("fn p%d%s(%s)%s { %s }" % (len(probes), gens, args, ret, body))
        meta.append((f, want, what))

    for f in fns:
        # build well-formed argument list with one lifetime per reference
        def build(wrong=None, wrong_form=None, lt=True):
            plist, args, lts, k = [], [], [], 0
            recv = None

            def reft(form, key, n):
                l = "'l%d " % n if lt else ""
                return {"cref": "&%s%s", "mref": "Pin<&%smut %s>", "plainmut": "&%smut %s"}[form] % (l, rt(key))
            if f.kind in ("const", "mut"):
                form = "cref" if f.kind == "const" else "mref"
                if wrong == "self":
                    form = wrong_form
                plist.append("mut zelf: " + reft(form, f.owner, k))
                lts.append("'l%d" % k)
                k += 1
            for j, (form, key) in enumerate(f.params):
                if form in ("cref", "mref"):
                    fm = wrong_form if wrong == j else form
                    plist.append("a%d: %s" % (j, reft(fm, key, k)))
                    lts.append("'l%d" % k)
                    k += 1
                    args.append("a%d" % j)
                elif form == "val":
                    if key == "s":
                        args.append('"x"')
                    elif key in BASIC or key in pods:
                        args.append("any::<%s>()" % rt(key))
                    else:
                        args.append("any::<cxx::UniquePtr<%s>>()" % rt(key))
                elif form == "cptr":
                    args.append("any::<*const %s>()" % rt(key))
                else:
                    args.append("any::<*mut %s>()" % rt(key))
            if f.kind == "free":
                call = "ffi::%s(%s)" % (q(f.ns, f.name), ", ".join(args))
            elif f.kind in ("static", "ctor"):
                call = "%s::%s(%s)" % (rt(f.owner), f.name, ", ".join(args))
            else:
                call = "zelf.%s(%s)" % (f.name, ", ".join(args))
            return ("<%s>" % ", ".join(lts) if lts and lt else ""), ", ".join(plist), call
        exp = f.exposed()
        safe = safe_policy and not f.ptr()
        gens, pl, call = build()
        if exp is None:
            # whatever is decided, it may not extend a borrow
            add(f, ("static",), "unsettled-static", gens, pl, " -> Pin<&'static mut %s>" % rt(f.ret[1]), "unsafe { %s }" % call)
            continue
        if not exp:
            add(f, False, "not-exposed-ref", gens, pl, "", "unsafe { let r: &%s = %s; }" % (rt(f.ret[1]), call))
            add(f, False, "not-exposed-pin", gens, pl, "", "unsafe { let r: Pin<&mut %s> = %s; }" % (rt(f.ret[1]), call))
            continue
        add(f, True, "unsafe-call", gens, pl, "", "unsafe { let _ = %s; }" % call)
        add(f, safe, "safe-call", gens, pl, "", "let _ = %s;" % call)
        # mutability of parameters
        for j, form in ([("self", "cref" if f.kind == "const" else "mref")] if f.kind in ("const", "mut") else []) + [(j, p[0]) for j, p in enumerate(f.params) if p[0] in ("cref", "mref")]:
            if form == "mref":
                for wf in ("cref", "plainmut"):
                    g2, pl2, c2 = build(j, wf)
                    add(f, False, "mutable-param-given-" + wf, g2, pl2, "", "unsafe { let _ = %s; }" % c2)
        # returns
        if f.ret and f.ret[0] in ("cref", "mref"):
            form, key = f.ret
            c, m = "&%s%s", "Pin<&%smut %s>"
            lt = "'l0 "
            good = (c if form == "cref" else m) % (lt, rt(key))
            add(f, True, "ref-return-tied", gens, pl, " -> " + good, "unsafe { %s }" % call)
            add(f, False, "ref-return-static", gens, pl, " -> " + good.replace("'l0 ", "'static "), "unsafe { %s }" % call)
            if form == "cref":
                add(f, False, "const-return-as-mut", gens, pl, "", "unsafe { let r: Pin<&mut %s> = %s; }" % (rt(key), call))
                add(f, False, "const-return-as-plain-mut", gens, pl, "", "unsafe { let r: &mut %s = %s; }" % (rt(key), call))
            elif key not in BASIC and key not in pods or key == "s":
                add(f, False, "mut-return-as-plain-mut", gens, pl, "", "unsafe { let r: &mut %s = %s; }" % (rt(key), call))
            # the borrow is of the argument that was given: while the result lives, a mutable source cannot be reborrowed
            if f.refs() == ["m"] and f.kind == "mut":
                add(f, False, "result-and-reborrow", gens, pl, "", "unsafe { let r = zelf.as_mut().%s; let o = zelf.as_mut(); let _k = (&r, &o); }" % call.split(".", 1)[1])
                add(f, True, "result-then-reborrow", gens, pl, "", "unsafe { { let r = zelf.as_mut().%s; let _k = &r; } let o = zelf.as_mut(); }" % call.split(".", 1)[1])
        elif f.ret and f.ret[0] in ("cptr", "mptr"):
            add(f, True, "pointer-return", gens, pl, "", "unsafe { let r: *%s %s = %s; }" % ("const" if f.ret[0] == "cptr" else "mut", rt(f.ret[1]), call))
            if f.ret[0] == "cptr":
                add(f, False, "const-pointer-return-as-mut", gens, pl, "", "unsafe { let r: *mut %s = %s; }" % (rt(f.ret[1]), call))
        elif (f.kind == "ctor" or (f.ret and f.ret[0] == "val" and f.ret[1] in opaque)) and f.refs():
            out = rt(f.owner if f.kind == "ctor" else f.ret[1])
            add(f, False, "emplacer-static", gens, pl, " -> impl autocxx::moveit::New<Output = %s> + 'static" % out, "unsafe { %s }" % call)
            if len(f.refs()) == 1:
                add(f, True, "emplacer-tied", gens, pl, " -> impl autocxx::moveit::New<Output = %s> + 'l0" % out, "unsafe { %s }" % call)
    rej, broken = probe(T, case, pre, probes)
    if broken:
        ck.violation("prog%d:rustc" % i, "the generated Rust does not build: %s" % broken[0], src=case.dir)
        cleanup(case)
        return
    for k, (f, want, what) in enumerate(meta):
        acc = k not in rej
        if isinstance(want, tuple):
            want = False
        ck.evaluated("%s|%s|%s" % (policy, what, f.sig()))
        ck.count("%s:%s" % (what, "accepted" if acc else "rejected"))
        if not acc:
            ck.saw("rustc_codes", rej[k][0])
        if acc != want:
            ck.violation("prog%d:%s" % (i, what), "policy %s, %s: rustc %s `%s`%s\nC++: %s" % (
                policy, what, "accepts" if acc else "rejects", probes[k], "" if acc else " -- %s %s" % rej[k], f.cpp(types)), src=case.dir)
        elif not acc and what in ("safe-call",) and rej[k][0] != "E0133":
            ck.violation("prog%d:%s" % (i, what), "safe call rejected for an unexpected reason %s: %s\n%s" % (rej[k][0], rej[k][1], f.cpp(types)), src=case.dir)
        elif not acc and what.endswith("-static") and what != "unsettled-static" and "lifetime" not in rej[k][1] and rej[k][0] not in ("E0310", "E0621", "E0700", "E0515", "E0521"):
            ck.violation("prog%d:%s" % (i, what), "lifetime misuse rejected for an unexpected reason %s: %s\n%s" % (rej[k][0], rej[k][1], f.cpp(types)), src=case.dir)
    cleanup(case)


def main():
    ck = Check("C08")
    T = build_repo()
    ck.rule = ("one evaluation = one call or misuse of a real binding (safe/unsafe call, wrong mutability, over-long lifetime) whose acceptance by rustc was compared with what "
               "the safety policy and the C++ signature imply; distinct = policy x probe kind x signature shape")
    n = 24 if ck.quick else 200
    pol = ["none", "unsafe_ffi", "unsafe", "unsafe_ffi", "empty", "unsafe"]
    for r in pmap(lambda i: program(ck, T, i, pol[i % len(pol)]), range(n)):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=500)
