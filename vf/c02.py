"""C02 naming: overloads, namespaces, nested names, keywords."""
from .core import *
from .callgen import *

KEYWORDS = ["move", "type", "fn", "impl", "match", "loop", "ref", "in", "let", "mod", "mut", "pub", "trait", "use", "where",
            "as", "async", "await", "dyn", "unsafe", "yield", "box", "macro", "abstract", "become", "final", "override", "priv", "unsized"]
PLAIN = ["get", "put", "run", "value", "Make", "do_it", "size", "drop", "cloned", "from", "into", "as_ref", "eq", "len"]
# types whose C++ canonical forms all differ
DISTINCT = ["bool", "int8_t", "uint8_t", "int16_t", "uint16_t", "int", "unsigned int", "long", "unsigned long", "long long",
            "unsigned long long", "float", "double"]


def dty(name):
    if name == "bool":
        return BoolTy()
    if name in ("float", "double"):
        return FloatTy(name == "double")
    return INTS[name]


def sig_params(rng, w, used):
    for _ in range(200):
        n = rng.choice([0, 1, 1, 1, 2, 2, 3])
        ps = []
        for _ in range(n):
            k = rng.random()
            if k < 0.15 and w.strings:
                ps.append(StrVal())         # (needs a C++ wrapper)
            elif k < 0.7:
                ps.append(Val(dty(rng.choice(DISTINCT))))
            elif k < 0.8 and w.enums:
                ps.append(Val(rng.choice(w.enums)))
            elif k < 0.9 and w.pods:
                ps.append(Val(rng.choice(w.pods)))
            else:
                ps.append(ConstRef(rng.choice(w.opqs)))
        key = tuple(p.cpp for p in ps)
        if key not in used:
            used.add(key)
            return ps
    return None


class NCls:
    """Class with overloaded constructors and methods, maybe nested types."""

    def __init__(self, rng, w, ns, path, cid, depth=0):
        self.ns, self.path, self.cid = ns, path, cid
        self.name = path[-1]
        self.rust = "_".join(path)
        self.qual_cpp = q(ns, "::".join(path))
        self.qual = q(ns, self.rust)          # rust path (used by Fn)
        self.pod = False
        self.ctors, self.fns, self.nested = [], [], []
        used = {()} if rng.random() < 0.3 else set()
        # exclude a single-parameter const ref to itself: not in w, so fine
        for i in range(rng.randint(1, 4)):
            ps = sig_params(rng, w, used)
            self.ctors.append(ps)
        names = rng.sample(PLAIN[:7], 3) + rng.sample(KEYWORDS, 2)
        for nm in names:
            used = set()
            cnt = 0
            for j in range(rng.choice([1, 1, 2, 3, 4])):
                ps = sig_params(rng, w, used)
                const = rng.random() < 0.5
                static = rng.random() < 0.25
                f = NFn("%s_%s_%d" % (cid, nm, j), ns, nm, ps, rng.choice([StrVal() if w.strings else Void(), Val(dty(rng.choice(DISTINCT))), Val(dty(rng.choice(DISTINCT))), Void(), Void()]), self, static, const and not static)
                f.rust_name = kw(nm) + (str(cnt) if cnt else "")
                cnt += 1
                f.choose(rng)
                self.fns.append(f)
                # a const/non-const pair with the same parameters
                if not static and rng.random() < 0.2:
                    g = NFn("%s_%s_%dc" % (cid, nm, j), ns, nm, ps, f.ret, self, False, not const)
                    g.rust_name = kw(nm) + str(cnt)
                    cnt += 1
                    g.choose(rng)
                    self.fns.append(g)
        if depth < 2 and rng.random() < (0.7 if depth == 0 else 0.3):
            self.nested.append(NCls(rng, w, ns, path + ([rng.choice(["Inner", "Item"]), rng.choice(["Deep", "get_t"])][depth],), cid + "n", depth + 1))

    def all(self):
        return [self] + [x for n in self.nested for x in n.all()]

    def decl(self):
        s = "struct %s {\n" % self.name
        for n in self.nested:
            s += n.decl() + "\n"
        s += "".join("  %s(%s);\n" % (self.name, ", ".join("%s a%d" % (p.cpp, i) for i, p in enumerate(ps))) for ps in self.ctors)
        s += "  ~%s();\n" % self.name
        s += "".join("  %s;\n" % f.proto() for f in self.fns)
        return s + "  uint32_t id_;\n};"

    def defs(self):
        s = ""
        for i, ps in enumerate(self.ctors):
            body = 'VfL vf_l("N %s_%d");' % (self.cid, i)
            for k, p in enumerate(ps):
                body += " vf_l%s;" % p.cpp_log("a%d" % k)
            s += "%s::%s(%s) : id_(%d) { %s }\n" % (self.qual_cpp, self.name, ", ".join("%s a%d" % (p.cpp, k) for k, p in enumerate(ps)), i + 1, body)
        s += "%s::~%s() {}\n" % (self.qual_cpp, self.name)
        s += "".join(f.definition() for f in self.fns)
        for n in self.nested:
            s += n.defs()
        return s


class NFn(Fn):
    def proto(self, qualified=False, named=True):
        n = self.name
        if qualified:
            n = (self.cls.qual_cpp + "::" + n) if self.cls else q(self.ns, n)
        s = "%s %s(%s)" % (self.ret.cpp, n, ", ".join("%s a%d" % (p.cpp, i) for i, p in enumerate(self.params)))
        if not qualified and self.static:
            s = "static " + s
        return s + (" const" if self.const else "")


def kw(n):
    return n + "_" if n in KEYWORDS else n


def make(rng, name):
    nss = [(), ("na",), ("na", "nb"), ("nc",), ("nc", "na")]
    mode = rng.randrange(3)
    w = World(rng, nss=nss, n_pod=2, n_opq=2, n_enum=2)
    w.strings = mode != 0       # generate_all! and standard headers do not go together
    if mode == 0:
        for o in w.opqs:
            o.shape = rng.choice(["plain", "virt"])
    fns, clss = [], []
    shared = rng.sample(PLAIN, 3) + rng.sample(KEYWORDS, 2)
    fid = 0
    order = []
    for ns in nss:
        names = rng.sample(shared, rng.randint(2, 4))
        groups = {}
        for nm in names:
            used = set()
            for j in range(rng.choice([1, 1, 2, 3, 5, 11 if rng.random() < .2 else 2])):
                ps = sig_params(rng, w, used)
                if ps is None:
                    break
                f = NFn("F%d" % fid, ns, nm, ps, Val(dty(rng.choice(DISTINCT))) if rng.random() < .5 else Void())
                fid += 1
                f.choose(rng)
                groups.setdefault(nm, []).append(f)
        # interleave the declarations of the different names
        seq = [f for g in groups.values() for f in g]
        rng.shuffle(seq)
        cnt = {}
        for f in seq:
            k = cnt.get(f.name, 0)
            f.rust_name = kw(f.name) + (str(k) if k else "")
            f.dir_name = f.name + (str(k) if k else "")
            cnt[f.name] = k + 1
        fns += seq
        for cn in rng.sample(["Widget", "Thing", "Node"], rng.randint(0, 2)):
            cn += str(len(clss))  # type names must be unique across namespaces (documented limitation)
            clss.append(NCls(rng, w, ns, (cn,), "K%d" % len(clss)))
    hdr = HDR if mode else "#pragma once\n#include <cstdint>\n#include <stddef.h>\n"
    for ns, d in w.decls():
        hdr += wrap_ns(ns, d)
    items = [(f.ns, f.proto() + ";") for f in fns]
    for c in clss:
        items.insert(rng.randint(0, len(items)), (c.ns, c.decl()))
    for ns, d in items:
        hdr += wrap_ns(ns, d)
    cpp = RT_CPP + w.defs() + "".join(f.definition() for f in fns) + "".join(c.defs() for c in clss)
    if mode == 0:
        dirs = ["generate_all!()"] + ['pod!("%s")' % p.qual for p in w.pods]
    elif mode == 1:
        dirs = w.directives() + sorted({'generate!("%s")' % q(f.ns, f.dir_name) for f in fns}) + [
            'generate!("%s")' % x.qual_cpp if len(x.path) == 1 else 'generate!("%s")' % q(x.ns, "_".join(x.path)) for c in clss for x in c.all()]
        rng.shuffle(dirs)
    else:
        dirs = w.directives() + ['generate_ns!("na")', 'generate_ns!("nc")'] + sorted(
            {'generate!("%s")' % q(f.ns, f.dir_name) for f in fns if f.ns == ()}) + [
            'generate!("%s")' % q(x.ns, "_".join(x.path)) for c in clss if c.ns == () for x in c.all()]
    body, exp, sigs = [], [], []
    body_items = []
    for c in clss:
        for x in c.all():
            for i, ps in enumerate(x.ctors):
                l, e = ["{"], []
                us = [p.use(rng, w, None) for p in ps]
                for u in us:
                    l += u.pre
                l.append("let mut o = ffi::%s::%s(%s).within_unique_ptr();" % (x.qual, "new" + (str(i) if i else ""), ", ".join(u.expr for u in us)))
                e.append("N %s_%d%s" % (x.cid, i, "".join(" " + u.digest for u in us)))
                sel = x.fns if i == 0 else rng.sample(x.fns, min(2, len(x.fns)))
                for f in sel:
                    fl, fe = f.call(rng, w, ("o", "o.pin_mut()", i + 1))
                    l += fl
                    e += fe
                l.append("}")
                body_items.append((l, e))
    for f in fns:
        body_items.append(f.call(rng, w))
    rng.shuffle(body_items)
    for l, e in body_items:
        body += l
        exp += e
    for f in fns:
        sigs.append("fn ns%d %s x%s" % (len(f.ns), "kw" if f.name in KEYWORDS else f.name, f.rust_name[len(f.name):]) + ",".join(p.kind for p in f.params))
    for c in clss:
        for x in c.all():
            sigs.append("ctors d%d %d" % (len(x.path), len(x.ctors)))
            for f in x.fns:
                sigs.append("m d%d %s%s %s %s" % (len(x.path), f.rust_name, f.const, f.static, ",".join(p.kind for p in f.params)))
    main = RS_ALLOW + "use autocxx::prelude::*;\ninclude_cpp! {\n#include \"input.h\"\n%s\n%s\n}\n%s\nfn main() { unsafe {\n%s\n} }\n" % (
        rng.choice(["safety!(unsafe_ffi)", ""]), "\n".join(dirs), RT_RS, "\n".join(body))
    return Case(name, hdr, main, cpp), exp, sigs, ["all", "generate", "ns"][mode]


def main():
    ck = Check("C02")
    T = build_repo()
    ck.rule = ("one evaluation = one overload, constructor or nested-class member called under its predicted Rust name; the C++ "
               "side logs which overload ran. distinct = distinct (kind, nesting, name, overload index, parameter types)")
    n = 20 if ck.quick else 180

    def one(i):
        rng = ck.rng("prog", i)
        case, exp, sigs, mode = make(rng, "c02_%d" % i)
        o = run_case(T, case)
        ok = judge_trace(ck, case, o, exp, "prog%d" % i)
        for s in sigs:
            ck.evaluated(s)
        ck.saw("modes", mode)
        ck.count("programs")
        ck.count("events_checked", len(exp))
        if ok and i < 2:
            ck.sample({"names": sigs[:8], "events": exp[:5]})
        cleanup(case)

    for r in pmap(one, range(n)):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=50)
