"""C20: upcasts and inherited calls act on the right subobject.

Random inheritance graphs (multiple, virtual, repeated bases, non-public bases, abstract classes, namespaces). For every
chain of public base steps the Rust program walks the chain with as_ref() and C++ compares the address it received with
the one its own implicit conversions give; the subobject's identity, state and virtual behaviour are logged and
predicted. rustc is asked about every pair of classes: conversions exist for exactly the public direct bases."""
from .core import *
from .lib import *
from .types import q, wrap_ns


class Cls:
    def __init__(self, i, ns):
        self.i, self.ns, self.name = i, ns, "K%d" % i
        self.bases = []             # (cls, access, virtual)
        self.virt = False           # introduces virtual w<i>
        self.pure = False
        self.over = set()           # indexes of w methods overridden here
        self.listed = True
        self.pod = False
        self.struct = False
        self.vdtor = True
        self.pad = 0
        self.mem = None             # name of a field of type ::Mem

    cpp = property(lambda s: "::" + q(s.ns, s.name))
    rs = property(lambda s: "ffi::" + q(s.ns, s.name))

    def ancestors(self):
        out = []
        for b, _, _ in self.bases:
            out += [b] + b.ancestors()
        return out

    def virtual_ancestors(self):
        out = set()
        for b, _, v in self.bases:
            if v:
                out.add(b)
            out |= b.virtual_ancestors()
        return out

    def polymorphic(self):
        return self.virt or any(b.polymorphic() for b, _, _ in self.bases)

    def visible_w(self):
        """w methods of this class and its ancestors"""
        return sorted({a.i for a in self.ancestors() + [self] if a.virt})

    def final(self, k):
        """class whose body runs for w<k> on an object of dynamic type self, or None when pure (paths are unambiguous by construction)"""
        if k in self.over:
            return self
        if self.i == k:
            return None if self.pure else self
        r = [b.final(k) for b, _, _ in self.bases if any(x.i == k for x in [b] + b.ancestors())]
        return r[0]

    def final_on_path(self, path, k):
        """path: classes from self down to the subobject's class; the w<k> of that subobject"""
        for c in path:
            if k in c.over:
                return c
            if c.i == k:
                return None if c.pure else c
        return path[-1].final(k)

    def abstract(self):
        # pure methods anywhere, on any path, without an overrider between it and here
        def rec(c, above):
            for b, _, _ in c.bases:
                yield from rec(b, above | b.over)
            if c.virt and c.pure and c.i not in above:
                yield c
        return any(True for _ in rec(self, set(self.over)))


class World:
    def __init__(self, rng):
        self.rng = rng
        nss = [(), ("na",), ("na", "nb"), ("nc",)]
        n = rng.randint(6, 11)
        self.cls = []
        pods = rng.random() < 0.3
        for i in range(n):
            c = Cls(i, rng.choice(nss))
            c.pad = rng.choice([0, 0, 1, 3, 7])
            c.struct = rng.random() < 0.4
            if i and rng.random() < 0.85:
                cand = list(self.cls)
                rng.shuffle(cand)
                want = rng.choice([1, 1, 2, 2, 3])
                for b in cand:
                    if len(c.bases) >= want:
                        break
                    mine = [x for x, _, _ in c.bases]
                    if any(b in x.ancestors() or x in b.ancestors() for x in mine):
                        continue
                    acc = rng.choice(["public"] * 8 + ["private", "protected", "default"])
                    if acc in ("private", "default") and b.virtual_ancestors():
                        acc = "public"      # classes further down could not construct the virtual base
                    v = rng.random() < 0.2 and acc in ("public", "protected")
                    c.bases.append((b, acc, v))
            c.virt = rng.random() < 0.6
            c.pure = c.virt and rng.random() < 0.3
            for k in c.visible_w():
                if k != i and rng.random() < 0.4:
                    c.over.add(k)
            # joining classes override everything so that the final overrider is unique
            sh = [set([b] + b.ancestors()) for b, _, _ in c.bases]
            if any(s1 & s2 for x, s1 in enumerate(sh) for s2 in sh[:x]):
                c.over |= {k for k in c.visible_w() if k != i}
            # several paths inside a single base may still lead to the same virtual base: already joined below
            if not c.bases and not c.virt and pods and rng.random() < 0.6:
                c.pod = True
            # bindgen does not report virtual bases (a documented limit of what autocxx can see): nothing pure may arrive through them
            for b, _, v in c.bases:
                if v or any(x for y in [b] + b.ancestors() for _, _, x in y.bases):
                    c.over |= {a.i for a in [b] + b.ancestors() if a.virt}
            self.cls.append(c)
        for c in self.cls:
            if not c.abstract() and rng.random() < 0.12 and not c.pod:
                c.listed = False
        for c in self.cls:
            if rng.random() < 0.3:
                c.mem = rng.choice(["_base_m%d", "_base_m%d", "_based%d", "base%d", "_base_1m%d"]) % c.i
        self.mem = Cls(99, ())
        self.mem.name, self.mem.pod = "Mem", True

    def public(self, c, b, acc):
        return acc == "public" or (acc == "default" and c.struct)

    def steps(self, c):
        return [(b, v) for b, acc, v in c.bases if self.public(c, b, acc)]

    def offered(self, c):
        """bases Rust can convert to"""
        return [b for b, v in self.steps(c) if b.listed and c.listed and not v]

    def chains(self, c, limit=40):
        out = []

        def rec(path):
            for b in self.offered(path[-1]):
                out.append(path + [b])
                rec(path + [b])
        rec([c])
        return out[:limit]

    def decl(self, c):
        bs = []
        for b, acc, v in c.bases:
            t = ([] if acc == "default" else [acc]) + (["virtual"] if v else []) + [b.cpp]
            if len(t) > 1 and v and self.rng.random() < 0.3:
                t[0], t[1] = t[1], t[0]
            bs.append(" ".join(t))
        if c.pod:
            return "struct %s { uint32_t f%d;%s%s };" % (c.name, c.i, " uint8_t g%d;" % c.i if c.pad else "", " Mem %s;" % c.mem if c.mem else "")
        s = "%s %s%s { %s" % ("struct" if c.struct else "class", c.name, " : " + ", ".join(bs) if bs else "", "" if c.struct else "public: ")
        s += "%s(); %s~%s(); uint32_t id%d() const; void put%d(uint32_t v); " % (c.name, "virtual " if c.polymorphic() or self.rng.random() < 0.3 else "", c.name, c.i, c.i)
        for k in c.visible_w():
            if k == c.i:
                s += "virtual uint32_t w%d(uint32_t n) const%s; " % (k, " = 0" if c.pure else "")
            elif k in c.over:
                s += "uint32_t w%d(uint32_t n) const override; " % k
        s += "%suint32_t f%d; uint8_t pad%d[%d];%s };" % ("private: " if self.rng.random() < 0.5 else "", c.i, c.i, c.pad + 1, " Mem %s;" % c.mem if c.mem else "")
        return s

    def defs(self, c):
        if c.pod:
            return ""
        N = c.cpp[2:]
        s = "%s::%s() : f%d(vf_next++) {}\n%s::~%s() {}\nuint32_t %s::id%d() const { return f%d; }\nvoid %s::put%d(uint32_t v) { f%d = v; }\n" % (
            N, c.name, c.i, N, c.name, N, c.i, c.i, N, c.i, c.i)
        for k in c.visible_w():
            if (k == c.i and not c.pure) or k in c.over:
                s += 'uint32_t %s::w%d(uint32_t n) const { VfL("W%d in %d").u(f%d).u(n); return n * 100 + %d; }\n' % (N, k, k, c.i, c.i, c.i)
        return s


def ids(w, c, nxt):
    """Ids given to the subobjects of a new object: {path tuple of class indexes or ('v', i): id}; construction order of C++"""
    out = {}
    cnt = [nxt]

    def build(x, key, virt_done):
        for b, _, v in x.bases:
            if not v:
                build(b, key + (b.i,), True)
        if not x.pod:
            out[key] = cnt[0]
            cnt[0] += 1

    # virtual bases first, depth-first left-to-right
    seen = []

    def virt(x):
        for b, _, v in x.bases:
            virt(b)
            if v and b not in seen:
                seen.append(b)
    virt(c)
    for b in seen:
        build(b, ("v", b.i), True)
    build(c, (c.i,), True)
    return out, cnt[0]


def key_of(c, path):
    """Subobject key for a chain of classes starting at the most derived class c"""
    key = (c.i,)
    for x, y in zip(path, path[1:]):
        v = [vv for b, _, vv in x.bases if b is y][0]
        key = ("v", y.i) if v else key + (y.i,)
    return key


def main():
    ck = Check("C20")
    ck.rule = "one program per random inheritance graph; distinct by the multiset of base-step kinds and chain lengths"
    ck.assumptions += ["bases are non-empty classes and conversions to virtual bases are not required (bindgen reports neither)", "only conversions by shared reference exist (documented)", "class names unique across namespaces"]
    T = build_repo()
    n = 26 if ck.quick else 320

    def one(i):
        rng = ck.rng("prog", i)
        w = World(rng)
        exp, main_rs, h, cc = [], [], ["#pragma once", "#include <cstdint>", "#include <memory>"], [RT_CPP, "static uint32_t vf_next = 1;"]
        dirs = ['generate!("Mem")']
        h.append("struct Mem { uint32_t m; };")
        for c in w.cls:
            h.append(wrap_ns(c.ns, w.decl(c)))
            cc.append(w.defs(c))
            if c.listed:
                dirs.append(('generate_pod!("%s")' if c.pod and rng.random() < 0.7 else 'generate!("%s")') % q(c.ns, c.name))
        nxt = 1
        k = 0
        sig = []
        listed = [c for c in w.cls if c.listed]
        objs = [c for c in listed if not c.abstract()]
        rng.shuffle(objs)
        for c in objs[:6]:
            m, nxt = ids(w, c, nxt)
            state = dict(m)
            how = rng.choice(["unique_ptr", "box", "factory"])
            # chosen statically: the constructor runs when the object is made
            if how == "factory" or c.pod:
                h.append("std::unique_ptr<%s> mk%d();" % (c.cpp, c.i))
                cc.append("std::unique_ptr<%s> mk%d() { return std::unique_ptr<%s>(new %s()); }" % (c.cpp, c.i, c.cpp, c.cpp))
                dirs.append('generate!("mk%d")' % c.i)
                mk = "ffi::mk%d()" % c.i
                mutref = "o.pin_mut()"
            elif how == "unique_ptr":
                mk = "%s::new().within_unique_ptr()" % c.rs
                mutref = "o.pin_mut()"
            else:
                mk = "%s::new().within_box()" % c.rs
                mutref = "o.as_mut()"
            st = ["{ let mut o = %s; ev(\"OBJ %d\");" % (mk, c.i)]
            exp.append("OBJ %d" % c.i)
            chains = w.chains(c)
            rng.shuffle(chains)
            for path in chains[:14]:
                t = path[-1]
                k += 1
                h.append("uint32_t same%d(const %s& d, const %s& b);" % (k, c.cpp, t.cpp))
                walk = "const %s& x0 = d; " % c.cpp + "".join("const %s& x%d = x%d; " % (p.cpp, j + 1, j) for j, p in enumerate(path[1:]))
                cc.append("uint32_t same%d(const %s& d, const %s& b) { %s return &x%d == &b; }" % (k, c.cpp, t.cpp, walk, len(path) - 1))
                dirs.append('generate!("same%d")' % k)
                key = key_of(c, path)
                # mutate through the most derived object sometimes
                if not c.pod and rng.random() < 0.4:
                    nv = rng.randrange(1, 1 << 31)
                    st.append("%s.put%d(%d);" % (mutref, c.i, nv))
                    state[(c.i,)] = nv
                expr = "let d: &%s = &*o;" % c.rs
                walk_rs = "".join("let x%d: &%s = AsRef::<%s>::as_ref(%s);" % (j + 1, p.rs, p.rs, "d" if j == 0 else "x%d" % j) for j, p in enumerate(path[1:]))
                if rng.random() < 0.3:
                    walk_rs = "".join("let x%d: &%s = %s.as_ref();" % (j + 1, p.rs, "d" if j == 0 else "x%d" % j) for j, p in enumerate(path[1:]))
                last = "x%d" % (len(path) - 1)
                st.append("{ %s %s ev(format!(\"SAME %d {}\", ffi::same%d(d, %s)));" % (expr, walk_rs, k, k, last))
                exp.append("SAME %d 1" % k)
                if not t.pod:
                    st.append("ev(format!(\"ID {}\", %s.id%d()));" % (last, t.i))
                    exp.append("ID %d" % state[key])
                for wk in t.visible_w():
                    if not (wk == t.i or wk in t.over):
                        continue
                    f = final_for(c, path, wk)
                    if f is None:
                        continue
                    a = rng.randrange(1000)
                    st.append("ev(format!(\"WR {}\", %s.w%d(%d)));" % (last, wk, a))
                    fid = state_of(c, path, f, state)
                    exp += ["W%d in %d %d %d" % (wk, f.i, fid, a), "WR %d" % (a * 100 + f.i)]
                    ck.count("virtual calls through a base")
                st.append("}")
                kinds = []
                for x, y in zip(path, path[1:]):
                    j = [b for b, _, _ in x.bases].index(y)
                    kinds.append(("virtual" if x.bases[j][2] else "plain") + ("" if j == 0 else "+n"))
                sig.append("/".join(kinds))
                ck.count("casts walked")
                ck.saw("chain shapes", "/".join(kinds))
            st.append("}")
            main_rs += st
        rng.shuffle(dirs)
        main_text = RS_ALLOW + "use autocxx::prelude::*;\ninclude_cpp! {\n#include \"input.h\"\nsafety!(%s)\n%s\n}\n" % (rng.choice(["unsafe", "unsafe_ffi"]), "\n".join(dirs))
        text = main_text + RT_RS + "fn main() {\n%s\n}\n" % "\n".join(main_rs)
        case = Case("g%d" % i, "\n".join(h) + "\n", text, "\n".join(cc))
        try:
            o = run_case(T, case)
            ok = judge_trace(ck, case, o, exp, "upcast")
            if ok:
                pairs, probes, want = [], [], []
                for a in listed + [w.mem]:
                    for b in listed + [w.mem]:
                        if a is b:
                            continue
                        pairs.append((a, b))
                        probes.append("pub fn p%d<'a>(d: &'a %s) -> &'a %s { AsRef::<%s>::as_ref(d) }" % (len(pairs), a.rs, b.rs, b.rs))
                        want.append(None if any(x is b and v for x, v in w.steps(a)) else b in w.offered(a))
                rej, broken = probe(T, case, main_text + "fn main() {}\n", probes)
                if broken:
                    ck.violation("upcast:bindings", "g%d: bindings do not build: %s" % (i, broken[0]), src=case.dir)
                for j, ((a, b), wnt) in enumerate(zip(pairs, want)):
                    got = j not in rej
                    ck.count("conversions offered" if got else "conversions refused")
                    if wnt is not None and got != wnt:
                        ck.violation("upcast:offer:" + ("missing" if wnt else "extra"), "g%d: conversion %s -> %s: %s\n%s" % (
                            i, a.cpp, b.cpp, "should exist (public base)" if wnt else "must not exist (not a public base)", rej.get(j)), src=case.dir)
        except Inconclusive as e:
            ck.note_inconclusive(e)
            return
        finally:
            cleanup(case)
        ck.evaluated(" ".join(sorted(sig)) + " | " + " ".join("%d%s:%s" % (c.i, "pd"[c.polymorphic()], ",".join("%d%s%s" % (b.i, a[:3], "v" if v else "") for b, a, v in c.bases)) for c in w.cls))
        ck.count("events", len(exp))
        ck.count("classes", len(w.cls))
        if i < 2:
            ck.sample("g%d: %d classes, chains %s" % (i, len(w.cls), ", ".join(sorted(set(sig)))[:200]))
    pmap(one, list(range(n)))
    return ck.finish(min_evals=max(1, n // 2))


def final_for(c, path, k):
    """Final overrider of w<k> as called on the subobject at the end of path in an object of class c."""
    # where does the w<k> seen by path[-1] live? follow from path[-1] to class k (first path found)
    t = path[-1]
    full = list(path)
    x = t
    while x.i != k:
        nb = [b for b, _, _ in x.bases if b.i == k or any(a.i == k for a in b.ancestors())]
        x = nb[0]
        full.append(x)
    # a virtual step anywhere makes the subobject shared: the final overrider is that of the most derived class
    for a, b in zip(full, full[1:]):
        if [v for y, _, v in a.bases if y is b][0]:
            return c.final(k)
    return c.final_on_path(full, k)


def state_of(c, path, f, state):
    """Id of the subobject of class f whose override runs: on the path from c to the called subobject, or anywhere when shared."""
    for j in range(1, len(path) + 1):
        if path[j - 1] is f:
            return state[key_of(c, path[:j])]
    full = list(path)
    # below or beside the path: search every route for f
    found = []

    def rec(p):
        if p[-1] is f:
            found.append(state[key_of(c, p)])
        for b, _, _ in p[-1].bases:
            rec(p + [b])
    rec(path)
    if not found:
        rec([c])
    return found[0]
