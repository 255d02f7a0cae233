"""Generates programs full of functions and methods with random signatures; both languages log,
the model predicts the exact event history (C01, also reused by others)."""
from .lib import *
from .types import *
from .core import Case


# names of parameters in the declarations: Rust keywords, names generated code might use for its own locals, names of Rust items
PNAMES = ["type", "fn", "match", "impl", "in", "ref", "mod", "move", "loop", "use", "crate", "super", "self", "dyn", "where", "as", "let", "mut", "pub", "trait", "unsafe",
          "async", "await", "box", "arg0", "arg1", "arg2", "space0", "space1", "ptr0", "ptr1", "placement_return_type", "return_type", "ret", "this_", "self_", "uninit", "result", "me", "peer",
          "String", "Vec", "Option", "std", "cxx", "autocxx", "ffi", "bindgen", "root", "output", "Pin", "Box", "param0", "params", "u8", "str", "usize", "value", "x"]


class Fn:
    def __init__(self, fid, ns, name, params, ret, cls=None, static=False, const=False, virtual=False, inline=False):
        self.fid, self.ns, self.name, self.params, self.ret = fid, ns, name, params, ret
        self.cls, self.static, self.const, self.virtual, self.inline = cls, static, const, virtual, inline
        self.consts = None
        self.retc = None
        self.rust_name = name

    def choose(self, rng):
        self.consts = [p.const(rng) if isinstance(p, (MutRef, MutPtr, StrMutRef)) else None for p in self.params]
        self.retc = self.ret.const(rng)
        self.pnames = [""] * len(self.params)
        how = rng.random()
        if how < 0.4:
            self.pnames = rng.sample(PNAMES, len(self.params))
            if "self" in self.pnames and "self_" in self.pnames:      # (the first is renamed to the second: a known finding of C10)
                self.pnames[self.pnames.index("self_")] = "selfish"
        elif how < 0.85:
            self.pnames = ["a%d" % i for i in range(len(self.params))]

    def sig(self):
        return "%s(%s)%s%s" % (self.ret.kind, ",".join(p.kind for p in self.params), " const" if self.const else "",
                               " static" if self.static else " virtual" if self.virtual else " method" if self.cls else "")

    def proto(self, qualified=False, named=True):
        n = self.name
        if qualified:
            n = q(self.ns + ((self.cls.name,) if self.cls else ()), n)
        s = "%s %s(%s)" % (self.ret.cpp, n, ", ".join(("%s %s" % (p.cpp, "a%d" % i if qualified else self.pnames[i])).rstrip() for i, p in enumerate(self.params)))
        if not qualified:
            if self.static:
                s = "static " + s
            if self.virtual:
                s = "virtual " + s
        if self.const:
            s += " const"
        return s

    def definition(self):
        pre_ret, stmt = self.ret.cpp_ret(self.retc, self.fid)
        body = '{ VfL vf_l("C %s");' % self.fid
        if self.cls and not self.static:
            body += " vf_l.u(this->id_);"
        for i, p in enumerate(self.params):
            lg = p.cpp_log("a%d" % i)
            if lg is None:
                body += " " + p.cpp_log_stmt("a%d" % i)
            else:
                body += " vf_l%s;" % lg
        body += " }"
        for i, p in enumerate(self.params):
            body += " " + p.cpp_mut("a%d" % i, self.consts[i])
        return "%s\n%s { %s %s }\n" % (pre_ret, self.proto(True), body, stmt)

    def call(self, rng, w, recv=None):
        """-> (rust lines, expected trace lines). recv: (expr_shared, expr_mut, id)"""
        pre, exprs, digs, posts = [], [], [], []
        for p, c in zip(self.params, self.consts):
            u = p.use(rng, w, c)
            pre += u.pre
            exprs.append(u.expr)
            digs.append(u.digest)
            posts += u.post
        if self.cls and not self.static:
            target = "%s.%s" % (recv[0] if self.const else recv[1], self.rust_name)
        elif self.cls:
            target = "ffi::%s::%s" % (self.cls.qual, self.rust_name)
        else:
            target = "ffi::%s" % q(self.ns, self.rust_name)
        callx = "%s(%s)" % (target, ", ".join(exprs))
        lines = ["{"] + pre + [self.ret.rs_ret(callx).replace("@", self.fid)]
        exp = ["C %s%s%s" % (self.fid, (" %d" % recv[2]) if recv and self.cls and not self.static else "", "".join(" " + d for d in digs))]
        rd = self.ret.ret_dig(self.retc)
        exp.append(("R %s %s" % (self.fid, rd)) if self.ret.cpp != "void" else "R %s" % self.fid)
        for e, d in posts:
            lines.append('ev(format!("P {}", %s));' % e)
            exp.append("P %s" % d)
        lines.append("}")
        return lines, exp


class Cls:
    """A class with random methods; receiver identity is its id."""

    def __init__(self, rng, ns, name, w, fid0, n_methods):
        self.ns, self.name = ns, name
        self.qual = q(ns, name)
        self.cpp = "::" + self.qual
        self.fns = []
        self.pod = False
        for i in range(n_methods):
            k = rng.random()
            static, virtual = k < 0.2, 0.2 <= k < 0.4
            const = (not static) and rng.random() < 0.5
            f = Fn("%s_m%d" % (fid0, i), ns, "m%d_%s" % (i, rng.choice(["get", "put", "run", "Calc", "doIt"])),
                   [pick_form(rng, w) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))],
                   pick_form(rng, w, True) if rng.random() < 0.7 else Void(), self, static, const, virtual)
            f.choose(rng)
            self.fns.append(f)
        self.has_virtual = any(f.virtual for f in self.fns)
        self.extra = []        # further member declarations (strings), put at random places
        self.order = None

    def decl(self):
        return "class %s { public: %s(uint32_t id); %s~%s();\n%s\nprivate: uint32_t id_; };" % (
            self.name, self.name, "virtual " if self.has_virtual else "", self.name,
            "\n".join(self.order or ["  %s;" % f.proto() for f in self.fns]))

    def defs(self):
        return "%s::%s(uint32_t id) : id_(id) {}\n%s::~%s() {}\n" % (self.qual, self.name, self.qual, self.name) + \
            "".join(f.definition() for f in self.fns)


def share_helpers(w):
    decl = "".join("std::shared_ptr<%s> vf_share_%s(std::unique_ptr<%s> u);\n" % (t.cpp, t.name, t.cpp) for t in w.opqs)
    defs = "".join("std::shared_ptr<%s> vf_share_%s(std::unique_ptr<%s> u) { return std::move(u); }\n" % (t.cpp, t.name, t.cpp) for t in w.opqs)
    return decl, defs, ['generate!("vf_share_%s")' % t.name for t in w.opqs]


HDR = "#pragma once\n#include <cstdint>\n#include <cstddef>\n#include <string>\n#include <memory>\n#include <vector>\n"


def make_call_program(rng, name, n_free=14, n_cls=3, calls=2, std=None, hdr=HDR, extra=None, extra_dirs=(), extra_cpp="", cls_hook=None):
    """extra: [(namespace, declarations)] mixed in among the others; cls_hook(cls): called before a class is written."""
    w = World(rng)
    fns, clss = [], []
    for i in range(n_free):
        ns = rng.choice(w.nss)
        f = Fn("F%d" % i, ns, "f%d_%s" % (i, rng.choice(["go", "Make", "take_it", "x"])),
               [pick_form(rng, w) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 9]))],
               pick_form(rng, w, True) if rng.random() < 0.75 else Void())
        f.choose(rng)
        fns.append(f)
    for i in range(n_cls):
        clss.append(Cls(rng, rng.choice(w.nss), "K%d" % i, w, "K%d" % i, rng.randint(3, 7)))
        if cls_hook:
            cls_hook(clss[-1])
    sd, sdef, sdir = share_helpers(w)
    for ns, d in w.decls():
        hdr += wrap_ns(ns, d)
    hdr += sd
    items = [(f.ns, f.proto() + ";") for f in fns] + [(c.ns, c.decl()) for c in clss]
    items += extra or []
    rng.shuffle(items)
    for ns, d in items:
        hdr += wrap_ns(ns, d)
    cpp = extra_cpp + RT_CPP + w.defs() + sdef + "".join(f.definition() for f in fns) + "".join(c.defs() for c in clss)
    dirs = w.directives() + sdir + ['generate!("%s")' % q(f.ns, f.name) for f in fns] + ['generate!("%s")' % c.qual for c in clss] + list(extra_dirs)
    rng.shuffle(dirs)
    safety = rng.choice(["safety!(unsafe_ffi)", "safety!(unsafe)", ""])
    body, exp = [], []
    todo = []
    for f in fns:
        for _ in range(calls):
            todo.append((f, None))
    for c in clss:
        for f in c.fns:
            for _ in range(calls):
                todo.append((f, c))
    rng.shuffle(todo)
    # two live receivers per class so that receiver mix-ups show
    for c in clss:
        for k in range(2):
            body.append("let mut o_%s_%d = ffi::%s::new(%d).%s;" % (c.name, k, c.qual, 1000 * (clss.index(c) + 1) + k,
                        "within_unique_ptr()" if k == 0 else "within_box()"))
    for f, c in todo:
        recv = None
        if c is not None:
            k = rng.randrange(2)
            o = "o_%s_%d" % (c.name, k)
            recv = (o, (o + ".pin_mut()") if k == 0 else (o + ".as_mut()"), 1000 * (clss.index(c) + 1) + k)
        l, e = f.call(rng, w, recv)
        body += l
        exp += e
    main = RS_ALLOW + "use autocxx::prelude::*;\nuse autocxx::WithinBox;\ninclude_cpp! {\n#include \"input.h\"\n%s\n%s\n}\n%s\nfn main() { unsafe {\n%s\n} }\n" % (
        safety, "\n".join(dirs), RT_RS, "\n".join(body))
    case = Case(name, hdr, main, cpp, clang_args=["-std=" + (std or rng.choice(["c++14", "c++17"]))])
    sigs = [f.sig() for f in fns] + [f.sig() for c in clss for f in c.fns]
    kinds = set()
    for f in fns + [f for c in clss for f in c.fns]:
        kinds.add("ret " + f.ret.kind)
        for p in f.params:
            kinds.add("arg " + p.kind)
    return case, exp, sigs, kinds
