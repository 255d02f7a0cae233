"""C14: virtual calls from C++ reach the Rust override of that very method; super calls reach the base."""
from .core import *
from .lib import *
from .types import *
from .callgen import HDR, share_helpers

NAMES = ["b", "rc", "r", "me", "x", "arg0", "arg1", "value", "self", "type", "match", "obs", "peer", "fn", "data", "count", "T0", "f_super", "this_", "s", "ret"]
MNAMES = ["go", "Run", "handle_it", "on_event", "compute", "next", "accept", "tick"]


def is_opq(t):
    return isinstance(_b(t), OpqTy)


def _b(t):
    return t.t if isinstance(t, AliasTy) else t


# ---- reverse direction: C++ supplies, Rust receives --------------------------------------------
def cuse(p, rng, w, c):
    """C++ statements/expr to pass one argument; digest; posts [(C++ logging chain, digest)]; c = value written by the callee"""
    x = w.var()
    if isinstance(p, (StrConstRef, StrMutRef)):
        v = p.t.val(rng)
        return Use(["std::string %s = %s;" % (x, p.t.cpp_lit(v))], x, p.t.dig(v), [(p.t.cpp_log(x), p.t.dig(c if isinstance(p, StrMutRef) else v))])
    if isinstance(p, StrVal):
        v = p.t.val(rng)
        return Use([], p.t.cpp_lit(v), p.t.dig(v))
    if isinstance(p, VecConstRef):
        v = [p.t.val(rng) for _ in range(rng.choice([0, 1, 3, 9]))]
        return Use(["std::vector<%s> %s; %s" % (p.t.cpp, x, "".join("%s.push_back(%s);" % (x, p.t.cpp_lit(e)) for e in v))], x,
                   ("%d" % len(v)) + "".join(" " + p.t.dig(e) for e in v))
    if isinstance(p, UPtr):
        if rng.random() < 0.15:
            return Use([], p.cpp + "()", "null")
        v = p.t.val(rng)
        if isinstance(p, SPtr):
            return Use(["%s %s(new %s(%dU));" % (p.cpp, x, p.t.cpp, v)], x, "nonnull " + p.t.dig(v),
                       [(".u(%s->get_id()).u(%s.use_count())" % (x, x), p.t.dig(v) + " 1")])
        return Use([], "%s(new %s(%dU))" % (p.cpp, p.t.cpp, v), "nonnull " + p.t.dig(v))
    if isinstance(p, ConstPtr):
        mut = isinstance(p, MutPtr)
        if rng.random() < 0.15:
            return Use([], "nullptr", "null")
        v = p.t.val(rng)
        return Use(["%s %s = %s;" % (p.t.cpp, x, p.t.cpp_lit(v))], "&" + x, "nonnull " + p.t.dig(v),
                   [(p.t.cpp_log(x), p.t.dig(c if mut else v))])
    if isinstance(p, (ConstRef, MutRef)):
        v = p.t.val(rng)
        return Use(["%s %s = %s;" % (p.t.cpp, x, p.t.cpp_lit(v))], x, p.t.dig(v),
                   [(p.t.cpp_log(x), p.t.dig(c if isinstance(p, MutRef) else v))])
    v = p.t.val(rng)
    if isinstance(p, OpqVal):
        k = rng.randrange(2)
        if k:
            return Use(["%s %s(%dU);" % (p.t.cpp, x, v)], x, p.t.dig(v), [(p.t.cpp_log(x), p.t.dig(v))])
    return Use([], p.t.cpp_lit(v), p.t.dig(v))


def rty(p):
    t = p.t
    if isinstance(p, Void):
        return "()"
    if isinstance(p, StrMutRef):
        return "std::pin::Pin<&mut cxx::CxxString>"
    if isinstance(p, StrConstRef):
        return "&cxx::CxxString"
    if isinstance(p, StrVal):
        return "cxx::UniquePtr<cxx::CxxString>"
    if isinstance(p, VecConstRef):
        return "&cxx::CxxVector<%s>" % t.rs_ty
    if isinstance(p, SPtr):
        return "cxx::SharedPtr<%s>" % t.rs_ty
    if isinstance(p, UPtr) or isinstance(p, OpqVal):
        return "cxx::UniquePtr<%s>" % t.rs_ty
    if isinstance(p, MutPtr):
        return "*mut %s" % t.rs_ty
    if isinstance(p, ConstPtr):
        return "*const %s" % t.rs_ty
    if isinstance(p, MutRef):
        return "std::pin::Pin<&mut %s>" % t.rs_ty
    if isinstance(p, ConstRef):
        return "&%s" % t.rs_ty
    return t.rs_ty


def rdig(p, n):
    t = p.t
    if isinstance(p, StrVal):
        return "vf::hex(%s.as_bytes())" % n
    if isinstance(p, VecConstRef):
        return '{ let mut s = %s.len().to_string(); for e in %s.iter() { s.push(\' \'); s.push_str(&%s); } s }' % (n, n, t.rs_dig("*e"))
    if isinstance(p, SPtr):
        return 'match %s.as_ref() { None => "null".to_string(), Some(q) => format!("nonnull {}", q.get_id()) }' % n
    if isinstance(p, UPtr):
        return 'match %s.as_ref() { None => "null".to_string(), Some(q) => format!("nonnull {}", q.get_id()) }' % n
    if isinstance(p, ConstPtr):
        d = "(*%s).get_id().to_string()" % n if is_opq(t) else t.rs_dig("*" + n)
        return 'if %s.is_null() { "null".to_string() } else { format!("nonnull {}", %s) }' % (n, d)
    if isinstance(p, OpqVal):
        return "%s.get_id().to_string()" % n
    if isinstance(p, (ConstRef, MutRef)):
        return "%s.get_id().to_string()" % n if is_opq(t) else t.rs_dig("*" + n)
    return t.rs_dig(n)


def rbytes(b):
    return "&[%s]" % ", ".join("%du8" % x for x in b)


def rmut(p, n, c):
    t = p.t
    if isinstance(p, StrMutRef):
        return "%s.as_mut().clear(); %s.as_mut().push_bytes(%s);" % (n, n, rbytes(c))
    if isinstance(p, MutPtr):
        if is_opq(t):
            return "if !%s.is_null() { std::pin::Pin::new_unchecked(&mut *%s).set_id(%d); }" % (n, n, c)
        return "if !%s.is_null() { *%s = %s; }" % (n, n, t.rs_lit(c))
    if isinstance(p, MutRef):
        if is_opq(t):
            return "%s.as_mut().set_id(%d);" % (n, c)
        return "*%s.as_mut().get_unchecked_mut() = %s;" % (n, t.rs_lit(c))
    return ""


def rret(p, c):
    t = p.t
    if isinstance(p, Void):
        return ""
    if isinstance(p, StrVal):
        return "{ let mut s = ffi::make_string(\"\"); s.pin_mut().push_bytes(%s); s }" % rbytes(c)
    if isinstance(p, SPtr):
        return "ffi::vf_share_%s(%s.within_unique_ptr())" % (t.name, t.rs_new(c))
    if isinstance(p, (UPtr, OpqVal)):
        return "%s.within_unique_ptr()" % t.rs_new(c)
    if isinstance(p, ConstPtr):
        if is_opq(t):
            return "{ let mut u = %s.within_unique_ptr(); let q = u.pin_mut().get_unchecked_mut() as *mut %s; keep(u); q }" % (t.rs_new(c), t.rs_ty)
        return "{ let mut u = Box::new(%s); let q = &mut *u as *mut %s; keep(u); q }" % (t.rs_lit(c), t.rs_ty)
    return t.rs_lit(c)


def ret_clog(p, n):
    """C++ chain logging a returned value n"""
    if isinstance(p, UPtr):
        return p.t.cpp_log("*" + n)
    if isinstance(p, ConstPtr):
        return p.t.cpp_log("*" + n)
    return p.t.cpp_log(n)


def ret_rdig(p, n):
    if isinstance(p, UPtr):
        return "%s.get_id().to_string()" % n
    if isinstance(p, ConstPtr):
        return "(*%s).get_id().to_string()" % n if is_opq(p.t) else p.t.rs_dig("*" + n)
    return rdig(p, n)


class M:
    """A method of a superclass."""

    def __init__(self, rng, w, fid, cls, name, force=None):
        self.fid, self.cls, self.name = fid, cls, name
        k = rng.random()
        self.kind = force or ("pure" if k < 0.3 else "virt" if k < 0.9 else "plain")
        self.const = rng.random() < 0.5
        self.access = "public" if self.kind == "plain" or rng.random() < 0.75 else rng.choice(["protected"] + (["private"] if self.kind == "pure" else []))
        self.params = [pick_param(rng, w) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5]))]
        self.ret = Void() if rng.random() < 0.2 else pick_ret(rng, w)
        names = rng.sample(NAMES, len(self.params))
        self.pn = names
        self.via = self.access != "public" or (self.kind != "plain" and rng.random() < 0.3)   # called through a non-virtual base method
        self.consts = [p.const(rng) for p in self.params]
        self.retc = self.ret.const(rng)
        self.rust_name = name

    def key(self):
        return (tuple(p.cpp for p in self.params), self.const)

    def sig(self):
        return "%s %s(%s)%s%s" % (self.kind, self.ret.kind, ",".join(p.kind for p in self.params), " const" if self.const else "", "" if self.access == "public" else " " + self.access)

    def proto(self):
        return "%s%s %s(%s)%s%s;" % ("" if self.kind == "plain" else "virtual ", self.ret.cpp, self.name,
                                     ", ".join("%s %s" % (p.cpp, n) for p, n in zip(self.params, self.pn)),
                                     " const" if self.const else "", " = 0" if self.kind == "pure" else "")

    def via_proto(self):
        return "%s call_%s(%s)%s" % (self.ret.cpp, self.fid, ", ".join("%s a%d" % (p.cpp, i) for i, p in enumerate(self.params)), " const" if self.const else "")

    def defs(self):
        out = ""
        if self.kind != "pure":
            pre, stmt = self.ret.cpp_ret(self.retc, self.fid)
            body = '{ VfL vf_l("C %s"); vf_l.u(this->id_);' % self.fid
            for i, p in enumerate(self.params):
                lg = p.cpp_log("a%d" % i)
                body += " " + p.cpp_log_stmt("a%d" % i) if lg is None else " vf_l%s;" % lg
            body += " }"
            for i, p in enumerate(self.params):
                body += " " + p.cpp_mut("a%d" % i, self.consts[i])
            out += "%s\n%s %s::%s(%s)%s { %s %s }\n" % (pre, self.ret.cpp, self.cls.cpp[2:], self.name,
                                                      ", ".join("%s a%d" % (p.cpp, i) for i, p in enumerate(self.params)), " const" if self.const else "", body, stmt)
        if self.via:
            pr = self.via_proto().replace("call_" + self.fid, "%s::call_%s" % (self.cls.cpp[2:], self.fid), 1)
            out += "%s { { VfL vf_l(\"V %s\"); vf_l.u(this->id_); } return this->%s(%s); }\n" % (
                pr, self.fid, self.name, ", ".join("static_cast<%s>(a%d)" % (p.cpp if p.cpp.endswith("&") else p.cpp + "&&", i) for i, p in enumerate(self.params)))
        return out


def pick_param(rng, w):
    return pick_form(rng, w)


def pick_ret(rng, w):
    return pick_form(rng, w, True)


class Base:
    def __init__(self, rng, w, i, ns, nested):
        self.i, self.ns = i, ns
        self.nested = nested
        self.cname = "B%d" % i
        self.outer = "Outer%d" % i if nested else None
        self.cpp = "::" + q(ns + ((self.outer,) if nested else ()), self.cname)
        self.bname = "%s_%s" % (self.outer, self.cname) if nested else self.cname     # name seen by Rust
        self.rs = "ffi::" + q(ns, self.bname)
        self.ctor = rng.choice(["default", "default", "args", "several"])
        self.ms = []
        self.virtual_dtor = rng.random() < 0.85
        self.helper_base = rng.random() < 0.3          # Base itself derives from a plain C++ class, at a non-zero offset
        pool = rng.sample(MNAMES, rng.randint(2, 4))
        for j in range(rng.randint(4, 8)):
            m = M(rng, w, "b%dm%d" % (i, j), self, rng.choice(pool), None if not nested else rng.choice(["virt", "virt", "plain"]))   # abstract nested classes are documented as unsupported
            if any(o.name == m.name and (tuple(same(a) for a in o.params) == tuple(same(a) for a in m.params)) and o.const == m.const for o in self.ms):
                continue
            self.ms.append(m)
        if not any(m.kind == "virt" for m in self.ms):
            self.ms.append(M(rng, w, "b%dmx" % i, self, "extra_one", "virt"))
        # overloads are numbered in declaration order, non-virtual ones first
        seen = {}
        for m in sorted(self.ms, key=lambda m: m.kind != "plain"):
            k = seen.get(m.name, 0)
            m.rust_name = m.name if k == 0 else "%s%d" % (m.name, k)
            seen[m.name] = k + 1

    def decl(self):
        s = ""
        if self.helper_base:
            s += "struct HB%d { uint64_t hb_a; virtual ~HB%d() {} };\n" % (self.i, self.i)
        ctors = {"default": "%s();" % self.cname, "args": "%s(uint32_t id, const std::string& tag);" % self.cname,
                 "several": "%s(); %s(uint32_t id, const std::string& tag);" % (self.cname, self.cname)}[self.ctor]
        body = "public: %s %s~%s();\n uint32_t base_id() const;\n" % (ctors, "virtual " if self.virtual_dtor else "", self.cname)
        for m in self.ms:
            body += " %s: %s\n" % (m.access, m.proto())
        for m in self.ms:
            if m.via:
                body += " public: %s;\n" % m.via_proto()
        cls = "class %s%s { %s private: uint32_t id_; };" % (self.cname, (" : public HB%d" % self.i) if self.helper_base else "", body)
        if self.nested:
            cls = "class %s { public: %s };" % (self.outer, cls)
        return s + cls

    def defs(self):
        c = self.cpp
        s = ""
        if self.ctor in ("default", "several"):
            s += "%s::%s() : id_(vf_next_id++) { VfL(\"ctor b%d\").u(id_); }\n" % (c[2:], self.cname, self.i)
        if self.ctor in ("args", "several"):
            s += "%s::%s(uint32_t id, const std::string& tag) : id_(id) { VfL(\"ctor2 b%d\").u(id_).h(tag); }\n" % (c[2:], self.cname, self.i)
        s += "%s::~%s() { VfL(\"dtor b%d\").u(id_); }\nuint32_t %s::base_id() const { return id_; }\n" % (c[2:], self.cname, self.i, c[2:])
        return s + "".join(m.defs() for m in self.ms)


def same(p):
    """overload identity of a parameter: base type and shape"""
    t = _b(p.t) if p.t else None
    cpp = t.cpp
    # integer spellings which name the same type
    canon = {"int8_t": "signed char", "uint8_t": "unsigned char", "int16_t": "short", "uint16_t": "unsigned short", "int32_t": "int", "uint32_t": "unsigned int",
             "int64_t": "long", "uint64_t": "unsigned long", "size_t": "unsigned long"}
    shape = {"val": "", "oval": ""}.get(p.name, p.name)
    if isinstance(p, StrVal):
        shape = {"strval": "", "strcref": "cref", "strmref": "mref"}[p.name]
    # by-value and by-reference overloads of one type are ambiguous to call
    if shape in ("cref", "mref"):
        shape = ""
    if isinstance(p, (Val,)) and not isinstance(p, OpqVal) and isinstance(t, (IntTy, BoolTy, FloatTy)):
        cpp = "arith"
    return (canon.get(cpp, cpp), shape)


class Sub:
    def __init__(self, rng, base, k, idx):
        self.base, self.name = base, "S%d_%d" % (base.i, k)
        self.mode = {}
        self.c = {}
        self.idx = idx
        for m in base.ms:
            if m.kind == "plain":
                continue
            self.mode[m] = "answer" if m.kind == "pure" else rng.choice(["answer", "forward", "default"])
            self.c[m] = ([p.const(rng) for p in m.params], m.ret.const(rng))

    def rust(self, rng, style):
        b = self.base
        out = ""
        if style == "attr_super":
            out += "#[subclass(superclass(\"%s\"))]\n" % q(b.ns, b.bname)
        else:
            out += "#[subclass]\n"
        out += "pub struct %s { oid: u32, pad: [u64; 3] }\n" % self.name
        out += "impl %s {\n fn make(oid: u32) -> Self { %s { oid, pad: [7; 3], cpp_peer: Default::default() } }\n}\n" % (self.name, self.name)
        # inside a macro: auto-allowlisting (needed for superclass(..) attributes) would take ffi::X::new for a directive
        out += "go! {\nimpl %s_methods for %s {\n" % (b.rs, self.name)
        for m, mode in self.mode.items():
            if mode == "default":
                continue
            unsafe = "unsafe " if any(isinstance(p, ConstPtr) for p in m.params) else ""
            ps = "".join(", mut a%d: %s" % (i, rty(p)) for i, p in enumerate(m.params))
            out += " %sfn %s(&%sself%s)%s {\n" % (unsafe, m.rust_name, "" if m.const else "mut ", ps, "" if isinstance(m.ret, Void) else " -> " + rty(m.ret))
            out += "  unsafe { let mut s = format!(\"O %s {} {}\", self.oid, self.pad[0] + self.pad[2]);\n" % m.fid
            for i, p in enumerate(m.params):
                out += "  s.push(' '); s.push_str(&%s);\n" % rdig(p, "a%d" % i)
            out += "  ev(s);\n"
            consts, retc = self.c[m]
            if mode == "answer":
                for i, p in enumerate(m.params):
                    x = rmut(p, "a%d" % i, consts[i])
                    if x:
                        out += "  %s\n" % x
                out += "  %s }\n }\n" % rret(m.ret, retc)
            else:
                call = "self.%s_super(%s)" % (m.rust_name, ", ".join("a%d" % i for i in range(len(m.params))))
                if isinstance(m.ret, Void):
                    out += "  %s; ev(\"S %s\"); }\n }\n" % (call, m.fid)
                else:
                    out += "  let r = %s; ev(format!(\"S %s {}\", %s)); r }\n }\n" % (call, m.fid, ret_rdig(m.ret, "r"))
        out += "}\n"
        if b.ctor != "default":
            if b.ctor == "args":
                call = "ffi::%sCpp::new(h, self.oid + 5000, &ffi::make_string(\"t{}\"))" % self.name
            else:
                call = "ffi::%sCpp::new1(h, self.oid + 5000, &ffi::make_string(\"t{}\"))" % self.name
            out += ("impl CppPeerConstructor<ffi::%sCpp> for %s { fn make_peer(&mut self, h: CppSubclassRustPeerHolder<Self>) -> cxx::UniquePtr<ffi::%sCpp> {"
                    " unsafe { %s.within_unique_ptr() } } }\n") % (self.name, self.name, self.name, call)
        return out + "}\n"


def make_program(rng, name):
    w = World(rng)
    bases = [Base(rng, w, i, rng.choice(w.nss), rng.random() < 0.2) for i in range(rng.randint(1, 2))]
    subs = []
    for b in bases:
        for k in range(rng.randint(1, 2)):
            subs.append(Sub(rng, b, k, len(subs)))
    sd, sdef, sdir = share_helpers(w)
    hdr = HDR
    for ns, d in w.decls():
        hdr += wrap_ns(ns, d)
    hdr += sd
    for b in bases:
        hdr += wrap_ns(b.ns, b.decl())
    style = rng.choice(["directive", "attr_super"])
    # C++ drivers
    cpp = RT_CPP + "static uint32_t vf_next_id = 100;\n" + w.defs() + sdef + "".join(b.defs() for b in bases)
    hdr += "void vf_step(uint32_t n);\n"
    for b in bases:
        hdr += "void vf_own%d(size_t slot, std::unique_ptr<%s> u);\nvoid vf_ref%d(size_t slot, const %s& r);\nuint32_t vf_same%d(size_t slot, const %s& r);\nvoid vf_free%d(size_t slot);\n" % (
            b.i, b.cpp, b.i, b.cpp, b.i, b.cpp, b.i)
        for l in ("static std::unique_ptr<@C> vf_o@I[16]; static @C* vf_p@I[16];", "void vf_own@I(size_t s, std::unique_ptr<@C> u) { vf_p@I[s] = u.get(); vf_o@I[s] = std::move(u); }",
                  "void vf_ref@I(size_t s, const @C& r) { vf_p@I[s] = const_cast<@C*>(&r); }", "uint32_t vf_same@I(size_t s, const @C& r) { return vf_p@I[s] == &r; }",
                  "void vf_free@I(size_t s) { vf_o@I[s].reset(); }"):
            cpp += l.replace("@C", b.cpp).replace("@I", str(b.i)) + "\n"
    body, exp = [], []
    objs = []        # (sub, slot, oid, base_id, ownership)
    nid = 100
    slots = {b: 0 for b in bases}
    for s in subs:
        for k in range(2):
            b = s.base
            oid = 10 * (s.idx + 1) + k
            slot = slots[b]
            slots[b] += 1
            own = rng.choice(["rust", "cpp"]) if b.virtual_dtor else "rust"
            v = "o%d" % oid
            if b.ctor == "default":
                bid = nid
                nid += 1
                exp.append("ctor b%d %d" % (b.i, bid))
            else:
                bid = oid + 5000
                exp.append("ctor2 b%d %d %s" % (b.i, bid, hexs(b"t{}")))
            if own == "rust":
                body.append("let %s = %s::new_rust_owned(%s::make(%d));" % (v, s.name, s.name, oid))
                body.append("ffi::vf_ref%d(%d, %s.as_ref().borrow().as_ref());" % (b.i, slot, v))
                body.append("ev(format!(\"same {}\", ffi::vf_same%d(%d, &*%s.as_ref().borrow_mut().pin_mut())));" % (b.i, slot, v))
                exp.append("same 1")
            else:
                body.append("let %s = %s::new_cpp_owned(%s::make(%d));" % (v, s.name, s.name, oid))
                up = "%s::as_%s_unique_ptr(%s)" % (s.name, b.bname, v)
                body.append("let %s = %s; ev(format!(\"bid {}\", %s.base_id())); ffi::vf_own%d(%d, %s);" % (v, up, v, b.i, slot, v))
                exp.append("bid %d" % bid)
            objs.append((s, slot, oid, bid, own))
    steps = []
    todo = []
    for o in objs:
        for m in o[0].base.ms:
            todo.append((o, m))
            if rng.random() < 0.5:
                todo.append((o, m))
    rng.shuffle(todo)
    nsteps = 0
    sigs = []
    for (s, slot, oid, bid, own), m in todo:
        b = s.base
        mode = s.mode.get(m, "default")
        wr, retc = (s.c[m] if mode == "answer" else (m.consts, m.retc))
        rust_driver = m.access == "public" and own == "rust" and not m.via and rng.random() < 0.35
        us = [(p.use if rust_driver else (lambda r, ww, c, p=p: cuse(p, r, ww, c)))(rng, w, c) for p, c in zip(m.params, wr)]
        digs = "".join(" " + u.digest for u in us)
        ev = []
        if m.via and not rust_driver:
            ev.append("V %s %d" % (m.fid, bid))
        if mode == "answer":
            ev.append("O %s %d 14%s" % (m.fid, oid, digs))
        else:
            if mode == "forward":
                ev.append("O %s %d 14%s" % (m.fid, oid, digs))
            ev.append("C %s %d%s" % (m.fid, bid, digs))
            if mode == "forward":
                ev.append("S %s%s" % (m.fid, "" if isinstance(m.ret, Void) else " " + m.ret.ret_dig(retc)))
        ev.append("R %s%s" % (m.fid, "" if isinstance(m.ret, Void) else " " + m.ret.ret_dig(retc)))
        sigs.append("%s %s %s %s" % (m.sig(), mode, own, "rs" if rust_driver else "via" if m.via else "cpp"))
        if rust_driver:
            lines = ["{"] + [l for u in us for l in u.pre]
            if m.const:
                recv = "%s.as_ref().borrow().as_ref()" % ("o%d" % oid) if rng.random() < 0.5 else "(*({ let x = %s.as_ref().borrow(); x.as_ref() as *const %s }))" % ("o%d" % oid, b.rs)
            else:
                recv = "std::pin::Pin::new_unchecked(&mut *({ let mut x = %s.as_ref().borrow_mut(); x.pin_mut().get_unchecked_mut() as *mut %s }))" % ("o%d" % oid, b.rs)
            if recv.endswith(".borrow().as_ref()"):
                lines.append("let bo = o%d.as_ref().borrow();" % oid)
                recv = "bo.as_ref()"
            lines.append(m.ret.rs_ret("%s.%s(%s)" % (recv, m.rust_name, ", ".join(u.expr for u in us))).replace("@", m.fid))
            for u in us:
                for e, d in u.post:
                    lines.append('ev(format!("P {}", %s));' % e)
                    ev.append("P " + d)
            lines.append("}")
            body += lines
        else:
            st = "".join(l + " " for u in us for l in u.pre)
            tgt = "call_" + m.fid if m.via else m.name
            recv = rng.choice(["vf_p%d[%d]->", "(*vf_p%d[%d])."]) % (b.i, slot)
            if m.const and rng.random() < 0.7:
                recv = "static_cast<const %s&>(*vf_p%d[%d])." % (b.cpp, b.i, slot)
            elif m.const and any(o.name == m.name and not o.const for o in b.ms):
                recv = "static_cast<const %s&>(*vf_p%d[%d])." % (b.cpp, b.i, slot)
            call = "%s%s(%s)" % (recv, tgt, ", ".join(u.expr for u in us))
            if isinstance(m.ret, Void):
                st += "%s; VfL(\"R %s\");" % (call, m.fid)
            else:
                st += "{ auto&& r = %s; VfL(\"R %s\")%s; }" % (call, m.fid, ret_clog(m.ret, "r"))
            for u in us:
                for e, d in u.post:
                    st += " VfL(\"P\")%s;" % e
                    ev.append("P " + d)
            steps.append("case %d: { %s break; }" % (nsteps, st))
            body.append("ffi::vf_step(%d);" % nsteps)
            nsteps += 1
        exp += ev
    # teardown
    rng.shuffle(objs)
    for s, slot, oid, bid, own in objs:
        if own == "rust":
            body.append("drop(o%d);" % oid)
        else:
            body.append("ffi::vf_free%d(%d);" % (s.base.i, slot))
        exp.append("dtor b%d %d" % (s.base.i, bid))
    cpp += "void vf_step(uint32_t n) { switch (n) {\n%s\n} }\n" % "\n".join(steps)
    dirs = w.directives() + sdir + ['generate!("vf_step")'] + ['generate!("vf_%s%d")' % (x, b.i) for b in bases for x in ("own", "ref", "same", "free")]
    for b in bases:
        if style == "directive" or rng.random() < 0.5:
            dirs.append('generate!("%s")' % q(b.ns, b.bname))
    if style == "directive":
        dirs += ['subclass!("%s", %s)' % (q(s.base.ns, s.base.bname), s.name) for s in subs]
    rng.shuffle(dirs)
    main = (RS_ALLOW + "use autocxx::prelude::*;\nuse autocxx::WithinBox;\nuse autocxx::subclass::prelude::*;\ninclude_cpp! {\n#include \"input.h\"\n%s\n%s\n}\n%s\n"
            "thread_local! { static KEEP: std::cell::RefCell<Vec<Box<dyn std::any::Any>>> = std::cell::RefCell::new(Vec::new()); }\n"
            "fn keep(x: impl std::any::Any) { KEEP.with(|k| k.borrow_mut().push(Box::new(x))) }\n"
            "macro_rules! go { ($($t:tt)*) => { $($t)* } }\n"
            "use %s;\n%s\ngo! { fn main() { unsafe {\n%s\n} } }\n") % (
                rng.choice(["safety!(unsafe_ffi)", "safety!(unsafe)"]), "\n".join(dirs), RT_RS,
                "; use ".join("%s_supers as _" % b.rs for b in bases), "".join(s.rust(rng, style) for s in subs), "\n".join(body))
    if rng.random() < 0.5:
        # declare subclasses ahead of the include_cpp! macro's users: nothing may depend on the order
        pass
    case = Case(name, hdr, main, cpp, clang_args=["-std=" + rng.choice(["c++14", "c++17"])], gen_args=["--auto-allowlist"] if style == "attr_super" else [])
    return case, exp, sigs, len(subs)


def main():
    ck = Check("C14")
    T = build_repo()
    ck.rule = ("one evaluation = one call of a (pure) virtual or plain method on a Rust subclass object, driven from C++ through pointer, reference, owned pointer or a "
               "non-virtual base method, or from Rust through the base binding, in a program compiled with ASan+UBSan; the joint event log (override reached on which object with "
               "which arguments, base implementation reached, value seen by super caller and original caller, arguments after the call) must equal the model's; "
               "distinct = distinct (method shape, override mode, ownership, driver)")
    n = 16 if ck.quick else 150

    def one(i):
        rng = ck.rng("prog", i)
        case, exp, sigs, ns = make_program(rng, "c14_%d" % i)
        o = run_case(T, case)
        ok = judge_trace(ck, case, o, exp, "prog%d" % i)
        for s in sigs:
            ck.evaluated(s)
        ck.count("programs")
        ck.count("subclasses", ns)
        ck.count("events_checked", len(exp))
        if ok and i < 2:
            ck.sample({"calls": sigs[:6], "events": exp[:10]})
        cleanup(case)

    for r in pmap(one, range(n)):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=50)
