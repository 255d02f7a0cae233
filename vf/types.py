"""Parameter/return types the bindings are documented to support, with everything needed to
write the C++ callee, the Rust caller and to predict the events."""
from .lib import *


class World:
    """User-defined types of one program, spread over namespaces."""

    def __init__(self, rng, nss=None, n_pod=3, n_opq=3, n_enum=3):
        self.rng = rng
        self.nss = nss or [(), ("na",), ("na", "nb"), ("nc",)]
        self.pods, self.opqs, self.enums, self.aliases = [], [], [], []
        self.uid = 0
        for i in range(n_enum):
            self.enums.append(EnumTy(rng, rng.choice(self.nss), "E%d" % i))
        for i in range(n_pod):
            self.pods.append(PodTy(rng, rng.choice(self.nss), "P%d" % i, self.enums))
        for i in range(n_opq):
            self.opqs.append(OpqTy(rng, rng.choice(self.nss), "T%d" % i))

    def decls(self):
        """[(ns, text)] for the header."""
        out = []
        for e in self.enums + self.pods + self.opqs + self.aliases:
            out.append((e.ns, e.decl()))
        return out

    def defs(self):
        return "\n".join(o.defs() for o in self.opqs)

    def directives(self):
        out = []
        for p in self.pods:
            out.append('generate_pod!("%s")' % p.qual)
        for e in self.enums:
            out.append('generate!("%s")' % e.qual)
        for o in self.opqs:
            out.append('generate!("%s")' % o.qual)
        return out

    def var(self):
        self.uid += 1
        return "v%d" % self.uid


def q(ns, n):
    return "::".join(ns + (n,))


def wrap_ns(ns, text):
    return "".join("namespace %s {\n" % n for n in ns) + text + "\n" + "".join("}\n" for _ in ns)


class Use:
    """How an argument is supplied by one call."""

    def __init__(self, pre, expr, digest, post=()):
        self.pre, self.expr, self.digest, self.post = pre, expr, digest, list(post)


class Ty:
    by_value = True
    unsafe = False
    can_ret = True
    is_ref = False
    kind = "?"
    ns = ()

    # C++ statement executed after logging (mutation); returns (stmt, token)
    def mutate(self, rng, n):
        return None


class IntTy(Ty):
    def __init__(self, spec):
        self.cpp, self.rs, self.signed, self.bits, self.wrap = spec
        self.kind = "int:" + self.cpp

    @property
    def rs_ty(self):
        return ("autocxx::" + self.wrap) if self.wrap else self.rs

    def val(self, rng):
        return rng_int(rng, self.signed, self.bits)

    def rs_lit(self, v):
        return rs_int(v, self.rs, self.wrap)

    def cpp_lit(self, v):
        return "(%s)%s" % (self.cpp, cpp_int(v, self.signed, self.bits))

    def cpp_log(self, e):
        return ".i((long long)(%s))" % e if self.signed else ".u((unsigned long long)(%s))" % e

    def rs_dig(self, e):
        """Rust expression -> String"""
        return 'format!("{}", %s)' % (("(%s).0" % e) if self.wrap else ("(%s)" % e))

    def dig(self, v):
        return str(v)


class BoolTy(Ty):
    cpp = "bool"
    rs_ty = "bool"
    kind = "bool"

    def val(self, rng):
        return rng.random() < 0.5

    def rs_lit(self, v):
        return "true" if v else "false"

    cpp_lit = rs_lit

    def cpp_log(self, e):
        return ".i((%s) ? 1 : 0)" % e

    def rs_dig(self, e):
        return 'format!("{}", (%s) as i32)' % e

    def dig(self, v):
        return "1" if v else "0"


class FloatTy(Ty):
    def __init__(self, dbl):
        self.dbl = dbl
        self.cpp = "double" if dbl else "float"
        self.rs_ty = "f64" if dbl else "f32"
        self.kind = self.cpp

    def val(self, rng):
        if self.dbl:
            return rng.choice([0, f64bits(-0.0), f64bits(1.5), f64bits(-1e300), f64bits(float("inf")), 1, f64bits(rng.uniform(-1e9, 1e9))])
        return rng.choice([0, f32bits(-0.0), f32bits(1.5), f32bits(-1e30), f32bits(float("inf")), 1, f32bits(rng.uniform(-1e9, 1e9))])

    def rs_lit(self, v):
        return "%s::from_bits(%d)" % (self.rs_ty, v)

    def cpp_lit(self, v):
        return ("vf_f64(%dULL)" if self.dbl else "vf_f32(%dU)") % v

    def cpp_log(self, e):
        return (".d(%s)" if self.dbl else ".f(%s)") % e

    def rs_dig(self, e):
        return ("vf::d(%s)" if self.dbl else "vf::f(%s)") % e

    def dig(self, v):
        return ("d%016x" if self.dbl else "f%08x") % v


class EnumTy(Ty):
    kind = "enum"

    def __init__(self, rng, ns, name):
        self.ns, self.name = ns, name
        self.qual = q(ns, name)
        self.cpp = "::" + self.qual
        self.rs_ty = "ffi::" + self.qual
        self.under = rng.choice(["", "uint8_t", "int16_t", "uint32_t", "int64_t", "uint64_t"])
        self.scoped = rng.random() < 0.7
        lo, hi = {"": (-(1 << 31), (1 << 31) - 1), "uint8_t": (0, 255), "int16_t": (-(1 << 15), (1 << 15) - 1),
                  "uint32_t": (0, (1 << 32) - 1), "int64_t": (-(1 << 63) + 1, (1 << 63) - 1), "uint64_t": (0, (1 << 64) - 1)}[self.under]
        if self.under == "":
            lo, hi = (-1000, 1000)
        n = rng.randint(2, 6)
        vals = set()
        if rng.random() < 0.5:
            vals.add(hi)
        if rng.random() < 0.5:
            vals.add(lo)
        while len(vals) < n:
            vals.add(rng.randint(max(lo, -300), min(hi, 255)))
        vals = list(vals)
        rng.shuffle(vals)
        self.variants = [("%s_V%d" % (name, i), v) for i, v in enumerate(vals)]

    def decl(self):
        body = ", ".join("%s = %s" % (n, ("%dULL" % v) if v > (1 << 63) - 1 else ("%dLL" % v if self.under else str(v))) for n, v in self.variants)
        return "enum %s%s%s { %s };" % ("class " if self.scoped else "", self.name, (" : " + self.under) if self.under else "", body)

    def val(self, rng):
        return rng.randrange(len(self.variants))

    def rs_lit(self, v):
        return "ffi::%s::%s" % (self.qual, self.variants[v][0])

    def cpp_lit(self, v):
        return ("%s::%s" % (self.cpp, self.variants[v][0]))

    def cpp_log(self, e):
        return ".u((unsigned long long)(%s))" % e if self.under == "uint64_t" else ".i((long long)(%s))" % e

    def rs_dig(self, e):
        return 'format!("{}", std::ptr::read(&(%s)) as i128)' % e

    def dig(self, v):
        return str(self.variants[v][1])


PLAIN_FIELD_INTS = [s for s in INT_TYPES if s[0] in ("int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "size_t")]


class PodTy(Ty):
    kind = "pod"

    def __init__(self, rng, ns, name, enums=(), fields=None):
        self.ns, self.name = ns, name
        self.qual = q(ns, name)
        self.cpp = "::" + self.qual
        self.rs_ty = "ffi::" + self.qual
        self.fields = fields or []
        if not fields:
            for i in range(rng.randint(1, 5)):
                k = rng.random()
                t = (IntTy(rng.choice(PLAIN_FIELD_INTS)) if k < 0.7 else BoolTy() if k < 0.8 else FloatTy(rng.random() < 0.5))
                self.fields.append(("f%d" % i, t))

    def decl(self):
        return "struct %s { %s };" % (self.name, " ".join("%s %s;" % (t.cpp, n) for n, t in self.fields))

    def val(self, rng):
        return tuple(t.val(rng) for _, t in self.fields)

    def rs_lit(self, v):
        return "ffi::%s { %s }" % (self.qual, ", ".join("%s: %s" % (n, t.rs_lit(x)) for (n, t), x in zip(self.fields, v)))

    def cpp_lit(self, v):
        return "%s{ %s }" % (self.cpp, ", ".join(t.cpp_lit(x) for (n, t), x in zip(self.fields, v)))

    def cpp_log(self, e):
        return "".join(t.cpp_log("(%s).%s" % (e, n)) for n, t in self.fields)

    def rs_dig(self, e):
        return '{ let r = &%s; [%s].join(" ") }' % (e, ", ".join(t.rs_dig("r.%s" % n) for n, t in self.fields))

    def dig(self, v):
        return " ".join(t.dig(x) for (n, t), x in zip(self.fields, v))


class OpqTy(Ty):
    """Copyable class holding an id; not a POD."""
    kind = "opaque"

    def __init__(self, rng, ns, name):
        self.ns, self.name = ns, name
        self.qual = q(ns, name)
        self.cpp = "::" + self.qual
        self.rs_ty = "ffi::" + self.qual
        self.shape = rng.choice(["str", "vec", "plain", "virt"])

    def decl(self):
        extra = {"str": "std::string pad_;", "vec": "std::vector<int> pad_;", "plain": "uint8_t pad_;", "virt": ""}[self.shape]
        v = "virtual " if self.shape == "virt" else ""
        return "class %s { public: %s(uint32_t id); %s(const %s& o); %s~%s(); uint32_t get_id() const; void set_id(uint32_t v); private: uint32_t id_; %s };" % (
            self.name, self.name, self.name, self.name, v, self.name, extra)

    def defs(self):
        c = self.cpp
        n = self.name
        return ("%s::%s(uint32_t id) : id_(id) {}\n%s::%s(const %s& o) : id_(o.id_) {}\n%s::~%s() { id_ = 0xdeadbeef; }\n"
                "uint32_t %s::get_id() const { return id_; }\nvoid %s::set_id(uint32_t v) { id_ = v; }\n") % (
                    self.qual, n, self.qual, n, c, self.qual, n, self.qual, self.qual)

    def val(self, rng):
        return rng.randint(1, 2**32 - 1)

    def cpp_lit(self, v):
        return "%s(%dU)" % (self.cpp, v)

    def rs_new(self, v):
        return "ffi::%s::new(%d)" % (self.qual, v)

    def cpp_log(self, e):
        return ".u((%s).get_id())" % e

    def dig(self, v):
        return str(v)


class AliasTy(Ty):
    """typedef/using of a value type: same value behaviour, other spelling."""

    def __init__(self, ns, name, target, using):
        self.ns, self.name, self.t, self.using = ns, name, target, using
        self.qual = q(ns, name)
        self.cpp = "::" + self.qual
        self.kind = "alias:" + target.kind.split(":")[0]

    def decl(self):
        return "using %s = %s;" % (self.name, self.t.cpp) if self.using else "typedef %s %s;" % (self.t.cpp, self.name)

    def __getattr__(self, a):
        return getattr(self.__dict__["t"], a)


# ---- parameter forms -------------------------------------------------------------------------

class Form:
    """A parameter or return form over a base type."""
    can_param = True
    can_ret = True
    unsafe = False
    ref_in = False       # parameter carries a lifetime (for reference returns)
    name = "?"

    def __init__(self, t):
        self.t = t

    @property
    def kind(self):
        return "%s<%s>" % (self.name, self.t.kind)

    def const(self, rng):
        """value written by the callee (mutable forms) or returned; decided when the function is made"""
        return self.t.val(rng)


class Val(Form):
    name = "val"

    @property
    def cpp(self):
        return self.t.cpp

    def use(self, rng, w, wr):
        v = self.t.val(rng)
        return Use([], self.t.rs_lit(v), self.t.dig(v))

    def cpp_log(self, n):
        return self.t.cpp_log(n)

    def cpp_mut(self, n, c):
        return ""

    def cpp_ret(self, c, fid):
        return "", "return %s;" % self.t.cpp_lit(c)

    def rs_ret(self, e):
        return "let r = %s; ev(format!(\"R @ {}\", %s));" % (e, self.t.rs_dig("r"))

    def ret_dig(self, c):
        return self.t.dig(c)


class OpqVal(Val):
    """Opaque class by value: argument from &T, UniquePtr<T> or Box; return via New."""
    name = "oval"

    def use(self, rng, w, wr):
        v = self.t.val(rng)
        x = w.var()
        k = rng.randrange(3)
        if k == 0:
            return Use(["let %s = %s.within_unique_ptr();" % (x, self.t.rs_new(v))], "%s" % x, self.t.dig(v))
        if k == 1:
            return Use(["let %s = %s.within_unique_ptr();" % (x, self.t.rs_new(v))], "&*%s" % x, self.t.dig(v),
                       [("%s.get_id().to_string()" % x, self.t.dig(v))])
        return Use(["let %s = %s.within_box();" % (x, self.t.rs_new(v))], "&*%s" % x, self.t.dig(v),
                   [("%s.get_id().to_string()" % x, self.t.dig(v))])

    def rs_ret(self, e):
        return "let r = (%s).within_unique_ptr(); ev(format!(\"R @ {}\", r.get_id()));" % e


class ConstRef(Form):
    name = "cref"
    ref_in = True
    can_ret = False

    @property
    def cpp(self):
        return "const %s&" % self.t.cpp

    def use(self, rng, w, wr):
        v = self.t.val(rng)
        x = w.var()
        if isinstance(_base(self.t), OpqTy):
            return Use(["let %s = %s.within_unique_ptr();" % (x, self.t.rs_new(v))], "&*%s" % x, self.t.dig(v))
        return Use(["let %s = %s;" % (x, self.t.rs_lit(v))], "&%s" % x, self.t.dig(v))

    def cpp_log(self, n):
        return self.t.cpp_log(n)

    def cpp_mut(self, n, c):
        return ""


def _base(t):
    return t.t if isinstance(t, AliasTy) else t


class MutRef(Form):
    name = "mref"
    ref_in = True
    can_ret = False

    @property
    def cpp(self):
        return "%s&" % self.t.cpp

    def use(self, rng, w, c):
        v = self.t.val(rng)
        x = w.var()
        if isinstance(_base(self.t), OpqTy):
            return Use(["let mut %s = %s.within_unique_ptr();" % (x, self.t.rs_new(v))], "%s.pin_mut()" % x, self.t.dig(v),
                       [("%s.get_id().to_string()" % x, self.t.dig(c))])
        return Use(["let mut %s = Box::pin(%s);" % (x, self.t.rs_lit(v))], "%s.as_mut()" % x, self.t.dig(v),
                   [(self.t.rs_dig("*%s" % x), self.t.dig(c))])

    def cpp_log(self, n):
        return self.t.cpp_log(n)

    def cpp_mut(self, n, c):
        if isinstance(_base(self.t), OpqTy):
            return "%s.set_id(%dU);" % (n, c)
        return "%s = %s;" % (n, self.t.cpp_lit(c))


class ConstPtr(Form):
    name = "cptr"
    unsafe = True

    @property
    def cpp(self):
        return "const %s*" % self.t.cpp

    def use(self, rng, w, wr):
        x = w.var()
        if rng.random() < 0.15:
            return Use([], "std::ptr::null()", "null")
        v = self.t.val(rng)
        if isinstance(_base(self.t), OpqTy):
            return Use(["let %s = %s.within_unique_ptr();" % (x, self.t.rs_new(v))], "%s.as_ref().unwrap() as *const _" % x, "nonnull " + self.t.dig(v))
        return Use(["let %s = %s;" % (x, self.t.rs_lit(v))], "&%s as *const _" % x, "nonnull " + self.t.dig(v))

    def cpp_log(self, n):
        return None  # needs a statement

    def cpp_log_stmt(self, n):
        return "vf_l.p(%s); if (%s) vf_l%s;" % (n, n, self.t.cpp_log("*" + n))

    def cpp_mut(self, n, c):
        return ""

    def cpp_ret(self, c, fid):
        return "static %s g_%s = %s;" % (self.t.cpp, fid, self.t.cpp_lit(c)), "return &g_%s;" % fid

    def rs_ret(self, e):
        d = '(*r).get_id().to_string()' if isinstance(_base(self.t), OpqTy) else self.t.rs_dig("*r")
        return "let r = %s; ev(format!(\"R @ {}\", %s));" % (e, d)

    def ret_dig(self, c):
        return self.t.dig(c)


class MutPtr(ConstPtr):
    name = "mptr"

    @property
    def cpp(self):
        return "%s*" % self.t.cpp

    def use(self, rng, w, c):
        x = w.var()
        if rng.random() < 0.15:
            return Use([], "std::ptr::null_mut()", "null")
        v = self.t.val(rng)
        if isinstance(_base(self.t), OpqTy):
            return Use(["let mut %s = %s.within_unique_ptr();" % (x, self.t.rs_new(v))], "%s.pin_mut().get_unchecked_mut() as *mut _" % x,
                       "nonnull " + self.t.dig(v), [("%s.get_id().to_string()" % x, self.t.dig(c))])
        return Use(["let mut %s = %s;" % (x, self.t.rs_lit(v))], "&mut %s as *mut _" % x, "nonnull " + self.t.dig(v),
                   [(self.t.rs_dig(x), self.t.dig(c))])

    def cpp_mut(self, n, c):
        if isinstance(_base(self.t), OpqTy):
            return "if (%s) %s->set_id(%dU);" % (n, n, c)
        return "if (%s) *%s = %s;" % (n, n, self.t.cpp_lit(c))


class UPtr(Form):
    name = "uptr"

    @property
    def cpp(self):
        return "std::unique_ptr<%s>" % self.t.cpp

    def use(self, rng, w, wr):
        v = self.t.val(rng)
        x = w.var()
        return Use(["let %s = %s.within_unique_ptr();" % (x, self.t.rs_new(v))], x, "nonnull " + self.t.dig(v))

    def cpp_log(self, n):
        return None

    def cpp_log_stmt(self, n):
        return "vf_l.p(%s.get()); if (%s) vf_l%s;" % (n, n, self.t.cpp_log("*" + n))

    def cpp_mut(self, n, c):
        return ""

    def cpp_ret(self, c, fid):
        return "", "return %s(new %s(%dU));" % (self.cpp, self.t.cpp, c)

    def rs_ret(self, e):
        return "let r = %s; ev(format!(\"R @ {}\", r.get_id()));" % e

    def ret_dig(self, c):
        return self.t.dig(c)


class SPtr(UPtr):
    name = "sptr"
    can_param = True

    @property
    def cpp(self):
        return "std::shared_ptr<%s>" % self.t.cpp

    def use(self, rng, w, wr):
        v = self.t.val(rng)
        x = w.var()
        return Use(["let %s = %s.within_unique_ptr(); let %s = ffi::vf_share_%s(%s);" % (x, self.t.rs_new(v), x, self.t.name, x)], x + ".clone()",
                   "nonnull " + self.t.dig(v), [("%s.get_id().to_string()" % x, self.t.dig(v))])


class StrTy(Ty):
    cpp = "std::string"
    kind = "string"

    def val(self, rng):
        return rng_str(rng).encode()

    def cpp_lit(self, v):
        return cpp_str(v)

    def cpp_log(self, e):
        return ".h(%s)" % e

    def dig(self, v):
        return hexs(v)


class StrVal(Form):
    name = "strval"

    def __init__(self):
        self.t = StrTy()

    cpp = "std::string"

    def use(self, rng, w, wr):
        v = self.t.val(rng)
        x = w.var()
        k = rng.randrange(4)
        lit = rs_str(v.decode())
        if k == 0:
            return Use([], lit, self.t.dig(v))
        if k == 1:
            return Use(["let %s = ffi::make_string(%s);" % (x, lit)], x, self.t.dig(v))
        if k == 2:
            return Use(["let %s = String::from(%s);" % (x, lit)], "&%s" % x, self.t.dig(v), [("vf::hex(%s.as_bytes())" % x, self.t.dig(v))])
        return Use(["let %s = String::from(%s);" % (x, lit)], x, self.t.dig(v))

    def cpp_log(self, n):
        return self.t.cpp_log(n)

    def cpp_mut(self, n, c):
        return ""

    def cpp_ret(self, c, fid):
        return "", "return %s;" % self.t.cpp_lit(c)

    def rs_ret(self, e):
        return "let r = %s; ev(format!(\"R @ {}\", vf::hex(r.as_bytes())));" % e

    def ret_dig(self, c):
        return self.t.dig(c)


class StrConstRef(StrVal):
    name = "strcref"
    cpp = "const std::string&"
    can_ret = False
    ref_in = True

    def use(self, rng, w, wr):
        v = self.t.val(rng)
        x = w.var()
        return Use(["let %s = ffi::make_string(%s);" % (x, rs_str(v.decode()))], "&%s" % x, self.t.dig(v),
                   [("vf::hex(%s.as_bytes())" % x, self.t.dig(v))])


class StrMutRef(StrVal):
    name = "strmref"
    cpp = "std::string&"
    can_ret = False
    ref_in = True

    def use(self, rng, w, c):
        v = self.t.val(rng)
        x = w.var()
        return Use(["let mut %s = ffi::make_string(%s);" % (x, rs_str(v.decode()))], "%s.pin_mut()" % x, self.t.dig(v),
                   [("vf::hex(%s.as_bytes())" % x, self.t.dig(c))])

    def cpp_mut(self, n, c):
        return "%s = %s;" % (n, self.t.cpp_lit(c))


class Void(Form):
    name = "void"
    cpp = "void"
    can_param = False

    def __init__(self):
        self.t = None

    kind = "void"

    def const(self, rng):
        return None

    def cpp_ret(self, c, fid):
        return "", ""

    def rs_ret(self, e):
        return "%s; ev(\"R @\");" % e

    def ret_dig(self, c):
        return ""


class VecConstRef(Form):
    name = "veccref"
    can_ret = False
    ref_in = True

    @property
    def cpp(self):
        return "const std::vector<%s>&" % self.t.cpp

    def use(self, rng, w, wr):
        v = [self.t.val(rng) for _ in range(rng.choice([0, 1, 3, 9]))]
        x = w.var()
        pre = ["let mut %s = cxx::CxxVector::<%s>::new();" % (x, self.t.rs_ty)] + \
              ["%s.pin_mut().push(%s);" % (x, self.t.rs_lit(e)) for e in v]
        return Use(pre, "&%s" % x, ("%d" % len(v)) + "".join(" " + self.t.dig(e) for e in v))

    def cpp_log(self, n):
        return None

    def cpp_log_stmt(self, n):
        return "vf_l.u(%s.size()); for (auto& vf_e : %s) vf_l%s;" % (n, n, self.t.cpp_log("vf_e"))

    def cpp_mut(self, n, c):
        return ""


INTS = {s[0]: IntTy(s) for s in INT_TYPES}


def pick_value_ty(rng, w, allow_alias=True):
    k = rng.random()
    if k < 0.5:
        t = IntTy(rng.choice(INT_TYPES))
    elif k < 0.57:
        t = BoolTy()
    elif k < 0.67:
        t = FloatTy(rng.random() < 0.5)
    elif k < 0.82 and w.enums:
        t = rng.choice(w.enums)
    elif w.pods:
        t = rng.choice(w.pods)
    else:
        t = BoolTy()
    if allow_alias and rng.random() < 0.12:
        a = AliasTy(rng.choice(w.nss), "A%d" % len(w.aliases), t, rng.random() < 0.5)
        w.aliases.append(a)
        t = a
    return t


def pick_form(rng, w, for_ret=False, no_ref=False):
    for _ in range(50):
        k = rng.random()
        if k < 0.42:
            f = Val(pick_value_ty(rng, w))
        elif k < 0.50:
            f = OpqVal(rng.choice(w.opqs))
        elif k < 0.58:
            f = ConstRef(rng.choice(w.opqs) if rng.random() < 0.4 else pick_value_ty(rng, w))
        elif k < 0.66:
            f = MutRef(rng.choice(w.opqs) if rng.random() < 0.4 else pick_value_ty(rng, w))
        elif k < 0.73:
            f = ConstPtr(rng.choice(w.opqs) if rng.random() < 0.4 else pick_value_ty(rng, w))
        elif k < 0.80:
            f = MutPtr(rng.choice(w.opqs) if rng.random() < 0.4 else pick_value_ty(rng, w))
        elif k < 0.85:
            f = UPtr(rng.choice(w.opqs))
        elif k < 0.88:
            f = SPtr(rng.choice(w.opqs))
        elif k < 0.93:
            f = StrVal()
        elif k < 0.96:
            f = StrConstRef()
        elif k < 0.98:
            f = StrMutRef()
        else:
            f = VecConstRef(IntTy(rng.choice(PLAIN_FIELD_INTS)))
        if for_ret and not f.can_ret:
            continue
        if no_ref and f.ref_in:
            continue
        return f
    return Val(BoolTy())
