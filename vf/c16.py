"""C16: Rust functions, methods and types exported to C++.

Random programs export Rust functions (root, modules), methods and types; C++ drivers call them with chosen values and
hold, move and return boxed Rust values; both sides log, Rust values carry canaries and a drop registry, and the whole
two-language history is predicted by a model. Names of methods, functions and C++ members are drawn from one small
pool so that equal names in different scopes are the rule."""
from .core import *
from .lib import *

NAMES = ["get", "run", "step", "go", "value", "turn", "weigh", "poke", "scan"]

INTS = [("i8", "int8_t", True, 8), ("u8", "uint8_t", False, 8), ("i16", "int16_t", True, 16), ("u16", "uint16_t", False, 16), ("i32", "int32_t", True, 32),
        ("u32", "uint32_t", False, 32), ("i64", "int64_t", True, 64), ("u64", "uint64_t", False, 64), ("usize", "size_t", False, 64)]

RS_HEAD = RT_RS + r'''
thread_local! { static LIVE: std::cell::RefCell<std::collections::BTreeSet<u32>> = Default::default(); }
pub struct Can { oid: u32, c: u64, h: Box<u64> }
impl Can {
    pub fn new(oid: u32) -> Self {
        if !LIVE.with(|l| l.borrow_mut().insert(oid)) { ev(format!("BAD born-twice {}", oid)); }
        Can { oid, c: 0xC0FFEE0000 + oid as u64, h: Box::new(oid as u64) }
    }
    pub fn id(&self) -> u32 {
        if self.c != 0xC0FFEE0000 + self.oid as u64 || *self.h != self.oid as u64 || !LIVE.with(|l| l.borrow().contains(&self.oid)) { ev(format!("BAD used-when-dead {}", self.oid)); std::process::exit(77); }
        self.oid
    }
}
impl Drop for Can {
    fn drop(&mut self) {
        if self.c != 0xC0FFEE0000 + self.oid as u64 || !LIVE.with(|l| l.borrow_mut().remove(&self.oid)) { ev(format!("BAD dropped-twice {}", self.oid)); std::process::exit(77); }
        unsafe { std::ptr::write_volatile(&mut self.c, 0xDEAD) };
        ev(format!("RD {}", self.oid));
    }
}
'''

O_CPP = r'''
O::O(uint32_t i) : id_(i), h_(new uint32_t(i)) {}
O::~O() { delete h_; }
uint32_t O::id() const { return *h_; }
void O::put(uint32_t v) { id_ = v; *h_ = v; }
'''


class RType:
    def __init__(self, rng, i):
        self.i = i
        self.name = "RT%d" % i
        self.mod = rng.choice([(), (), (), ("m0",), ("m0", "m1"), ("m2",)])
        self.shape = rng.choice(["struct", "struct", "enum", "tuple", "big"])
        # the directive takes only an identifier, so the type must be in scope at the root
        self.style = rng.choice(["attr", "attr", "directive", "both"]) if not self.mod else "attr"
        self.methods = []

    def path(self):
        return "::".join(self.mod + (self.name,))

    def rust(self):
        n = self.name
        a = "#[autocxx::extern_rust::extern_rust_type]\n" if self.style in ("attr", "both") else ""
        if self.shape == "enum":
            s = a + "pub enum %s { A(Can, std::cell::Cell<u32>), B { can: Can, v: std::cell::Cell<u32>, pad: [u64; 5] } }\n" % n
            mk = "if oid %% 2 == 0 { %s::A(Can::new(oid), std::cell::Cell::new(0)) } else { %s::B { can: Can::new(oid), v: std::cell::Cell::new(0), pad: [7; 5] } }" % (n, n)
            can = "match self { %s::A(c, _) => c, %s::B { can, .. } => can }" % (n, n)
            v = "match self { %s::A(_, v) => v, %s::B { v, .. } => v }" % (n, n)
        elif self.shape == "tuple":
            s = a + "pub struct %s(Can, std::cell::Cell<u32>);\n" % n
            mk, can, v = "%s(Can::new(oid), std::cell::Cell::new(0))" % n, "&self.0", "&self.1"
        elif self.shape == "big":
            s = a + "#[repr(align(32))]\npub struct %s { pad: [u64; 40], can: Can, v: std::cell::Cell<u32> }\n" % n
            mk, can, v = "%s { pad: [9; 40], can: Can::new(oid), v: std::cell::Cell::new(0) }" % n, "&self.can", "&self.v"
        else:
            s = a + "pub struct %s { v: std::cell::Cell<u32>, can: Can }\n" % n
            mk, can, v = "%s { can: Can::new(oid), v: std::cell::Cell::new(0) }" % n, "&self.can", "&self.v"
        return s + ("impl %s { pub fn mk_(oid: u32) -> %s { %s } pub fn can_(&self) -> &Can { %s } pub fn v_(&self) -> &std::cell::Cell<u32> { %s }\n"
                    " pub fn dig_(&self) -> String { format!(\"{}:{}\", self.can_().id(), self.v_().get()) } pub fn oid(&self) -> u32 { self.can_().id() } }\n") % (n, n, mk, can, v)


# ------------------------------------------------------------------ parameter kinds
# arg(g) -> (pre, expr, digest, post [(chain, digest)])   [C++ side]; after(c) model effects
class K:
    ret = True
    sig = None

    def rs_after(self, n):
        return ""


class KInt(K):
    def __init__(self, s):
        self.rs, self.cpp, self.sg, self.bits = s
        self.sig = self.rs

    def val(self, g):
        return rng_int(g.rng, self.sg, self.bits)

    def rs_lit(self, v):
        return "(%d as %s)" % (v, self.rs)

    def arg(self, g, c):
        v = self.val(g)
        return [], "(%s)%s" % (self.cpp, cpp_int(v, self.sg, self.bits)), str(v), []

    def rdig(self, n):
        return "%s.to_string()" % n

    def cdig(self, e):
        return ".i((long long)%s)" % e if self.sg else ".u((unsigned long long)%s)" % e

    def dig(self, v):
        return str(v)


class KBool(KInt):
    rs = cpp = sig = "bool"

    def __init__(self):
        pass

    def val(self, g):
        return g.rng.random() < 0.5

    def rs_lit(self, v):
        return str(v).lower()

    def arg(self, g, c):
        v = self.val(g)
        return [], str(v).lower(), str(int(v)), []

    def rdig(self, n):
        return "(%s as u32).to_string()" % n

    def cdig(self, e):
        return ".i(%s ? 1 : 0)" % e

    def dig(self, v):
        return str(int(v))


class KFloat(K):
    def __init__(self, dbl):
        self.dbl = dbl
        self.rs, self.cpp = ("f64", "double") if dbl else ("f32", "float")
        self.sig = self.rs

    def val(self, g):
        x = g.rng.choice([0.0, -0.0, 1.5, -1e30, float("inf"), g.rng.uniform(-1e9, 1e9)])
        return f64bits(x) if self.dbl else f32bits(x)

    def rs_lit(self, v):
        return "%s::from_bits(%d)" % (self.rs, v)

    def arg(self, g, c):
        v = self.val(g)
        return [], ("vf_f64(%dULL)" if self.dbl else "vf_f32(%dU)") % v, self.dig(v), []

    def rdig(self, n):
        return "vf::%s(%s)" % ("d" if self.dbl else "f", n)

    def cdig(self, e):
        return ".%s(%s)" % ("d" if self.dbl else "f", e)

    def dig(self, v):
        return ("d%016x" if self.dbl else "f%08x") % v


class KString(K):
    rs, cpp, sig = "String", "rust::String", "String"

    def val(self, g):
        return rng_str(g.rng)

    def rs_lit(self, v):
        return "String::from(%s)" % rs_str(v)

    def arg(self, g, c):
        v = self.val(g).encode()
        x = g.var()
        k = g.rng.randrange(2)
        return ["rust::String %s(%s);" % (x, cpp_str(v))], ("std::move(%s)" if k else "%s") % x, hexs(v), [] if k else [(".h(%s.data(), %s.size())" % (x, x), hexs(v))]

    def rdig(self, n):
        return "vf::hex(%s.as_bytes())" % n

    def cdig(self, e):
        return ".h(%s.data(), %s.size())" % (e, e)

    def dig(self, v):
        return hexs(v.encode())


class KStr(KString):
    rs, cpp, sig, ret = "&str", "rust::Str", "&str", False

    def arg(self, g, c):
        v = self.val(g).encode()
        x = g.var()
        return ["std::string %s = %s;" % (x, cpp_str(v))], "rust::Str(%s)" % x, hexs(v), []


class KP(K):
    """POD struct."""
    def __init__(self, mode):
        self.mode = mode
        self.rs = {"val": "P", "ref": "&P", "mut": "Pin<&mut P>"}[mode]
        self.cpp = "P"
        self.ret = mode == "val"
        self.sig = "POD " + mode

    def val(self, g):
        return (g.rng.randrange(1 << 32), g.rng.randrange(256), f64bits(g.rng.uniform(-9, 9)))

    def rs_lit(self, v):
        return "P { a: %d, b: %d, d: f64::from_bits(%d) }" % v

    def arg(self, g, c):
        v = self.val(g)
        x = g.var()
        after = ((c * 3 + 1), v[1], v[2]) if self.mode == "mut" else v
        return ["P %s = P{%dU, %d, vf_f64(%dULL)};" % ((x,) + v)], x, self.dig(v), [(self.cdig(x), self.dig(after))]

    def rdig(self, n):
        return "format!(\"{} {} {}\", %s.a, %s.b, vf::d(%s.d))" % (n, n, n)

    def cdig(self, e):
        return ".u(%s.a).u(%s.b).d(%s.d)" % (e, e, e)

    def dig(self, v):
        return "%d %d d%016x" % v

    def rs_after(self, n):
        return "%s.a = c * 3 + 1;" % n if self.mode == "mut" else ""


class KO(K):
    """Opaque C++ class."""
    ret = False
    cpp = "O"

    def __init__(self, mode):
        self.mode = mode
        self.rs = {"ref": "&O", "mut": "Pin<&mut O>"}[mode]
        self.sig = "class " + mode

    def arg(self, g, c):
        v = g.rng.randrange(1 << 32)
        x = g.var()
        return ["O %s(%dU);" % (x, v)], x, str(v), [(".u(%s.id())" % x, str(c * 3 + 1 if self.mode == "mut" else v))]

    def rdig(self, n):
        return "%s.id().to_string()" % n

    def rs_after(self, n):
        return "%s.as_mut().put(c * 3 + 1);" % n if self.mode == "mut" else ""


class KE(K):
    cpp = "E"
    VALS = [("A", 0), ("B", 5), ("Last", 200)]

    def __init__(self, mode):
        self.mode = mode
        self.rs = {"val": "E", "ref": "&E"}[mode]
        self.ret = mode == "val"
        self.sig = "enum " + mode

    def val(self, g):
        return g.rng.choice(self.VALS)

    def rs_lit(self, v):
        return "E::" + v[0]

    def arg(self, g, c):
        v = self.val(g)
        x = g.var()
        return ["E %s = E::%s;" % (x, v[0])], x, str(v[1]), []

    def rdig(self, n):
        return "(match %s { E::A => 0, E::B => 5, E::Last => 200 }).to_string()" % n

    def cdig(self, e):
        return ".u((unsigned)%s)" % e

    def dig(self, v):
        return str(v[1])


class KVec(K):
    def __init__(self, it):
        self.it = it
        self.rs, self.cpp = "Vec<%s>" % it.rs, "rust::Vec<%s>" % it.cpp
        self.sig = self.rs

    def val(self, g):
        return [self.it.val(g) for _ in range(g.rng.choice([0, 1, 2, 9]))]

    def rs_lit(self, v):
        return "vec![%s]" % ", ".join(self.it.rs_lit(x) for x in v) if v else "Vec::<%s>::new()" % self.it.rs

    def arg(self, g, c):
        v = self.val(g)
        x = g.var()
        pre = ["%s %s;" % (self.cpp, x)]
        for e in v:
            lit = cpp_int(e, self.it.sg, self.it.bits) if type(self.it) is KInt else None
            pre.append("%s.push_back(%s);" % (x, "(%s)%s" % (self.it.cpp, lit) if lit else cpp_str(e.encode())))
        return pre, "std::move(%s)" % x if g.rng.random() < 0.6 else x, self.dig(v), []

    def rdig(self, n):
        return "{ let mut s = %s.len().to_string(); for e in %s.iter() { s.push(' '); s.push_str(&%s); } s }" % (n, n, self.it.rdig("e"))

    def cdig(self, e):
        return None

    def clog(self, e):
        return 'VfL l("RET"); l.u(%s.size()); for (const auto& vfe : %s) l%s;' % (e, e, self.it.cdig("vfe"))

    def dig(self, v):
        return str(len(v)) + "".join(" " + self.it.dig(x) for x in v)


class KRef(K):
    """Reference to an exported Rust type: an object in a C++ slot."""
    ret = False

    def __init__(self, t, mode):
        self.t, self.mode = t, mode
        self.rs = {"ref": "&%s", "mut": "Pin<&mut %s>"}[mode] % t.name
        self.sig = "rust type " + mode

    def arg(self, g, c):
        o = g.slot(self.t, c)
        d = o.dig()
        o.v = c * 3 + 1
        return [], o.expr(), d, []

    def rdig(self, n):
        return n + ".dig_()"

    def rs_after(self, n):
        return "%s.v_().set(c * 3 + 1);" % n


class KBox(K):
    """Boxed Rust value handed over by C++; the callee drops it."""
    ret = False

    def __init__(self, t):
        self.t = t
        self.rs = "Box<%s>" % t.name
        self.sig = "Box argument"

    def arg(self, g, c):
        o = g.slot(self.t, c)
        d = o.dig()
        x = g.var()
        g.drops.append("RD %d" % o.oid)
        g.kill(o)
        return ["auto %s = std::move(%s_s.at(%d)); %s_s.erase(%d);" % (x, self.t.name, o.slot, self.t.name, o.slot)], "std::move(%s)" % x, d, []

    def rdig(self, n):
        return n + ".dig_()"

    def rs_after(self, n):
        return "drop(%s);" % n


class Fn:
    """An exported Rust function or method."""

    def __init__(self, name, params, ret, recv=None, recv_style=None, mod=(), refret=None):
        self.name, self.params, self.ret, self.recv, self.recv_style, self.mod, self.refret = name, params, ret, recv, recv_style, mod, refret
        self.rets = {}

    def cid(self):
        return (self.recv.name + "." if self.recv else "") + self.name

    def rust(self):
        ps = ["c: u32"] + ["%sp%d: %s" % ("mut " if "Pin" in p.rs or p.rs.startswith("Box") else "", i, p.rs) for i, p in enumerate(self.params)]
        if self.recv:
            ps.insert(0, self.recv_style)
        rt = ""
        if self.refret is not None:
            r = "self" if self.refret == "self" else "p%d" % self.refret
            rt = " -> &" + (self.recv.name if self.refret == "self" else self.params[self.refret].rs.lstrip("&"))
            val = r
        elif self.ret:
            rt = " -> " + self.ret.rs
            arms = "".join("%d => %s, " % (c, self.ret.rs_lit(v)) for c, v in sorted(self.rets.items()))
            val = "match c { %s_ => { ev(\"BAD unexpected-call\"); std::process::exit(78) } }" % arms
        else:
            val = ""
        fmt = "".join(", " + p.rdig("p%d" % i) for i, p in enumerate(self.params))
        if self.recv:
            fmt = ", self.dig_()" + fmt
        n = len(self.params) + (1 if self.recv else 0)
        body = 'ev(format!("IN %s {}%s", c%s)); ' % (self.cid(), " {}" * n, fmt)
        body += " ".join(p.rs_after("p%d" % i) for i, p in enumerate(self.params))
        if self.recv:
            body += " self.v_().set(c * 3 + 1);"
        return "#[autocxx::extern_rust::extern_rust_function]\n%sfn %s(%s)%s { %s %s }\n" % ("pub ", self.name, ", ".join(ps), rt, body, val)


class Obj:
    def __init__(self, oid, t, slot):
        self.oid, self.t, self.slot, self.v = oid, t, slot, 0
        self.busy = 0

    def dig(self):
        return "%d:%d" % (self.oid, self.v)

    def expr(self):
        return "(*%s_s.at(%d))" % (self.t.name, self.slot)


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.uid = 0
        self.c = 0
        self.oid = 0
        self.nslot = 0
        self.exp = []
        self.objs = []          # in C++ slots
        self.stash = {}         # type -> list of objects held by Rust
        self.drops = []
        self.cur = []           # statements of the current driver
        self.pinned = set()
        self.sigs = []
        self.types = [RType(rng, i) for i in range(rng.choice([1, 2, 3]))]
        self.fns = []
        self.pool = list(NAMES)
        rng.shuffle(self.pool)
        used = set()
        for i in range(rng.randint(3, 7)):
            nm = self.pool[i] if rng.random() < 0.6 and i < len(self.pool) else "f%d" % i
            if nm in used:
                continue
            used.add(nm)
            self.fns.append(self.mkfn(nm))
        self.free_names = used
        for t in self.types:
            if t.mod:
                continue            # methods are only accepted at the root of the file
            for nm in rng.sample(NAMES, rng.randint(1, 4)):
                f = self.mkfn(nm, t)
                t.methods.append(f)
                self.fns.append(f)
            if rng.random() < 0.2:
                t.style = "none"        # exported because its methods are
        # C++ members and functions that reuse the names
        self.cpp_methods = rng.sample(NAMES, 3)
        self.cpp_fns = rng.sample(NAMES, 3)

    def var(self):
        self.uid += 1
        return "v%d" % self.uid

    def kind(self):
        r = self.rng
        t = r.choice(self.types)
        return r.choice([lambda: KInt(r.choice(INTS)), lambda: KInt(r.choice(INTS)), lambda: KBool(), lambda: KFloat(r.random() < 0.5), lambda: KString(), lambda: KStr(),
                         lambda: KP(r.choice(["val", "ref", "mut"])), lambda: KO(r.choice(["ref", "mut"])), lambda: KE(r.choice(["val", "ref"])),
                         lambda: KVec(r.choice([KInt(r.choice([x for x in INTS if x[0] != "bool"])), KString()])),
                         lambda: KRef(t, "ref"), lambda: KRef(t, "mut"), lambda: KBox(t)])()

    def mkfn(self, nm, recv=None):
        r = self.rng
        params = [self.kind() for _ in range(r.choice([0, 1, 2, 3, 5]))]
        ret, refret = None, None
        style = r.choice(["&self", "self: &%s" % recv.name]) if recv else None
        refs = [i for i, p in enumerate(params) if p.rs.startswith("&") or "Pin" in p.rs]
        if recv and r.random() < 0.2 and not refs:
            refret = "self"
        elif not recv and len(refs) == 1 and r.random() < 0.5 and params[refs[0]].rs in ("&O", "&P") + tuple("&" + t.name for t in self.types):
            refret = refs[0]
        elif r.random() < 0.75:
            while True:
                ret = self.kind()
                if ret.ret:
                    break
        mod = () if recv else r.choice([(), (), ("m0",), ("m0", "m1"), ("m2",)])
        if style and style != "&self" and refret == "self":
            style = "&self"
        return Fn(nm, params, ret, recv, style, mod, refret)

    # ---- C++-held objects
    def slot(self, t, c, avoid_call=None):
        c = [o for o in self.objs if o.t is t and o not in self.pinned]
        if c and self.rng.random() < 0.85:
            o = self.rng.choice(c)
        else:
            o = self.make(t)
        self.pinned.add(o)
        return o

    def make(self, t):
        self.oid += 1
        self.nslot += 1
        self.c += 1
        o = Obj(self.oid, t, self.nslot)
        self.objs.append(o)
        self.cur.append("%s_s.emplace(%d, mk_%s(%dU, %dU));" % (t.name, o.slot, t.name, self.c, o.oid))
        self.exp.append("MK %s %d %d" % (t.name, self.c, o.oid))
        return o

    def kill(self, o):
        self.objs.remove(o)

    # ---- operations
    def call(self):
        f = self.rng.choice(self.fns)
        self.pinned = set()
        self.drops = []
        recv = None
        if f.recv:
            recv = self.slot(f.recv, None)
        c_args = []
        self.c += 1
        c = self.c
        pre, args, digs, posts = [], ["%dU" % c], [], []
        keep = []
        rd = recv.dig() if recv else None
        for p in f.params:
            a = p.arg(self, c)
            pre += a[0]
            args.append(a[1])
            digs.append(a[2])
            posts += a[3]
        if recv:
            recv.v = c * 3 + 1
        self.exp.append("CALL %d" % c)
        self.exp.append("IN %s %d%s%s" % (f.cid(), c, " " + rd if recv else "", "".join(" " + d for d in digs)))
        self.exp += self.drops
        s = pre + ['VfL("CALL").u(%d);' % c]
        ce = ("%s_s.at(%d)->%s" % (recv.t.name, recv.slot, f.name) if recv else "::" + f.name) + "(%s)" % ", ".join(args)
        if f.refret is not None:
            who = recv.expr() if f.refret == "self" else args[1 + f.refret]
            s.append('{ const auto& r = %s; VfL("SAME").u(&r == &%s); }' % (ce, who))
            self.exp.append("SAME 1")
            self.sigs.append("returns reference to %s" % ("self" if f.refret == "self" else "argument"))
        elif f.ret:
            v = f.ret.val(self)
            f.rets[c] = v
            if f.ret.cdig("r"):
                s.append('{ auto r = %s; static_assert(std::is_same<decltype(r), %s>::value, "return type"); VfL("RET")%s; }' % (ce, f.ret.cpp, f.ret.cdig("r")))
            else:
                s.append("{ %s r = %s; %s }" % (f.ret.cpp, ce, f.ret.clog("r")))
            self.exp.append("RET " + f.ret.dig(v))
            self.sigs.append("returns " + f.ret.sig)
        else:
            s.append(ce + ";")
        for ch, d in posts:
            s.append('VfL("POST")%s;' % ch)
            self.exp.append("POST " + d)
        self.sigs.append("%s(%s)%s" % ("method " + (f.recv_style.split(":")[0]) if f.recv else "function in %d modules" % len(f.mod), ", ".join(p.sig for p in f.params), ""))
        for p in f.params:
            self.sigs.append("takes " + p.sig)
        self.cur.append("{ " + " ".join(s) + " }")

    def op_drop(self):
        if self.objs:
            o = self.rng.choice(self.objs)
            self.kill(o)
            self.cur.append("%s_s.erase(%d);" % (o.t.name, o.slot))
            self.exp.append("RD %d" % o.oid)
            self.sigs.append("C++ drops Box")

    def op_shuffle(self):
        if not self.objs:
            return
        o = self.rng.choice(self.objs)
        n, T = o.t.name, "%s_s" % o.t.name
        k = self.rng.randrange(5)
        old = o.slot
        if k == 0:
            self.nslot += 1
            o.slot = self.nslot
            self.cur.append("{ auto b = std::move(%s.at(%d)); %s.erase(%d); %s.emplace(%d, std::move(b)); }" % (T, old, T, old, T, o.slot))
            self.sigs.append("move Box between holders")
        elif k == 1:
            self.cur.append("{ auto b = std::move(%s.at(%d)); %s* raw = b.into_raw(); %s.at(%d) = rust::Box<%s>::from_raw(raw); }" % (T, old, n, T, old, n))
            self.sigs.append("Box into_raw/from_raw")
        elif k == 2:
            self.c += 1
            self.cur.append("{ const %s* a = &*%s.at(%d); auto b = pass_%s(%dU, std::move(%s.at(%d))); VfL(\"SAME\").u(&*b == a); %s.at(%d) = std::move(b); }" % (n, T, old, n, self.c, T, old, T, old))
            self.exp += ["PASS %s %d %s" % (n, self.c, o.dig()), "SAME 1"]
            self.sigs.append("Box through Rust and back")
        elif k == 3:
            self.c += 1
            self.cur.append("{ auto b = std::move(%s.at(%d)); %s.erase(%d); stash_%s(%dU, std::move(b)); }" % (T, old, T, old, n, self.c))
            self.exp.append("STASH %s %d %s" % (n, self.c, o.dig()))
            self.stash.setdefault(n, []).append(o)
            self.kill(o)
            self.sigs.append("Box stored by Rust")
        else:
            c = [x for x in self.objs if x.t is o.t and x is not o]
            if c:
                x = self.rng.choice(c)
                self.cur.append("std::swap(%s.at(%d), %s.at(%d));" % (T, o.slot, T, x.slot))
                o.slot, x.slot = x.slot, o.slot
                self.sigs.append("swap Boxes")

    def op_unstash(self):
        ks = [k for k, v in self.stash.items() if v]
        if not ks:
            return
        k = self.rng.choice(ks)
        o = self.stash[k].pop()
        self.c += 1
        self.nslot += 1
        o.slot = self.nslot
        self.objs.append(o)
        self.exp.append("UNSTASH %s %d %s" % (k, self.c, o.dig()))
        self.cur.append("%s_s.emplace(%d, unstash_%s(%dU));" % (k, o.slot, k, self.c))
        self.sigs.append("Box returned by Rust")

    def op_vec(self):
        t = self.rng.choice(self.types)
        n = self.rng.choice([0, 1, 2, 5])
        self.c += 1
        ids = list(range(self.oid + 1, self.oid + 1 + n))
        self.oid += n
        x = self.var()
        s = ["rust::Vec<%s> %s = mkvec_%s(%dU, %dU, %dU);" % (t.name, x, t.name, self.c, self.oid - n + 1, n), 'VfL("SIZE").u(%s.size());' % x,
             'for (const auto& e : %s) VfL("EL").u(elem_%s(e));' % (x, t.name)]
        self.exp += ["MKVEC %s %d" % (t.name, self.c), "SIZE %d" % n] + ["EL %d" % i for i in ids]
        k = self.rng.randrange(4)
        if k == 0:
            s.append('VfL("END");')
            self.exp.append("END")
            dr = ids
        elif k == 1:
            self.c += 1
            s.append("eatvec_%s(%dU, std::move(%s));" % (t.name, self.c, x))
            self.exp.append("EATVEC %s %d %s" % (t.name, self.c, " ".join(["%d" % n] + ["%d:0" % i for i in ids])))
            dr = ids
        elif k == 2:
            s.append('%s.clear(); VfL("CLEARED").u(%s.size());' % (x, x))
            self.exp += ["RD %d" % i for i in ids] + ["CLEARED 0"]
            dr = []
        else:
            m = self.rng.randint(0, n)
            s.append('%s.truncate(%d); VfL("TRUNC").u(%s.size());' % (x, m, x))
            self.exp += ["RD %d" % i for i in ids[m:]] + ["TRUNC %d" % m]
            dr = ids[:m]
        self.exp += ["RD %d" % i for i in dr]
        self.cur.append("{ " + " ".join(s) + " }")
        self.sigs.append("Vec of Rust type %d" % k)

    def cpp_driver(self):
        self.cur = []
        for _ in range(self.rng.randint(2, 9)):
            k = self.rng.random()
            if k < 0.6:
                self.call()
            elif k < 0.7:
                self.op_drop()
            elif k < 0.85:
                self.op_shuffle()
            elif k < 0.92:
                self.op_vec()
            else:
                self.op_unstash()
        return self.cur

    # ---- operations from Rust main: return Rust statements
    def rust_op(self):
        rng = self.rng
        k = rng.randrange(7)
        if k == 0:
            t = rng.choice(self.types)
            self.oid += 1
            self.nslot += 1
            o = Obj(self.oid, t, self.nslot)
            self.objs.append(o)
            self.sigs.append("Rust gives Box to C++")
            return ["ffi::put_%s(%d, Box::new(%s::mk_(%d)));" % (t.name, o.slot, t.path(), o.oid)]
        if k == 1 and self.objs:
            o = rng.choice(self.objs)
            self.kill(o)
            self.exp += ["GOT " + o.dig(), "RD %d" % o.oid]
            self.sigs.append("C++ gives Box to Rust")
            return ["{ let b: Box<%s> = ffi::take_%s(%d); ev(format!(\"GOT {}\", b.dig_())); }" % (o.t.path(), o.t.name, o.slot)]
        if k == 2:
            t = rng.choice(self.types)
            self.oid += 1
            i = self.oid
            self.exp += ["SAME true", "SAME true", "RD %d" % i]
            self.sigs.append("reference to Rust object through C++")
            return ["{ let mut x = Box::new(%s::mk_(%d)); let a = &*x as *const _ as usize; ev(format!(\"SAME {}\", ffi::ident_%s(&x) as *const _ as usize == a)); "
                    "let m = ffi::mident_%s(std::pin::Pin::new(&mut *x)); ev(format!(\"SAME {}\", &*m as *const _ as usize == a)); }" % (t.path(), i, t.name, t.name)]
        if k == 3:
            t = rng.choice(self.types)
            self.oid += 1
            i = self.oid
            self.c += 1
            self.exp += ["H+ ", "HOLDCALL %s %d %d:0" % (t.name, self.c, i), "HV %d" % (self.c * 3 + 1), "H-", "RD %d" % i]
            self.exp[-5] = "H+"
            self.sigs.append("C++ object holding a Box")
            return ["{ let h = ffi::H%d::new(Box::new(%s::mk_(%d))).within_%s(); ev(format!(\"HV {}\", h.use_it(%d))); }" % (
                t.i, t.path(), i, rng.choice(["unique_ptr", "box"]), self.c)]
        if k == 4:
            n = rng.choice(self.cpp_methods)
            v = rng.randrange(1 << 31)
            self.exp += ["OM %s %d" % (n, v), "OR %d" % (v ^ 5)]
            self.sigs.append("C++ method sharing a name")
            return ["{ let o = ffi::O::new(%d).within_unique_ptr(); ev(format!(\"OR {}\", o.%s())); }" % (v, n)]
        if k == 5:
            n = rng.choice(self.cpp_fns)
            v = rng.randrange(1 << 31)
            self.exp += ["NF %s %d" % (n, v), "NR %d" % (v ^ 9)]
            self.sigs.append("C++ function sharing a name")
            return ["ev(format!(\"NR {}\", ffi::n1::%s(%d)));" % (n, v)]
        return []

    def build(self, name, cxx_h):
        rng = self.rng
        n = rng.randint(5, 9)
        drivers, main = [], []
        for i in range(n):
            self.exp.append("D %d" % i)
            drivers.append(self.cpp_driver())
            main.append("ev(\"D %d\"); ffi::drive%d();" % (i, i))
            for _ in range(rng.randint(0, 4)):
                main += self.rust_op()
        # the end: everything the C++ side still holds is dropped, in slot order per type; then Rust's stash
        self.exp.append("FINISH")
        main.append("ev(\"FINISH\"); ffi::finish();")
        for t in self.types:
            self.exp += ["RD %d" % o.oid for o in sorted((o for o in self.objs if o.t is t), key=lambda o: o.slot)]
        for t in self.types:
            main.append("STASH_%s.with(|s| { for b in s.borrow_mut().drain(..) { drop(b) } });" % t.name)
            self.exp += ["RD %d" % o.oid for o in self.stash.get(t.name, [])]
        main.append("ev(format!(\"LEFT {:?}\", LIVE.with(|l| l.borrow().clone())));")
        self.exp.append("LEFT {}")
        # header
        h = ["#pragma once", "#include <cstdint>", "#include <string>", "#include <memory>", "#include <cxx.h>"]
        h += ["struct %s;" % t.name for t in self.types]
        h.append("struct P { uint32_t a; uint8_t b; double d; };\nenum class E : uint8_t { A = 0, B = 5, Last = 200 };")
        h.append("class O { public: explicit O(uint32_t); ~O(); O(const O&) = delete; uint32_t id() const; void put(uint32_t); %s private: uint32_t id_; uint32_t* h_; };" % " ".join("uint32_t %s() const;" % m for m in self.cpp_methods))
        h.append("namespace n1 { %s }" % " ".join("uint32_t %s(uint32_t);" % m for m in self.cpp_fns))
        dirs = ['generate_pod!("P")', 'generate!("E")', 'generate!("O")', 'generate!("finish")'] + ['generate!("n1::%s")' % m for m in self.cpp_fns]
        cc = [RT_CPP, O_CPP, "#include <type_traits>"]
        cc += ['uint32_t O::%s() const { VfL("OM %s").u(id()); return id() ^ 5; }' % (m, m) for m in self.cpp_methods]
        cc += ['namespace n1 { uint32_t %s(uint32_t v) { VfL("NF %s").u(v); return v ^ 9; } }' % (m, m) for m in self.cpp_fns]
        for t in self.types:
            N = t.name
            h.append("void put_@(uint32_t s, rust::Box<@> b); rust::Box<@> take_@(uint32_t s); const @& ident_@(const @& r); @& mident_@(@& r);".replace("@", N))
            h.append("class H%d { public: explicit H%d(rust::Box<%s> b); ~H%d(); H%d(const H%d&) = delete; uint32_t use_it(uint32_t c) const; private: rust::Box<%s> b_; };" % (t.i, t.i, N, t.i, t.i, t.i, N))
            dirs += ['generate!("%s_%s")' % (x, N) for x in ("put", "take", "ident", "mident")] + ['generate!("H%d")' % t.i]
            cc.append("static std::map<uint32_t, rust::Box<@>> @_s;\nvoid put_@(uint32_t s, rust::Box<@> b) { @_s.emplace(s, std::move(b)); }\nrust::Box<@> take_@(uint32_t s) { auto b = std::move(@_s.at(s)); @_s.erase(s); return b; }\n"
                      "const @& ident_@(const @& r) { return r; }\n@& mident_@(@& r) { return r; }".replace("@", N))
            cc.append('H{i}::H{i}(rust::Box<{N}> b) : b_(std::move(b)) {{ VfL("H+"); }}\nH{i}::~H{i}() {{ VfL("H-"); }}\nuint32_t H{i}::use_it(uint32_t c) const {{ return hold_{N}(c, *b_); }}'.format(i=t.i, N=N))
            if t.style in ("directive", "both"):
                dirs.append(rng.choice(["extern_rust_type!(%s)", "rust_type!(%s)"]) % N)
        h.append("void finish();")
        cc.append("void finish() { %s }" % " ".join("while (!%s_s.empty()) %s_s.erase(%s_s.begin());" % (t.name, t.name, t.name) for t in self.types))
        for i, d in enumerate(drivers):
            h.append("void drive%d();" % i)
            dirs.append('generate!("drive%d")' % i)
            cc.append("void drive%d() {\n%s\n}" % (i, "\n".join(d)))
        # Rust
        mods = {}

        def put(mod, text):
            mods.setdefault(mod, []).append(text)
        for t in self.types:
            put(t.mod, t.rust())
            N = t.name
            F = "#[autocxx::extern_rust::extern_rust_function]\n"
            helper_mod = rng.choice([(), ("m2",)])
            put(helper_mod, "".join(F + x.replace("@", N) for x in (
                'pub fn mk_@(c: u32, oid: u32) -> Box<@> { ev(format!("MK @ {} {}", c, oid)); Box::new(@::mk_(oid)) }\n',
                'pub fn pass_@(c: u32, b: Box<@>) -> Box<@> { ev(format!("PASS @ {} {}", c, b.dig_())); b }\n',
                'pub fn stash_@(c: u32, b: Box<@>) { ev(format!("STASH @ {} {}", c, b.dig_())); STASH_@.with(|s| s.borrow_mut().push(b)); }\n',
                'pub fn unstash_@(c: u32) -> Box<@> { let b = STASH_@.with(|s| s.borrow_mut().pop().unwrap()); ev(format!("UNSTASH @ {} {}", c, b.dig_())); b }\n',
                'pub fn hold_@(c: u32, r: &@) -> u32 { ev(format!("HOLDCALL @ {} {}", c, r.dig_())); r.v_().set(c * 3 + 1); r.v_().get() }\n',
                'pub fn mkvec_@(c: u32, first: u32, n: u32) -> Vec<@> { ev(format!("MKVEC @ {}", c)); (first..first + n).map(@::mk_).collect() }\n',
                'pub fn elem_@(r: &@) -> u32 { r.can_().id() }\n',
                'pub fn eatvec_@(c: u32, v: Vec<@>) { ev(format!("EATVEC @ {} {}{}", c, v.len(), v.iter().map(|e| format!(" {}", e.dig_())).collect::<String>())); }\n')))
        for f in self.fns:
            if f.recv:
                put((), "impl %s { %s }\n" % (f.recv.name, f.rust()))
            else:
                put(f.mod, f.rust())

        def emit(mod):
            s = "".join(mods.get(mod, []))
            kids = sorted({m[len(mod)] for m in mods if len(m) > len(mod) and m[:len(mod)] == mod})
            for k in kids:
                s += "pub mod %s { use super::*;\n%s}\n" % (k, emit(mod + (k,)))
            return s
        imports = "use std::pin::Pin;\nuse ffi::{P, E, O};\n" + "".join("use %s;\n" % t.path() for t in self.types if t.mod)
        imports += "thread_local! { %s }\n" % " ".join("static STASH_%s: std::cell::RefCell<Vec<Box<%s>>> = Default::default();" % (t.name, t.path()) for t in self.types)
        body = emit(())
        rng.shuffle(dirs)
        dirs = ["safety!(%s)" % rng.choice(["unsafe", "unsafe_ffi"])] + dirs
        after = rng.random() < 0.5
        inc = "include_cpp! {\n#include \"input.h\"\n%s\n}\n" % "\n".join(dirs)
        main_rs = RS_ALLOW + "use autocxx::prelude::*;\n" + ("" if after else inc) + RS_HEAD + imports + body + (inc if after else "") + "fn main() {\n%s\n}\n" % "\n".join(main)
        cpp = "\n".join(cc)
        return Case(name, "\n".join(h) + "\n", main_rs, cpp, files={"cxx.h": cxx_h})


def get_cxx_h(T):
    """cxx.h as the generator itself supplies it."""
    c = Case("cxxh", "#pragma once\ninline void nop() {}\n", 'autocxx::include_cpp! { #include "input.h" safety!(unsafe) generate!("nop") }\nfn main() {}\n')
    write_case(c)
    r = gen_step(T, c)
    p = os.path.join(c.dir, "out", "cxx.h")
    if r.rc != 0 or not os.path.exists(p):
        raise Inconclusive("cannot obtain cxx.h: %s" % first_error(r))
    t = open(p).read()
    cleanup(c)
    return t


def main():
    ck = Check("C16")
    ck.rule = "one program per random set of exported functions/methods/types and driver history; distinct by the set of call shapes"
    ck.assumptions += ["signatures limited to the types documented for extern_rust_function (no Result, &mut T, c_int, CxxString)", "methods only on types at the root of the file (documented)"]
    T = build_repo()
    cxx_h = get_cxx_h(T)
    n = 26 if ck.quick else 360

    def one(i):
        rng = ck.rng("prog", i)
        g = Gen(rng)
        case = g.build("p%d" % i, cxx_h)
        try:
            o = run_case(T, case)
            judge_trace(ck, case, o, g.exp, "export", alone=False)
        except Inconclusive as e:
            ck.note_inconclusive(e)
            return
        finally:
            cleanup(case)
        ck.evaluated(" ".join(sorted(set(g.sigs))))
        ck.count("events", len(g.exp))
        ck.count("calls C++ to Rust", g.c)
        ck.count("Rust values tracked", g.oid)
        for s in g.sigs:
            if "(" not in s:
                ck.saw("shapes", s)
            else:
                ck.saw("signatures", s)
        for t in g.types:
            ck.saw("type forms", "%s %s in %d modules" % (t.shape, t.style, len(t.mod)))
        names = [f.name for f in g.fns]
        ck.count("exported items sharing a name with another item", len([x for x in names if names.count(x) > 1 or x in g.cpp_methods or x in g.cpp_fns]))
        if i < 2:
            ck.sample("p%d: %d calls, %d Rust values, %d functions; e.g. %s" % (i, g.c, g.oid, len(g.fns), g.exp[1:4]))
    pmap(one, list(range(n)))
    return ck.finish(min_evals=max(1, n // 2))
