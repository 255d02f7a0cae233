"""C15: subclass objects: one life, no dangling peer, no aliased mutation.

Random ownership histories over Rust subclass objects; both halves (Rust struct, C++ base subobject) report
birth and death to a registry and carry canaries; every history is predicted step by step by a model of the
documented ownership rules. Histories that end in a forbidden re-entrant call (or a call into an object whose
Rust half has been relinquished and destroyed) must end in the documented panic and nowhere else."""
from .core import *
from .lib import *
from .types import q

RT = RT_CPP + r'''
#include <set>
static std::map<const void*, uint32_t>& vf_live() { static auto* m = new std::map<const void*, uint32_t>; return *m; }
static void vf_bad(const char* w, uint32_t id) { VfL("BAD").t(w).u(id); }
'''

RS_RT = RT_RS + r'''
thread_local! {
    static LIVE: std::cell::RefCell<std::collections::BTreeSet<u32>> = Default::default();
    static CUR: std::cell::Cell<u32> = std::cell::Cell::new(0);
}
pub trait Me { fn del(&self); fn bid(&self) -> u32; fn oid(&self) -> u32; }
extern "C" { fn vf_report(); }
fn report() { LIVE.with(|l| ev(format!("LR {:?}", l.borrow().iter().collect::<Vec<_>>()))); unsafe { vf_report() } }
pub struct Canary { oid: u32, at: std::cell::Cell<usize>, c: u64, h: Box<u64> }
impl Canary {
    fn new(oid: u32) -> Self {
        if !LIVE.with(|l| l.borrow_mut().insert(oid)) { ev(format!("BAD rust-born-twice {}", oid)); }
        Canary { oid, at: std::cell::Cell::new(0), c: 0xC0FFEE0000 + oid as u64, h: Box::new(oid as u64) }
    }
    fn check(&self, oid: u32, wher: &str) {
        if self.c != 0xC0FFEE0000 + oid as u64 || *self.h != oid as u64 || self.oid != oid { ev(format!("BAD rust-half-corrupt-or-dead {} {}", oid, wher)); std::process::exit(77); }
        let at = self as *const _ as usize;
        if self.at.get() == 0 { self.at.set(at) } else if self.at.get() != at { ev(format!("BAD rust-half-moved {} {}", oid, wher)); }
        if !LIVE.with(|l| l.borrow().contains(&oid)) { ev(format!("BAD rust-half-used-after-death {} {}", oid, wher)); std::process::exit(77); }
    }
}
impl Drop for Canary {
    fn drop(&mut self) {
        if self.c != 0xC0FFEE0000 + self.oid as u64 { ev("BAD rust-half-dropped-twice"); std::process::exit(77); }
        if !LIVE.with(|l| l.borrow_mut().remove(&self.oid)) { ev(format!("BAD rust-half-dropped-twice {}", self.oid)); std::process::exit(77); }
        unsafe { std::ptr::write_volatile(&mut self.c, 0xDEADDEAD) };
        ev(format!("RD {}", self.oid));
    }
}
'''


class Cls:
    def __init__(self, rng, i):
        self.i = i
        self.ns = rng.choice([(), ("na",), ("na", "nb"), ("nc",)])
        self.name = "B%d" % i
        self.cpp = "::" + q(self.ns, self.name)
        self.rs = "ffi::" + q(self.ns, self.name)
        self.offset_base = rng.random() < 0.4
        self.pure = rng.random() < 0.5
        self.args = rng.random() < 0.4          # constructor takes (id, tag)
        self.vname = rng.choice(["cm", "look", "on_look"])      # const method
        self.mname = rng.choice(["mm", "poke", "on_poke"])      # mutating method

    def decl(self):
        p = " = 0" if self.pure else ""
        s = "struct HB%d { uint64_t h0; virtual ~HB%d() {} };\n" % (self.i, self.i) if self.offset_base else ""
        s += ("class %(n)s%(b)s { public: %(n)s(%(a)s); virtual ~%(n)s(); uint32_t base_id() const; virtual uint32_t %(v)s(uint32_t n) const%(p)s; virtual uint32_t %(m)s(uint32_t n)%(p)s; "
              "%(n)s(const %(n)s&) = delete; void chk(const char* w) const; private: uint32_t id_; uint64_t canary_; uint32_t* heap_; };\n") % dict(
                  n=self.name, b=" : public HB%d" % self.i if self.offset_base else "", a="uint32_t id, const std::string& tag" if self.args else "", v=self.vname, m=self.mname, p=p)
        return s

    def defs(self):
        d = dict(q=self.cpp[2:], n=self.name, v=self.vname, m=self.mname)
        init = "uint32_t id, const std::string& tag" if self.args else ""
        s = "%(q)s::%(n)s(" % d + init + ") : id_(" + ("id" if self.args else "vf_next_id++") + "), canary_(0xBEEF0000ull + id_), heap_(new uint32_t(id_)) { " + \
            ("if (tag != \"tag\") vf_bad(\"ctor-arg\", id_); " if self.args else "") + \
            "VfL(\"CB\").u(id_); if (!vf_live().emplace(this, id_).second) vf_bad(\"cpp-born-over-live\", id_); }\n"
        s += ("void %(q)s::chk(const char* w) const { if (!vf_live().count(this) || canary_ != 0xBEEF0000ull + id_ || *heap_ != id_) { vf_bad(w, 0); _exit(77); } }\n"
              "%(q)s::~%(n)s() { chk(\"cpp-half-destroyed-twice\"); VfL(\"CD\").u(id_); vf_live().erase(this); canary_ = 0xDEAD; delete heap_; }\n"
              "uint32_t %(q)s::base_id() const { chk(\"cpp-half-used-after-death\"); return id_; }\n") % d
        if not self.pure:
            s += ("uint32_t %(q)s::%(v)s(uint32_t n) const { chk(\"cpp-half-used-after-death\"); VfL(\"SUP %(v)s\").u(id_).u(n); return n + 7; }\n"
                  "uint32_t %(q)s::%(m)s(uint32_t n) { chk(\"cpp-half-used-after-death\"); VfL(\"SUP %(m)s\").u(id_).u(n); return n + 9; }\n") % d
        i = self.i
        for l in ("static std::unique_ptr<@C> vf_o@I[64]; static @C* vf_p@I[64];",
                  "void vf_own@I(uint32_t s, std::unique_ptr<@C> u) { vf_p@I[s] = u.get(); vf_o@I[s] = std::move(u); }",
                  "std::unique_ptr<@C> vf_take@I(uint32_t s) { return std::move(vf_o@I[s]); }",
                  "void vf_ref@I(uint32_t s, const @C& r) { vf_p@I[s] = const_cast<@C*>(&r); }",
                  "uint32_t vf_same@I(uint32_t s, const @C& r) { return vf_p@I[s] == &r; }",
                  "void vf_free@I(uint32_t s) { vf_o@I[s].reset(); }",
                  "uint32_t vf_bid@I(uint32_t s) { return vf_p@I[s]->base_id(); }",
                  "uint32_t vf_c@I(uint32_t s, uint32_t n) { return static_cast<const @C*>(vf_p@I[s])->%s(n); }" % self.vname,
                  "uint32_t vf_m@I(uint32_t s, uint32_t n) { return vf_p@I[s]->%s(n); }" % self.mname):
            s += l.replace("@C", self.cpp).replace("@I", str(i)) + "\n"
        return s

    def protos(self):
        out = ""
        for l in ("void vf_own@I(uint32_t s, std::unique_ptr<@C> u);", "std::unique_ptr<@C> vf_take@I(uint32_t s);", "void vf_ref@I(uint32_t s, const @C& r);",
                  "uint32_t vf_same@I(uint32_t s, const @C& r);", "void vf_free@I(uint32_t s);", "uint32_t vf_bid@I(uint32_t s);",
                  "uint32_t vf_c@I(uint32_t s, uint32_t n);", "uint32_t vf_m@I(uint32_t s, uint32_t n);"):
            out += l.replace("@C", self.cpp).replace("@I", str(self.i)) + "\n"
        return out

    def dirs(self):
        return ['generate!("vf_%s%d")' % (x, self.i) for x in ("own", "take", "ref", "same", "free", "bid", "c", "m")] + ['generate!("%s")' % q(self.ns, self.name)]


class Sub:
    def __init__(self, rng, i, cls, selfowned):
        self.i, self.cls, self.selfowned = i, cls, selfowned
        self.name = "S%d" % i
        self.sup = not cls.pure and rng.random() < 0.6      # methods also call the superclass implementation
        self.has_default = not cls.args and rng.random() < 0.5

    def rust(self):
        c = self.cls
        s = "#[subclass%s]\npub struct %s { can: Canary, n: u32, log: Vec<u32> }\n" % ("(self_owned)" if self.selfowned else "", self.name)
        s += "impl %s { fn make(oid: u32) -> Self { %s { can: Canary::new(oid), n: 0, log: vec![], cpp_peer: Default::default() } } }\n" % (self.name, self.name)
        if self.has_default:
            s += "impl Default for %s { fn default() -> Self { Self::make(CUR.with(|c| c.get())) } }\n" % self.name
        s += "impl Me for %s { fn del(&self) { %s } fn bid(&self) -> u32 { let r: &%s = self.as_ref(); r.base_id() } fn oid(&self) -> u32 { self.can.oid } }\n" % (
            self.name, "self.delete_self()" if self.selfowned else "unreachable!()", c.rs)
        if c.args:
            s += ("impl CppPeerConstructor<ffi::%sCpp> for %s { fn make_peer(&mut self, ph: CppSubclassRustPeerHolder<Self>) -> cxx::UniquePtr<ffi::%sCpp> { "
                  "ffi::%sCpp::new(ph, self.can.oid + 5000, &ffi::make_string(\"tag\")).within_unique_ptr() } }\n") % ((self.name,) * 4)
        for nm, mut in ((c.vname, False), (c.mname, True)):
            pass
        s += "impl %s_methods for %s {\n" % (c.rs, self.name)
        for nm, mut in ((c.vname, False), (c.mname, True)):
            s += " fn %s(&%sself, n: u32) -> u32 { let oid = self.can.oid; self.can.check(oid, \"enter\"); ev(format!(\"IN %s {} {} {}\", oid, n, self.n)); %s run(n, Some(&*self)); self.can.check(oid, \"leave\"); %s ev(format!(\"OUT %s {} {}\", oid, self.n)); %s }\n" % (
                nm, "mut " if mut else "", nm, "self.n += 1; self.log.push(n); let keep = self.n;" if mut else "",
                "if self.n != keep || self.log.len() != keep as usize { ev(\"BAD aliased-mutation\"); }" if mut else "",
                nm, ("%sself.%s_super(n)" % ("", nm)) if self.sup else "n + 1")
        return s + "}\n"


class Stop(Exception):
    """The history ends here, in a panic."""


class Obj:
    def __init__(self, oid, sub, kind, bid):
        self.oid, self.sub, self.kind, self.bid = oid, sub, kind, bid
        self.rcs = 0            # strong handles in the Rust handle table
        self.holder = False     # C++ half keeps the Rust half alive
        self.frames = 0         # handles on the stack
        self.rust_owns_peer = kind != "cpp"
        self.rust_alive = True
        self.peer_alive = True
        self.shared = 0
        self.mut = False
        self.n = 0
        self.where = None       # for the C++-owned: "up" (UniquePtr<SubCpp> in Rust), "ub" (UniquePtr<Base> in Rust), "cpp"


class Gen:
    def __init__(self, rng, subs):
        self.rng, self.subs = rng, subs
        self.objs = []
        self.exp = []
        self.acts = {}
        self.nact = 0
        self.next_bid = 100
        self.budget = rng.choice([30, 60, 90])
        self.stop_msg = None
        self.allow_stop = rng.random() < 0.35
        self.sigs = []
        self.depth = 0
        self.stack = []         # kinds of frames, innermost last

    # ---- model
    def settle(self, o):
        """Destroys what no owner is left for."""
        if o.rust_alive and o.rcs + o.frames + (1 if o.holder and o.peer_alive else 0) == 0:
            o.rust_alive = False
            self.exp.append("RD %d" % o.oid)
            if o.rust_owns_peer:
                o.peer_alive = False
                self.exp.append("CD %d" % o.bid)

    def free_peer(self, o):
        """The C++-side owner destroys the C++ half."""
        o.peer_alive = False
        was = o.holder
        o.holder = False
        if was:
            self.settle(o)
        self.exp.append("CD %d" % o.bid)

    # ---- operations: each returns Rust statements
    def op_new(self, me):
        rng = self.rng
        sub = rng.choice(self.subs)
        kind = rng.choice(["rust", "cpp"] + (["self", "self"] if sub.selfowned else []))
        oid = len(self.objs) + 1
        if oid > 60:
            return []
        if sub.cls.args:
            bid = oid + 5000
        else:
            bid = self.next_bid
            self.next_bid += 1
        o = Obj(oid, sub, kind, bid)
        self.objs.append(o)
        self.exp.append("CB %d" % bid)
        S, i = sub.name, sub.cls.i
        ctor = "%s::new_%s_owned(%s::make(%d))" % (S, kind, S, oid)
        if sub.has_default and rng.random() < 0.5:
            ctor = "{ CUR.with(|c| c.set(%d)); %s::default_%s_owned() }" % (oid, S, kind)
        self.sigs.append("new %s %s" % (kind, "default" if sub.has_default else "explicit"))
        if kind == "cpp":
            o.holder = True
            o.where = "up"
            return ["let p = %s; UP_%s.with(|t| t.borrow_mut().insert(%d, p));" % (ctor, S, oid)] + self.do_upcast(o)
        o.holder = kind == "self"
        o.rcs = 1
        self.exp.append("SAME 1")
        return ["let r = %s; ffi::vf_ref%d(%d, r.as_ref().borrow().as_ref()); ev(format!(\"SAME {}\", ffi::vf_same%d(%d, &*r.as_ref().borrow_mut().pin_mut()))); H_%s.with(|t| t.borrow_mut().push((%d, r)));" % (
            ctor, i, oid, i, oid, S, oid)]

    def do_upcast(self, o):
        S, i, B = o.sub.name, o.sub.cls.i, o.sub.cls.name
        take = "UP_%s.with(|t| t.borrow_mut().remove(&%d)).unwrap()" % (S, o.oid)
        k = self.rng.random()
        if k < 0.2:
            # stay as a pointer to the subclass peer; C++ sees it by reference
            o.where = "up"
            self.sigs.append("keep-subclass-pointer")
            return ["UP_%s.with(|t| { let t = t.borrow(); let p = &t[&%d]; ffi::vf_ref%d(%d, p.As_%s()); });" % (S, o.oid, i, o.oid, B)] if False else \
                   ["let u = %s::as_%s_unique_ptr(%s); ffi::vf_ref%d(%d, u.as_ref().unwrap()); UB_%d.with(|t| t.borrow_mut().insert(%d, u));" % (S, B, take, i, o.oid, i, o.oid)] + self._w(o, "ub")
        if k < 0.5:
            self.sigs.append("upcast-rust")
            return ["let u = %s::as_%s_unique_ptr(%s); ffi::vf_ref%d(%d, u.as_ref().unwrap()); UB_%d.with(|t| t.borrow_mut().insert(%d, u));" % (S, B, take, i, o.oid, i, o.oid)] + self._w(o, "ub")
        self.sigs.append("upcast-cpp")
        return ["ffi::vf_own%d(%d, %s::as_%s_unique_ptr(%s));" % (i, o.oid, S, B, take)] + self._w(o, "cpp")

    def _w(self, o, w):
        o.where = w
        return []

    def callable(self):
        return [o for o in self.objs if o.peer_alive]

    def op_call(self, me):
        """C++ calls the virtual method of an object."""
        rng = self.rng
        c = self.callable()
        if not c:
            return []
        o = rng.choice(c)
        mut = rng.random() < 0.5
        if rng.random() < 0.3 and me is not None and me.peer_alive:
            o = me
        return self.call(o, mut)

    def call(self, o, mut):
        rng = self.rng
        i = o.sub.cls.i
        meth = o.sub.cls.mname if mut else o.sub.cls.vname
        bad = None
        if not o.rust_alive:
            bad = "called after subclass destroyed"
        elif o.mut or (mut and o.shared):
            bad = "called whilst subclass already borrowed"
        via = rng.choice(["cpp", "cpp", "rust"]) if (o.kind == "cpp" and o.where == "ub" and not mut) else "cpp"
        if bad:
            if not self.allow_stop or rng.random() < 0.5:
                return []
            self.stop_msg = "Rust subclass API (method %s of subclass %s of superclass %s) %s" % (meth, o.sub.name, o.sub.cls.name, bad)
            self.sigs.append("stop %s %s depth %d" % ("destroyed" if "destroyed" in bad else "reentrant", "mut" if mut else "const", min(self.depth, 3)))
            self.acts_stop = True
            self.exp.append("GO")
            return ["ev(\"GO\"); ffi::vf_%s%d(%d, 0); ev(\"BAD went-on-after-forbidden-call\");" % ("m" if mut else "c", i, o.oid)]
        n = self.nact = self.nact + 1
        self.sigs.append("call %s %s depth%d%s" % (o.kind, "mut" if mut else "const", min(self.depth, 3), " reentrant" if o.shared else ""))
        self.exp.append("IN %s %d %d %d" % (meth, o.oid, n, o.n))
        o.frames += 1
        if mut:
            o.mut = True
            o.n += 1
        else:
            o.shared += 1
        body = self.ops(o, rng.choice([0, 0, 1, 2, 3]))
        self.acts[n] = body
        if self.stop_msg:
            return ["ffi::vf_%s%d(%d, %d);" % ("m" if mut else "c", i, o.oid, n)]
        self.exp.append("OUT %s %d %d" % (meth, o.oid, o.n))
        ret = n + 1
        if o.sub.sup and o.peer_alive:
            self.exp.append("SUP %s %d %d" % (meth, o.bid, n))
            ret = n + (9 if mut else 7)
        elif o.sub.sup:
            raise AssertionError("super call on a dead peer must not be generated")
        if mut:
            o.mut = False
        else:
            o.shared -= 1
        o.frames -= 1
        self.settle(o)
        self.exp.append("RET %d" % ret)
        return ["ev(format!(\"RET {}\", ffi::vf_%s%d(%d, %d)));" % ("m" if mut else "c", i, o.oid, n)]

    def op_hold(self, me):
        """Rust keeps a (mutable) borrow of the Rust half while doing other things."""
        rng = self.rng
        c = [o for o in self.objs if o.rcs and not o.mut]
        if not c:
            return []
        o = rng.choice(c)
        mut = rng.random() < 0.4 and not o.shared
        n = self.nact = self.nact + 1
        o.frames += 1
        if mut:
            o.mut = True
        else:
            o.shared += 1
        self.sigs.append("hold %s %s" % (o.kind, "mut" if mut else "const"))
        self.exp.append("HOLD %d" % o.oid)
        body = self.ops(None, rng.choice([1, 2, 3]))
        self.acts[n] = body
        S = o.sub.name
        out = ["let r = H_%s.with(|t| t.borrow().iter().find(|e| e.0 == %d).unwrap().1.clone()); { let g = r.as_ref().borrow%s(); g.can.check(%d, \"hold\"); ev(\"HOLD %d\"); run(%d, None); g.can.check(%d, \"held\"); } drop(r); ev(\"UNHOLD %d\");" % (
            S, o.oid, "_mut" if mut else "", o.oid, o.oid, n, o.oid, o.oid)]
        if self.stop_msg:
            return out
        if mut:
            o.mut = False
        else:
            o.shared -= 1
        o.frames -= 1
        self.settle(o)
        self.exp.append("UNHOLD %d" % o.oid)
        return out

    def op_direct(self, me):
        """Rust reads the C++ half through the Rust half."""
        c = [o for o in self.objs if o.rcs and not o.mut]
        if not c:
            return []
        o = self.rng.choice(c)
        if not o.peer_alive:
            return []
        self.exp.append("BID %d" % o.bid)
        self.sigs.append("direct " + o.kind)
        return ["H_%s.with(|t| { let t = t.borrow(); let r = &t.iter().find(|e| e.0 == %d).unwrap().1; ev(format!(\"BID {}\", r.as_ref().borrow().bid())); });" % (o.sub.name, o.oid)]

    def op_bid(self, me):
        c = self.callable()
        if not c:
            return []
        o = self.rng.choice(c)
        self.exp.append("BID %d" % o.bid)
        return ["ev(format!(\"BID {}\", ffi::vf_bid%d(%d)));" % (o.sub.cls.i, o.oid)]

    def op_clone(self, me):
        c = [o for o in self.objs if o.rcs]
        if not c:
            return []
        o = self.rng.choice(c)
        o.rcs += 1
        self.sigs.append("clone " + o.kind)
        return ["H_%s.with(|t| { let mut t = t.borrow_mut(); let r = t.iter().find(|e| e.0 == %d).unwrap().1.clone(); t.push((%d, r)); });" % (o.sub.name, o.oid, o.oid)]

    def op_drop(self, me):
        c = [o for o in self.objs if o.rcs]
        if not c:
            return []
        o = self.rng.choice(c)
        if o.rcs == 1 and o.holder and o.kind == "self" and self.rng.random() < 0.5:
            return []
        if o.rcs == 1 and self.in_super(o) and not o.holder and not o.frames:
            return []
        self.sigs.append("drop %s %s depth%d%s" % (o.kind, "last" if o.rcs == 1 else "one", min(self.depth, 2), " own-frame" if o.frames else ""))
        return self.do_drop(o)

    def in_super(self, o):
        return False

    def do_drop(self, o):
        o.rcs -= 1
        self.settle(o)
        return ["let r = H_%s.with(|t| { let mut t = t.borrow_mut(); let k = t.iter().position(|e| e.0 == %d).unwrap(); t.remove(k) }); drop(r);" % (o.sub.name, o.oid)]

    def op_free(self, me):
        c = [o for o in self.objs if o.kind == "cpp" and o.peer_alive and o.where in ("ub", "cpp", "up")]
        # the C++ half may go while its own method runs, unless that method still needs it for a super call
        c = [o for o in c if not (o.frames and o.sub.sup)]
        if not c:
            return []
        o = self.rng.choice(c)
        self.sigs.append("free %s%s" % (o.where, " own-frame" if o.frames else ""))
        return self.do_free(o)

    def do_free(self, o):
        self.free_peer(o)
        w, o.where = o.where, None
        if w == "cpp":
            return ["ffi::vf_free%d(%d);" % (o.sub.cls.i, o.oid)]
        if w == "up":
            return ["let r = UP_%s.with(|t| t.borrow_mut().remove(&%d)); drop(r);" % (o.sub.name, o.oid)]
        return ["let r = UB_%d.with(|t| t.borrow_mut().remove(&%d)); drop(r);" % (o.sub.cls.i, o.oid)]

    def op_move(self, me):
        """Hands a C++-owned object between Rust and C++ owners."""
        c = [o for o in self.objs if o.kind == "cpp" and o.peer_alive and o.where in ("ub", "cpp")]
        if not c:
            return []
        o = self.rng.choice(c)
        i = o.sub.cls.i
        self.sigs.append("transfer from " + o.where)
        if o.where == "cpp":
            o.where = "ub"
            return ["let u = ffi::vf_take%d(%d); UB_%d.with(|t| t.borrow_mut().insert(%d, u));" % (i, o.oid, i, o.oid)]
        o.where = "cpp"
        return ["let u = UB_%d.with(|t| t.borrow_mut().remove(&%d)).unwrap(); ffi::vf_own%d(%d, u);" % (i, o.oid, i, o.oid)]

    def op_del(self, me):
        """delete_self"""
        rng = self.rng
        if me is not None and me.sub.selfowned and rng.random() < 0.8:
            o = me
            st = ["me.unwrap().del();"]
        else:
            c = [o for o in self.objs if o.rcs and o.sub.selfowned and not o.mut and o.peer_alive]
            if not c:
                return []
            o = rng.choice(c)
            st = ["let r = H_%s.with(|t| t.borrow().iter().find(|e| e.0 == %d).unwrap().1.clone()); r.as_ref().borrow().del(); drop(r);" % (o.sub.name, o.oid)]
        if not o.peer_alive:
            return []
        if o.kind == "cpp" and not self.allow_stop:
            return []           # leaves a C++ half whose calls must panic: only useful in histories that may end so
        self.sigs.append("delete_self %s%s" % (o.kind, " again" if not o.holder else ""))
        o.holder = False
        self.settle(o)
        return st

    def op_report(self, me):
        self.report()
        return ["report();"]

    def report(self):
        self.exp.append("LR [%s]" % ", ".join(str(o.oid) for o in self.objs if o.rust_alive))
        self.exp.append("LC" + "".join(" %d" % b for b in sorted(o.bid for o in self.objs if o.peer_alive)))

    def ops(self, me, k):
        out = []
        self.depth += 1
        table = [(self.op_new, 3), (self.op_call, 6), (self.op_hold, 2), (self.op_direct, 2), (self.op_bid, 1), (self.op_clone, 1), (self.op_drop, 2), (self.op_free, 2),
                 (self.op_move, 1), (self.op_del, 3), (self.op_report, 1)]
        for _ in range(k):
            if self.stop_msg or self.budget <= 0:
                break
            if self.depth > 4:
                break
            self.budget -= 1
            f = self.rng.choices([t[0] for t in table], [t[1] for t in table])[0]
            out += ["{ %s }" % l for l in f(me)]
        self.depth -= 1
        return out

    def teardown(self):
        out = []
        for o in self.objs:
            # a self-owned object with no handle left can only be told to go from inside a method
            if o.kind == "self" and o.holder and o.peer_alive and o.rust_alive:
                n = self.nact = self.nact + 1
                i = o.sub.cls.i
                meth = o.sub.cls.vname
                self.exp += ["IN %s %d %d %d" % (meth, o.oid, n, o.n), "OUT %s %d %d" % (meth, o.oid, o.n)]
                o.frames += 1
                o.holder = False
                self.acts[n] = ["{ me.unwrap().del(); }"]
                ret = n + 1
                if o.sub.sup:
                    self.exp.append("SUP %s %d %d" % (meth, o.bid, n))
                    ret = n + 7
                o.frames -= 1
                self.settle(o)
                self.exp.append("RET %d" % ret)
                out.append("ev(format!(\"RET {}\", ffi::vf_c%d(%d, %d)));" % (i, o.oid, n))
        todo = [o for o in self.objs if o.rcs or (o.kind == "cpp" and o.peer_alive)]
        self.rng.shuffle(todo)
        for o in todo:
            while o.rcs:
                out += ["{ %s }" % l for l in self.do_drop(o)]
            if o.kind == "cpp" and o.peer_alive:
                out += ["{ %s }" % l for l in self.do_free(o)]
        self.report()
        out.append("report();")
        return out


def make_program(rng, name):
    classes = [Cls(rng, i) for i in range(rng.choice([1, 2, 2]))]
    subs = [Sub(rng, i, rng.choice(classes), rng.random() < 0.6) for i in range(rng.choice([1, 2, 3]))]
    used = [c for c in classes if any(s.cls is c for s in subs)]
    hdr = "#pragma once\n#include <cstdint>\n#include <string>\n#include <memory>\n"
    for c in used:
        hdr += "".join("namespace %s { " % n for n in c.ns) + "\n" + c.decl() + "".join("} " for n in c.ns) + "\n"
    hdr += "".join(c.protos() for c in used)
    cpp = RT + "static uint32_t vf_next_id = 100;\n" + "".join(c.defs() for c in used)
    cpp += "extern \"C\" void vf_report() { std::multiset<uint32_t> s; for (auto& e : vf_live()) s.insert(e.second); VfL l(\"LC\"); for (auto x : s) l.u(x); }\n"
    g = Gen(rng, subs)
    body = g.ops(None, g.budget)
    if not g.stop_msg:
        body += g.teardown()
    dirs = [d for c in used for d in c.dirs()] + ['subclass!("%s", %s)' % (q(s.cls.ns, s.cls.name), s.name) for s in subs] + [rng.choice(["safety!(unsafe)", "safety!(unsafe_ffi)"])]
    rng.shuffle(dirs)
    tl = ""
    for s in subs:
        tl += "    static H_%s: std::cell::RefCell<Vec<(u32, std::rc::Rc<std::cell::RefCell<%s>>)>> = Default::default();\n" % (s.name, s.name)
        tl += "    static UP_%s: std::cell::RefCell<std::collections::BTreeMap<u32, cxx::UniquePtr<ffi::%sCpp>>> = Default::default();\n" % (s.name, s.name)
    for c in used:
        tl += "    static UB_%d: std::cell::RefCell<std::collections::BTreeMap<u32, cxx::UniquePtr<%s>>> = Default::default();\n" % (c.i, c.rs)
    run = "fn run(n: u32, me: Option<&dyn Me>) { match n {\n" + "".join("%d => {\n%s\n}\n" % (k, "\n".join(v)) for k, v in sorted(g.acts.items()) if v) + "_ => {} } }\n"
    sups = sorted(set("%s_supers" % s.cls.rs for s in subs if s.sup))
    main = (RS_ALLOW + "use autocxx::prelude::*;\nuse autocxx::subclass::prelude::*;\ninclude_cpp! {\n#include \"input.h\"\n%s\n}\n%s\nthread_local! {\n%s}\n%s%s\n%s\nfn main() {\n%s\n}\n") % (
        "\n".join(dirs), RS_RT, tl, "".join("use %s as _;\n" % s for s in sups), "".join(s.rust() for s in subs), run, "\n".join(body))
    case = Case(name, hdr, main, cpp, clang_args=["-std=" + rng.choice(["c++14", "c++17"])])
    return case, g


def judge(ck, case, o, g, sig):
    if not g.stop_msg or o.stage != "run":
        return judge_trace(ck, case, o, g.exp, sig)
    err = o.runr.err
    if SAN_REPORT.search(err) and "AddressSanitizer:DEADLYSIGNAL" not in err and "ABRT" not in err:
        ck.violation(sig + ":sanitizer", "%s: sanitizer report\n%s" % (case.name, err[:5000]), src=case.dir)
        return False
    if o.trace != g.exp or o.runr.rc == 0 or g.stop_msg not in err:
        ck.violation(sig + ":stop", "%s: the forbidden call must end in the panic %r (rc=%s)\n%s\nstderr: %s" % (
            case.name, g.stop_msg, o.runr.rc, "\n".join(trace_diff(g.exp, o.trace)), err[-1500:]), src=case.dir)
        return False
    ck.count("histories_ending_in_required_panic")
    return True


def main():
    ck = Check("C15")
    T = build_repo()
    ck.rule = ("one evaluation = one operation of a random ownership history (create under Rust/C++/self ownership, clone/drop handles, upcast and hand over unique_ptrs, call virtual methods "
               "from C++ with nested operations, hold borrows, delete_self, destroy) on subclass objects; birth/death/use of both halves is logged by registries with canaries, under ASan, and must equal "
               "the ownership model's history; forbidden re-entrant or after-death calls must end in the documented panic. distinct = distinct (operation, ownership, nesting) kinds")
    n = 48 if ck.quick else 500

    def one(i):
        rng = ck.rng("prog", i)
        case, g = make_program(rng, "c15_%d" % i)
        o = run_case(T, case)
        ok = judge(ck, case, o, g, "prog%d" % i)
        for s in g.sigs:
            ck.evaluated(s)
        ck.count("programs")
        ck.count("objects", len(g.objs))
        ck.count("events_checked", len(g.exp))
        if ok and i < 2:
            ck.sample({"ops": g.sigs[:8], "events": g.exp[:12]})
        cleanup(case)

    for r in pmap(one, range(n)):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=100)
