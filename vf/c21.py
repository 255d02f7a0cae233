"""C21: automatic allowlisting finds what the Rust code uses.

Random Rust programs reach C++ functions and types by ffi:: paths in every kind of expression, statement, pattern annotation,
signature and generic argument the discovery documents, in functions, closures, nested functions, modules, impls and traits.
Nothing is listed by hand; the program must build, run and give exactly the history an interpreter of the same program
predicts; rustc is asked whether anything that was not mentioned is exposed. Each item is mentioned in one place only, so a
position that discovery forgets shows."""
from .core import *
from .lib import *
from .types import q, wrap_ns

M32 = 0xffffffff


class Brk(Exception):
    pass


class G:
    def __init__(self, rng, ck):
        self.rng, self.ck = rng, ck
        self.events = []
        self.funs, self.classes, self.enums = [], [], []
        self.items = []         # Rust items at the root
        self.mods = {}          # module path -> items
        self.nid = 0
        self.h, self.cc = [], []
        self.pos = {}
        self.nss = [(), (), ("na",), ("na", "nb"), ("nc",)]

    def fresh(self):
        self.nid += 1
        return self.nid

    def saw(self, what):
        self.pos[what] = self.pos.get(what, 0) + 1

    # C++ items -------------------------------------------------------------------------------------------------------
    def fun(self):
        k, ns = self.fresh(), self.rng.choice(self.nss)
        n = "fn%d" % k
        self.h.append(wrap_ns(ns, "uint32_t %s(uint32_t x);" % n))
        self.cc.append(wrap_ns(ns, 'uint32_t %s(uint32_t x) { VfL("F%d").u(x); return x * 31u + %du; }' % (n, k, k)))
        self.funs.append((ns, n))

        def ev(x):
            self.events.append("F%d %d" % (k, x))
            return (x * 31 + k) & M32
        return "ffi::" + q(ns, n), ev

    def cls(self):
        k, ns = self.fresh(), self.rng.choice(self.nss)
        n = "Kl%d" % k
        self.h.append(wrap_ns(ns, "class %s { public: explicit %s(uint32_t v); uint32_t get(uint32_t x) const; void put(uint32_t v); private: uint32_t v_; std::string s_; }; std::unique_ptr<%s> mk%d(uint32_t v);" % (n, n, n, k)))
        N = "::" + q(ns, n)
        self.cc.append(wrap_ns(ns, '%s::%s(uint32_t v) : v_(v) {} uint32_t %s::get(uint32_t x) const { VfL("G%d").u(v_).u(x); return v_ * 7u + x; } void %s::put(uint32_t v) { VfL("P%d").u(v); v_ = v; } std::unique_ptr<%s> mk%d(uint32_t v) { VfL("M%d").u(v); return std::unique_ptr<%s>(new %s(v)); }' % (
            n, n, n, k, n, k, n, k, k, n, n)))
        self.classes.append((ns, n))
        return k, "ffi::" + q(ns, n), "ffi::" + q(ns, "mk%d" % k)

    def enum(self):
        k, ns = self.fresh(), self.rng.choice(self.nss)
        vals = [self.rng.randrange(0, 1 << 16) for _ in range(3)]
        self.h.append(wrap_ns(ns, "enum class En%d : uint32_t { A%d = %d, B%d = %d, C%d = %d }; En%d mke%d(uint32_t x);" % (k, k, vals[0], k, vals[1] + (1 << 16), k, vals[2] + (1 << 17), k, k)))
        self.cc.append(wrap_ns(ns, 'En%d mke%d(uint32_t x) { VfL("E%d").u(x); return x %% 3 == 0 ? En%d::A%d : x %% 3 == 1 ? En%d::B%d : En%d::C%d; }' % (k, k, k, k, k, k, k, k, k)))
        vals = [vals[0], vals[1] + (1 << 16), vals[2] + (1 << 17)]
        return k, "ffi::" + q(ns, "En%d" % k), "ffi::" + q(ns, "mke%d" % k), vals

    # u32 expressions: (text, thunk) ----------------------------------------------------------------------------------
    def lit(self):
        v = self.rng.choice([0, 1, 2, 3, 7, 100, M32, self.rng.randrange(1 << 32)])
        return "%du32" % v, lambda: v

    def call(self, d):
        n, ev = self.fun()
        t, a = self.expr(d - 1)
        return "%s(%s)" % (n, t), lambda: ev(a())

    def expr(self, d):
        if d <= 0:
            return self.lit() if self.rng.random() < 0.6 else self.call(0)
        k = self.rng.random()
        if k < 0.25:
            return self.call(d)
        w = self.rng.choice(self.WRAPS)
        self.saw("expr " + w.__name__[2:])
        return w(self, d)

    def e_block(self, d):
        t, a = self.expr(d - 1)
        s, b = self.expr(d - 1)

        def ev():
            b()
            return a()
        return "{ let _ = %s; %s }" % (s, t), ev

    def e_stmt(self, d):
        t, a = self.expr(d - 1)
        s, b = self.call(d - 1)

        def ev():
            b()
            return a()
        return "{ %s; %s }" % (s, t), ev

    def e_paren(self, d):
        t, a = self.expr(d - 1)
        return "(%s)" % t, a

    def e_if(self, d):
        (c, cv), (t, a), (s, b) = self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)
        r = self.rng.randrange(2)
        return "(if %s %% 2 == %d { %s } else { %s })" % (self.w(c), r, t, s), lambda: a() if cv() % 2 == r else b()

    def e_elseif(self, d):
        (c, cv), (c2, cv2), (t, a), (s, b), (u, e) = self.expr(d - 1), self.expr(d - 1), self.expr(d - 2), self.expr(d - 2), self.expr(d - 2)

        def ev():
            if cv() % 3 == 0:
                return a()
            if cv2() % 3 == 1:
                return b()
            return e()
        return "(if %s %% 3 == 0 { %s } else if %s %% 3 == 1 { %s } else { %s })" % (self.w(c), t, self.w(c2), s, u), ev

    def w(self, t):
        return "(%s)" % t

    def e_match(self, d):
        (c, cv), (t, a), (g, gv), (s, b), (u, e) = self.expr(d - 1), self.expr(d - 2), self.expr(d - 2), self.expr(d - 2), self.expr(d - 2)

        def ev():
            x = cv() % 3
            if x == 0:
                return a()
            if x == 1 and gv() % 2 == 0:
                return b()
            return e()
        return "(match %s %% 3 { 0 => %s, n if n == 1 && %s %% 2 == 0 => { %s } _ => %s })" % (self.w(c), t, self.w(g), s, u), ev

    def e_array(self, d):
        (t, a), (s, b) = self.expr(d - 1), self.expr(d - 1)
        r = self.rng.randrange(2)
        return "[%s, %s][%d]" % (t, s, r), lambda: (a(), b())[r]

    def e_index(self, d):
        t, a = self.expr(d - 1)
        return "[11u32, 22, 33][(%s %% 3) as usize]" % self.w(t), lambda: (11, 22, 33)[a() % 3]

    def e_tuple(self, d):
        (t, a), (s, b) = self.expr(d - 1), self.expr(d - 1)
        r = self.rng.randrange(2)
        return "(%s, %s).%d" % (t, s, r), lambda: (a(), b())[r]

    def e_repeat(self, d):
        t, a = self.expr(d - 1)
        return "[%s; 2][1]" % t, a

    def e_binary(self, d):
        (t, a), (s, b) = self.expr(d - 1), self.expr(d - 1)
        op = self.rng.choice("&|^")
        return "(%s %s %s)" % (self.w(t), op, self.w(s)), lambda: {"&": lambda x, y: x & y, "|": lambda x, y: x | y, "^": lambda x, y: x ^ y}[op](a(), b())

    def e_assign(self, d):
        (t, a), (s, b) = self.expr(d - 1), self.expr(d - 1)

        def ev():
            b()
            return a()
        n = self.fresh()
        return "{ let mut a%d = %s; a%d = %s; a%d }" % (n, s, n, t, n), ev

    def e_opassign(self, d):
        (t, a), (s, b) = self.expr(d - 1), self.expr(d - 1)
        n = self.fresh()

        def ev():
            x = b()
            return x ^ a()
        return "{ let mut a%d = %s; a%d ^= %s; a%d }" % (n, s, n, t, n), ev

    def e_assign_place(self, d):
        (t, a), (s, b) = self.expr(d - 1), self.expr(d - 1)
        n = self.fresh()

        def ev():
            r = a()         # right operand of a plain assignment first, then the place
            x = [5, 6]
            x[b() % 2] = r
            return x[0]
        return "{ let mut a%d = [5u32, 6]; a%d[(%s %% 2) as usize] = %s; a%d[0] }" % (n, n, self.w(s), t, n), ev

    def e_unary(self, d):
        t, a = self.expr(d - 1)
        return "(!%s)" % self.w(t), lambda: ~a() & M32

    def e_deref(self, d):
        t, a = self.expr(d - 1)
        return "(*&%s)" % self.w(t), a

    def e_refmut(self, d):
        t, a = self.expr(d - 1)
        return "(*&mut { %s })" % t, a

    def e_cast(self, d):
        t, a = self.expr(d - 1)
        return "(%s as u64 as u32)" % self.w(t), a

    def e_method(self, d):
        (t, a), (s, b) = self.expr(d - 1), self.expr(d - 1)

        def ev():
            x = a()
            return (x + b()) & M32
        return "%s.wrapping_add(%s)" % (self.w(t), s), ev

    def e_try(self, d):
        t, a = self.expr(d - 1)
        n = self.fresh()
        return "{ let o%d = || -> Option<u32> { Some(Some(%s)?) }; o%d().unwrap() }" % (n, t, n), a

    def e_closure(self, d):
        (t, a), (s, b) = self.expr(d - 1), self.expr(d - 1)

        def ev():
            x = b()
            return (x ^ a())
        mv = self.rng.choice(["", "move "])
        n = self.fresh()
        return "(%s|x%d: u32| x%d ^ %s)(%s)" % (mv, n, n, self.w(t), s), ev

    def e_loop(self, d):
        t, a = self.expr(d - 1)
        return "loop { break %s; }" % t, a

    def e_labelled(self, d):
        t, a = self.expr(d - 1)
        n = self.fresh()
        return "'l%d: { if true { break 'l%d (%s); } 0u32 }" % (n, n, t), a

    def e_while(self, d):
        (c, cv), (t, a) = self.expr(d - 1), self.expr(d - 2)
        n = self.fresh()

        def ev():
            i = acc = 0
            while (cv() & 1 | 1) + i < 3:
                acc ^= a()
                i += 1
            return acc
        return "{ let (mut i%d, mut c%d) = (0u32, 0u32); while (%s & 1 | 1) + i%d < 3 { c%d ^= %s; i%d += 1; } c%d }" % (n, n, self.w(c), n, n, t, n, n), ev

    def e_for(self, d):
        (c, cv), (t, a) = self.expr(d - 1), self.expr(d - 2)
        n = self.fresh()

        def ev():
            acc = 0
            for x in range(cv() % 3):
                acc ^= (a() + x) & M32
            return acc
        return "{ let mut c%d = 0u32; for x%d in 0..%s %% 3 { c%d ^= %s.wrapping_add(x%d); } c%d }" % (n, n, self.w(c), n, self.w(t), n, n), ev

    def e_range(self, d):
        (t, a), (s, b) = self.expr(d - 1), self.expr(d - 1)

        def ev():
            x, y = a() % 10, b() % 10
            return max(0, y - x)
        return "((%s %% 10)..(%s %% 10)).count() as u32" % (self.w(t), self.w(s)), ev

    def e_iflet(self, d):
        (c, cv), (t, a), (s, b) = self.expr(d - 1), self.expr(d - 2), self.expr(d - 2)
        n = self.fresh()

        def ev():
            x = cv()
            return x ^ a() if x % 2 == 0 else b()
        return "(if let Some(x%d) = Some(%s).filter(|x| x %% 2 == 0) { x%d ^ %s } else { %s })" % (n, c, n, self.w(t), s), ev

    def e_whilelet(self, d):
        (c, cv), (t, a) = self.expr(d - 1), self.expr(d - 2)
        n = self.fresh()

        def ev():
            acc = i = 0
            while True:
                x = cv()
                if i > 0:
                    return acc
                i += 1
                acc ^= x ^ a()
        return "{ let (mut i%d, mut c%d) = (0u32, 0u32); while let (0, x%d) = (i%d, %s) { i%d += 1; c%d ^= x%d ^ %s; } c%d }" % (n, n, n, n, c, n, n, n, self.w(t), n), ev

    def e_letshadow(self, d):
        t, a = self.expr(d - 1)
        n = self.fresh()
        return "{ let (b%d, [c%d, ..]) = (%s, [1u32, 2]); b%d ^ c%d }" % (n, n, t, n, n), lambda: a() ^ 1

    def e_unsafe(self, d):
        t, a = self.expr(d - 1)
        return "unsafe { %s }" % t, a

    def e_struct(self, d):
        t, a = self.expr(d - 1)
        return "Wrp { v: %s, w: 0 }.v" % t, a

    def e_structrest(self, d):
        (t, a), (s, b) = self.expr(d - 1), self.expr(d - 1)

        def ev():
            x = b()
            return x ^ a()
        n = self.fresh()
        return "{ let r%d = Wrp { w: %s, ..mkw(%s) }; r%d.v ^ r%d.w }" % (n, s, t, n, n), ev

    def e_fnvalue(self, d):
        f, ev = self.fun()
        t, a = self.expr(d - 1)
        n = self.fresh()
        if self.rng.random() < 0.5:
            return "{ let f%d: fn(u32) -> u32 = %s; f%d(%s) }" % (n, f, n, t), lambda: ev(a())
        return "Some(%s).map(%s).unwrap()" % (t, f), lambda: ev(a())

    def e_return(self, d):
        (t, a), (c, cv), (s, b) = self.expr(d - 1), self.expr(d - 2), self.expr(d - 2)
        n = self.fresh()

        def ev():
            return a() if cv() % 2 == 0 else b()
        self.items_for("fn ret%d() -> u32 { if %s %% 2 == 0 { return %s; } %s }" % (n, self.w(c), t, s))
        return "ret%d()" % n, ev

    def e_nestedfn(self, d):
        t, a = self.expr(d - 1)
        n = self.fresh()
        return "{ fn in%d() -> u32 { %s } in%d() }" % (n, t, n), a

    def e_mod(self, d):
        t, a = self.expr(d - 1)
        n = self.fresh()
        if self.rng.random() < 0.5:
            self.items.append("mod md%d { use super::*; pub fn go() -> u32 { %s } }" % (n, t))
            return "md%d::go()" % n, a
        self.items.append("mod md%d { use super::*; pub mod deep { use super::*; pub fn go() -> u32 { %s } } }" % (n, t))
        return "md%d::deep::go()" % n, a

    def e_impl(self, d):
        t, a = self.expr(d - 1)
        n = self.fresh()
        k = self.rng.randrange(3)
        if k == 0:
            self.items.append("struct Im%d; impl Im%d { fn go(&self) -> u32 { %s } }" % (n, n, t))
        elif k == 1:
            self.items.append("struct Im%d; impl Drop for Im%d { fn drop(&mut self) {} } trait Tr%d { fn go(&self) -> u32; } impl Tr%d for Im%d { fn go(&self) -> u32 { %s } }" % (n, n, n, n, n, t))
        else:
            self.items.append("struct Im%d; trait Tr%d { fn go(&self) -> u32 { %s } } impl Tr%d for Im%d {}" % (n, n, t, n, n))
        return "Im%d.go()" % n, a

    def e_async(self, d):
        t, a = self.expr(d - 1)
        s, b = self.call(0)
        n = self.fresh()
        return "{ let as%d = async { %s; std::future::ready(%s).await }; std::mem::drop(as%d); %s }" % (n, s, self.call(0)[0], n, t), a

    def items_for(self, text):
        self.items.append(text)

    WRAPS = [v for k, v in list(vars().items()) if k.startswith("e_")]

    # statements which need a type -----------------------------------------------------------------------------------
    def typed(self):
        """(statements, thunk): the type is mentioned in exactly one position"""
        if self.rng.random() < 0.2:
            return self.typed_enum()
        k, ty, mk = self.cls()
        n = self.fresh()
        (t, a), (s, b) = self.expr(1), self.expr(1)
        box = {}

        def make():
            v = a()
            self.events.append("M%d %d" % (k, v))
            box["v"] = v

        def get(x):
            self.events.append("G%d %d %d" % (k, box["v"], x))
            return (box["v"] * 7 + x) & M32

        def plain():
            make()
            x = b()
            self.log(n, get(x))
        forms = [
            ("fn parameter", "fn tk%d(x: &@, a: u32) -> u32 { x.get(a) }", "tk%d(&o, %s)", "x"),
            ("fn result", "fn id%d(x: cxx::UniquePtr<@>) -> cxx::UniquePtr<@> { x }", None, None),
            ("pin parameter", "fn tk%d(x: std::pin::Pin<&mut @>, a: u32) -> u32 { x.get(a) }", "tk%d(o.pin_mut(), %s)", "x"),
            ("option parameter", "fn tk%d(x: Option<&@>, a: u32) -> u32 { x.unwrap().get(a) }", "tk%d(o.as_ref(), %s)", "x"),
            ("tuple parameter", "fn tk%d((x, _): (&@, u32), a: u32) -> u32 { x.get(a) }", "tk%d((&o, 1), %s)", "x"),
            ("array parameter", "fn tk%d(x: [&@; 1], a: u32) -> u32 { x[0].get(a) }", "tk%d([&o], %s)", "x"),
            ("slice parameter", "fn tk%d(x: &[&@], a: u32) -> u32 { x[0].get(a) }", "tk%d(&[&o], %s)", "x"),
            ("pointer parameter", "fn tk%d(x: *const @, a: u32) -> u32 { unsafe { (*x).get(a) } }", "tk%d(&*o, %s)", "x"),
            ("impl Fn parameter", "fn tk%d(x: impl Fn(&@) -> u32) -> u32 { let _ = &x; 0 }", None, "implfn"),
            ("dyn Fn parameter", "fn tk%d<'a>(x: &'a dyn Fn(u32) -> &'a @, a: u32) -> u32 { x(0).get(a) }", "tk%d(&|_| &*o, %s)", "x"),
            ("box dyn parameter", "fn tk%d<'a>(x: Box<dyn Fn() -> &'a @ + 'a>, a: u32) -> u32 { x().get(a) }", "tk%d(Box::new(|| &*o), %s)", "x"),
            ("iterator parameter", "fn tk%d<'a>(x: impl Iterator<Item = &'a @>, a: u32) -> u32 { x.map(|y| y.get(a)).sum() }", "tk%d(std::iter::once(&*o), %s)", "x"),
            ("fn pointer parameter", "fn tk%d(x: Option<fn(&@) -> u32>, o: u32) -> u32 { o }", None, "fnptr"),
            ("vec parameter", "fn tk%d(x: Vec<cxx::UniquePtr<@>>, a: u32) -> u32 { x[0].get(a) }", "tk%d(vec![o], %s)", "own"),
            ("parenthesised parameter", "fn tk%d(x: &(@), a: u32) -> u32 { x.get(a) }", "tk%d(&o, %s)", "x"),
            ("let annotation", None, "{ let y: &@ = &o; y.get(%s) }", "let"),
            ("let tuple annotation", None, "{ let (y, _): (&@, u32) = (&o, 3); y.get(%s) }", "let"),
            ("let fn annotation", None, "{ let y: fn(&@, u32) -> u32 = |z, a| z.get(a); y(&o, %s) }", "let"),
            ("generic argument", None, "{ let mut y = Vec::<&@>::new(); y.push(&o); y[0].get(%s) }", "let"),
            ("turbofish on a function", None, "{ let y = std::convert::identity::<&@>(&o); y.get(%s) }", "let"),
            ("nested generic argument", None, "{ let y = Option::<Box<&@>>::Some(Box::new(&o)); y.unwrap().get(%s) }", "let"),
        ]
        name, decl, use, how = self.rng.choice(forms)
        self.saw("type " + name)
        place = self.rng.choice(["root", "inner", "mod"]) if decl else "inner"
        lead = ""
        if decl:
            fn = decl.replace("@", ty)
            fn = fn % n
            if place == "root":
                self.items.append(fn)
            elif place == "inner":
                lead = fn
            else:
                self.items.append("mod tm%d { use super::*; pub %s }" % (n, fn))
                lead = "use tm%d::*;" % n
            self.saw("signature in " + place)
        o = "let mut o = %s(%s);" % (mk, t)
        if name == "fn result":
            body = "let o = id%d(o); let r = o.get(%s);" % (n, s)
        elif how == "implfn":
            body = "let _ = tk%d(|z| 1); let r = o.get(%s);" % (n, s)
        elif how == "fnptr":
            body = "let _ = tk%d(None, 1); let r = o.get(%s);" % (n, s)
        elif how == "let":
            body = "let r = %s;" % (use.replace("@", ty) % s)
        else:
            body = "let arg = %s; let r = %s;" % (s, use % (n, "arg"))
        return "{ %s %s %s vs(%d, r); }" % (lead, o, body, n), plain

    def typed_enum(self):
        k, ty, mk, vals = self.enum()
        n = self.fresh()
        t, a = self.expr(1)

        def ev():
            x = a()
            self.events.append("E%d %d" % (k, x))
            self.log(n, vals[x % 3])
        self.saw("enum")
        if self.rng.random() < 0.5:
            self.items.append("fn en%d(x: %s) -> u32 { x as u32 }" % (n, ty))
            return "vs(%d, en%d(%s(%s)));" % (n, n, mk, t), ev
        return "{ let e: %s = %s(%s); vs(%d, e as u32); }" % (ty, mk, t, n), ev

    def log(self, n, v):
        self.events.append("V%d %d" % (n, v))

    def subclass(self):
        n, ns = self.fresh(), self.rng.choice(self.nss)
        self.h.append(wrap_ns(ns, "class Ob%d { public: Ob%d() {} virtual ~Ob%d() {} virtual uint32_t on%d(uint32_t x) const = 0; }; uint32_t drv%d(const Ob%d& o, uint32_t x);" % (n, n, n, n, n, n)))
        self.cc.append(wrap_ns(ns, 'uint32_t drv%d(const Ob%d& o, uint32_t x) { VfL("D%d").u(x); return o.on%d(x) + 1u; }' % (n, n, n, n)))
        (t, a), (s, b) = self.expr(1), self.expr(1)
        self.items.append('#[subclass(superclass("%s"))] #[derive(Default)] pub struct My%d {} impl ffi::%s for My%d { fn on%d(&self, x: u32) -> u32 { x ^ %s } }' % (
            q(ns, "Ob%d" % n), n, q(ns, "Ob%d_methods" % n), n, n, self.w(t)))

        def ev():
            x = b()
            self.events.append("D%d %d" % (n, x))
            self.log(n, ((x ^ a()) + 1) & M32)
        self.saw("superclass attribute")
        return "{ let m = My%d::default_rust_owned(); let a = %s; let r = ffi::%s(m.as_ref().borrow().as_ref(), a); vs(%d, r); }" % (n, s, q(ns, "drv%d" % n), n), ev

    def stmt(self):
        k = self.rng.random()
        if k < 0.42:
            return self.typed()
        if k < 0.47:
            return self.subclass()
        n = self.fresh()
        t, a = self.expr(self.rng.choice([1, 2, 2, 3]))

        def ev():
            self.log(n, a())
        return "vs(%d, %s);" % (n, t), ev


def by_hand(text, decoys):
    """The directives a user would write instead"""
    for d in decoys:
        text = text.replace(d, "")
    names = sorted({m for m in re.findall(r"ffi::([\w:]+)", text) if not m.endswith("_methods")})
    subs = re.findall(r'superclass\("([^"]+)"\)\)\].*?pub struct (\w+)', text)
    return "\n".join(['generate!("%s")' % n for n in names] + ['subclass!("%s", %s)' % s for s in subs] + ['generate!("%s")' % a for a, _ in subs])


def main():
    ck = Check("C21")
    ck.rule = ("one evaluation = one position of a random program (kind of expression, statement, signature, annotation or generic argument) in which a C++ item not listed by hand was "
               "mentioned and had to be found (the program builds and runs as predicted), or one unmentioned item probed for absence; distinct by (set of positions, decoys)")
    ck.assumptions += ["positions discovery documents as unsupported (macros, static calls on types, renamed modules, use statements) or does not look at "
                       "(struct fields, impl and trait method signatures, closure parameters, match arm patterns, cast targets, method turbofish) are not used",
                       "one include_cpp! per file, named ffi (documented)"]
    T = build_repo()
    n = int(os.environ.get("N", 60)) if ck.quick else 900

    def one(i):
        rng = ck.rng("prog", i)
        g = G(rng, ck)
        stmts = [g.stmt() for _ in range(rng.randint(14, 26))]
        extra, decoys, dirs, used = [], [], [], set()
        for _ in range(rng.randint(2, 4)):          # never mentioned as paths of the bindings
            ns = rng.choice(g.nss)
            nm = "fn%d" % g.fresh()
            g.h.append(wrap_ns(ns, "uint32_t %s(uint32_t x);" % nm))
            g.cc.append(wrap_ns(ns, "uint32_t %s(uint32_t x) { return x; }" % nm))
            extra.append("ffi::" + q(ns, nm))
            kind = rng.choice([0, 1, 2, 2, 2, 3, 4])
            path = q(ns, nm)
            if kind == 0:
                decoys.append("// ffi::%s(1);" % path)
            elif kind == 1:
                decoys.append('fn dc%s() -> &\'static str { "ffi::%s(1)" }' % (nm, path))
            elif kind == 2:
                inner = "".join("pub mod %s { " % p for p in ns) + "pub fn %s(x: u32) -> u32 { x } " % nm + "}" * len(ns)
                alias = rng.choice([a for a in ("notffi", "ffi2", "ffi_", "xffi") if a not in used] or ["dm"])
                used.add(alias)
                if alias != "dm" and rng.random() < 0.6:
                    decoys.append("mod %s { %s } fn dc%s() -> u32 { %s::%s(1) }" % (alias, inner, nm, alias, path))
                else:
                    decoys.append("mod dm%s { pub mod ffi { %s } } fn dc%s() -> u32 { dm%s::ffi::%s(1) }" % (nm, inner, nm, nm, path))
            elif kind == 3:
                decoys.append("macro_rules! dm%s { () => { fn dc%s() -> u32 { ffi::%s(1) } } }" % (nm, nm, path))
        for _ in range(rng.choice([0, 0, 1, 2])):      # mixed with hand-written directives
            f, ev = g.fun()
            dirs.append('generate!("%s")' % f[5:])
        order = []
        body = []
        for t, a in stmts:
            body.append(t)
            order.append(a)
        items = list(g.items) + decoys
        rng.shuffle(items)
        block = "include_cpp! {\n#include \"input.h\"\nsafety!(%s)\n%s\n}\n" % (rng.choice(["unsafe", "unsafe_ffi"]), "\n".join(dirs))
        head = RS_ALLOW + "use autocxx::prelude::*;\nuse autocxx::subclass::*;\n"
        common = RT_RS + "fn vs(n: u32, v: u32) { ev(format!(\"V{} {}\", n, v)); }\npub struct Wrp { v: u32, w: u32 }\nfn mkw(v: u32) -> Wrp { Wrp { v, w: 0 } }\n"
        mainfn = "fn main() {\n%s\n}\n" % "\n".join(body)
        if rng.random() < 0.3:
            text = head + common + "\n".join(items) + "\n" + mainfn + block
        else:
            text = head + block + common + "\n".join(items) + "\n" + mainfn
        for a in order:
            a()
        exp = g.events
        header = "#pragma once\n#include <cstdint>\n#include <memory>\n#include <string>\n" + "\n".join(g.h) + "\n"
        case = Case("a%d" % i, header, text, RT_CPP + "\n".join(g.cc), gen_flags=("--gen-cpp", "--gen-rs-include", "--generate-cxx-h", "--auto-allowlist"))
        try:
            o = run_case(T, case)
            if o.stage in ("gen", "rustc"):
                # is it discovery, or does the program not build even with everything listed by hand?
                listed = Case("l%d" % i, header, re.sub(r'#\[subclass\(superclass\("[^"]*"\)\)\]', "#[subclass]", text.replace("safety!", "%s\nsafety!" % by_hand(text, decoys), 1)), case.cpp)
                try:
                    ol = run_case(T, listed)
                    if ol.stage != "run":
                        raise Inconclusive("a%d: does not build with the items listed by hand either (%s): %s" % (i, ol.stage, first_error({"gen": ol.gen, "cxx": ol.cxx, "rustc": ol.rustc}[ol.stage])))
                finally:
                    cleanup(listed)
            if judge_trace(ck, case, o, exp, "auto"):
                probes = ["pub fn px%d() { let _ = %s(1); }" % (j, e) for j, e in enumerate(extra)]
                ctl = ["pub fn pc%d() { let _ = ffi::%s(1); }" % (j, q(*f)) for j, f in enumerate(g.funs[:3])]
                rej, broken = probe(T, case, text.replace("fn main() {", "fn main() {"), probes + ctl)
                if broken:
                    raise Inconclusive("a%d: probing failed: %s" % (i, broken[0]))
                for j, e in enumerate(extra):
                    if j not in rej:
                        ck.violation("auto:extra", "a%d: %s is exposed although nothing mentions it" % (i, e), src=case.dir)
                    ck.count("unmentioned items probed")
                for j in range(len(ctl)):
                    if len(probes) + j in rej:
                        raise Inconclusive("a%d: control probe rejected: %s" % (i, rej[len(probes) + j]))
        except Inconclusive as e:
            ck.note_inconclusive(e)
            return
        finally:
            cleanup(case)
        for p, c in g.pos.items():
            ck.saw("positions", p)
            for _ in range(c):
                ck.evaluated("%s | %d" % (p, len(g.pos)))
        ck.count("events", len(exp))
        ck.count("items found", len(g.funs) + len(g.classes) * 2)
        if i < 2:
            ck.sample("a%d: %s" % (i, ", ".join(sorted(g.pos))[:200]))
    pmap(one, list(range(n)))
    return ck.finish(min_evals=max(1, n * 5))
