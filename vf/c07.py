"""C07 exposed constructors/copy/move/methods vs. what clang says a public caller may do."""
from .core import *
from .lib import *
from .types import wrap_ns, q

HDR = "#pragma once\n#include <cstdint>\n#include <cstddef>\n#include <string>\n#include <memory>\n#include <vector>\n"
KINDS = ["none", "none", "none", "user", "default", "delete", "private", "protected"]
NSS = [(), ("na",), ("na", "nb")]


class Cls:
    def __init__(self, rng, ns, name, prev):
        self.ns, self.name, self.qual = ns, name, q(ns, name)
        self.base = rng.choice(prev) if prev and rng.random() < .35 else None
        self.bacc = rng.choice(["public", "public", "public", "protected", "private"]) if self.base else None
        self.sp = {k: rng.choice(KINDS) for k in ("dflt", "copy", "move", "dtor")}
        if rng.random() < .4:
            self.sp["dtor"] = "none"
        if rng.random() < .35:
            self.sp = dict.fromkeys(self.sp, "none")
        self.nonconst = rng.random() < .3       # its copy constructor, if declared, takes a non-const reference
        self.sp["cassign"] = self.sp["massign"] = "none"
        # declared assignment operators suppress implicit members; bindgen hides them: known finding, kept out of the random programs
        self.fields = []
        for i in range(rng.choice([0, 1, 1, 2])):
            r = rng.random()
            if r < .4 and prev:
                c = rng.choice(prev)
                self.fields.append("::%s %sf%d_;" % (c.qual, rng.choice(["", "", "", "_base_"]), i) if rng.random() < .75 else "::%s f%d_[2];" % (c.qual, i))
            elif r < .8:
                self.fields.append(rng.choice(["uint32_t f%d_;", "std::string f%d_;", "std::unique_ptr<uint32_t> f%d_;", "std::shared_ptr<int> f%d_;", "uint8_t* f%d_;", "std::vector<uint32_t> f%d_;",
                                               "double f%d_[3];", "uint32_t& f%d_;"]) % i)
        nc = [c for c in prev if c.nonconst and c.sp["copy"] in ("user", "public", "default", "protected")]
        if nc and rng.random() < .3:            # its implicit copy constructor takes one too
            self.sp = dict.fromkeys(self.sp, "none")
            if rng.random() < .3:
                self.base, self.bacc = rng.choice(nc), rng.choice(["public", "protected"])
            else:
                self.fields.append("::%s f8_;" % rng.choice(nc).qual)
        if not self.fields:
            self.fields.append("uint16_t pad_;")      # bindgen hides empty bases: known finding, kept out of the random programs
        self.ctor = rng.choice([None, None, "public", "private", "protected", "delete"])
        self.meths = []
        for i in range(rng.choice([0, 1, 2, 3])):
            self.meths.append(("m%d_%s" % (i, name.lower()), rng.choice(["public", "public", "private", "protected", "delete"]), rng.choice(["", "const", "static", "virtual"])))
        self.pure = rng.random() < .12
        self.over = bool(self.base) and rng.random() < .5
        self.all = prev + [self]
        self.virt = self.pure or rng.random() < .1

    def decl(self):
        n = self.name
        sec = {"public": [], "private": [], "protected": []}
        sig = {"dflt": n + "()", "copy": "%s(%s%s&)" % (n, "" if self.nonconst else "const ", n), "move": "%s(%s&&)" % (n, n), "dtor": "~%s()" % n, "cassign": "%s& operator=(const %s&)" % (n, n), "massign": "%s& operator=(%s&&)" % (n, n)}
        for k, s in sig.items():
            v = self.sp[k]
            if v == "none":
                continue
            tail = {"default": " = default", "delete": " = delete"}.get(v, "")
            sec[v if v in sec else "public"].append(s + tail + ";")
        if self.ctor:
            sec[self.ctor if self.ctor in sec else "public"].append("%s(uint32_t a, bool b)%s;" % (n, " = delete" if self.ctor == "delete" else ""))
        for m, acc, kind in self.meths:
            pre = kind + " " if kind in ("static", "virtual") and not (kind == "virtual" and acc == "delete") else ""
            sec[acc if acc in sec else "public"].append("%suint32_t %s(uint32_t a)%s%s;" % (pre, m, " const" if kind == "const" else "", " = delete" if acc == "delete" else ""))
        if self.pure:
            sec["public"].append("virtual uint32_t pv_%s() const = 0;" % n.lower())
        p = self.base
        while p and self.over:
            if p.pure:
                sec["public"].append("uint32_t pv_%s() const override;" % p.name.lower())
            p = p.base
        body = " ".join("%s: %s" % (a, " ".join(x)) for a, x in sec.items() if x)
        return "class %s%s { %s public: %s };" % (n, " : %s ::%s" % (self.bacc, self.base.qual) if self.base else "", body, " ".join(self.fields))


def subobjects(c):
    by = {x.name: x for x in c.all}
    return ([c.base] if c.base else []) + [by[m] for f in c.fields for m in re.findall(r"::(K\d+) (?:_base_)?f", f)]


def documented(c, what):
    """Does the documented analysis know of this special member (given that C++ has it)? Declared ones always; implicit ones
    when no field is of a kind it is documented not to understand (raw pointers for default construction, #865; vectors for
    copying) and the same holds in every base and field."""
    if what == "args" or c.sp[what] in ("user", "default"):
        return True
    if what == "move" and any(c.sp[k] != "none" for k in ("copy", "dtor", "cassign", "massign")):
        return False         # there is no move constructor; C++ falls back to copying
    if what == "dflt" and any("*" in f for f in c.fields):
        return False
    if what == "copy" and any("vector" in f for f in c.fields):
        return False
    return all(documented(s, what) for s in subobjects(c))


TRAITS_CC = r'''
#include "input.h"
#include <cstdio>
#include <new>
#include <type_traits>
template <class T, class = void> struct D : std::false_type {}; template <class T> struct D<T, decltype(void(::new (std::declval<void*>()) T()))> : std::true_type {};
template <class T, class = void> struct C : std::false_type {}; template <class T> struct C<T, decltype(void(::new (std::declval<void*>()) T(std::declval<const T&>())))> : std::true_type {};
template <class T, class = void> struct M : std::false_type {}; template <class T> struct M<T, decltype(void(::new (std::declval<void*>()) T(std::declval<T&&>())))> : std::true_type {};
template <class T, class = void> struct A : std::false_type {}; template <class T> struct A<T, decltype(void(::new (std::declval<void*>()) T(std::declval<uint32_t>(), std::declval<bool>())))> : std::true_type {};
// has a move constructor of its own (not a copy constructor standing in)
template <class T> struct MoveOnlyArg { template <class U, class = typename std::enable_if<std::is_same<U, T>::value>::type> operator U&&() const; };
template <class T> void rep(const char* n) {
  std::printf("%s %d %d %d %d %d %d\n", n, (int)D<T>::value, (int)C<T>::value, (int)M<T>::value, (int)A<T>::value, (int)std::is_destructible<T>::value, (int)std::is_abstract<T>::value);
}
'''


def traits(case, classes):
    src = TRAITS_CC + "int main() {\n" + "\n".join("rep<::%s>(\"%s\");" % (c.qual, c.name) for c in classes) + "\n}\n"
    with open(os.path.join(case.dir, "traits.cc"), "w") as f:
        f.write(src)
    r = run(["clang++", *case.clang_args, "-w", "-I.", "traits.cc", "-o", "traits"], cwd=case.dir)
    if r.rc != 0:
        raise Inconclusive("traits: " + first_error(r))
    o = run([os.path.join(case.dir, "traits")])
    return {l.split()[0]: dict(zip(["dflt", "copy", "move", "args", "dtor", "abstract"], map(lambda x: x == "1", l.split()[1:]))) for l in o.out.splitlines()}


PRE_RS = '''fn has_copy<T: autocxx::moveit::CopyNew>() {}
fn has_move<T: autocxx::moveit::MoveNew>() {}
fn is_new<N: autocxx::moveit::New>(n: N) {}
'''


def valid(classes, clang_args):
    """Drops classes that clang rejects (ill-formed combinations), until the header compiles."""
    d = scratch_root()
    while True:
        # members explicitly defaulted but then deleted are a documented limitation (book/src/cpp_types.md); keep them out of the random programs
        ds = [(c, k) for c in classes for k, v in c.sp.items() if v == "default"]
        hdr = HDR + "".join(wrap_ns(c.ns, c.decl()) for c in classes)
        r = run(["clang++", *clang_args, "-w", "-fsyntax-only", "-ferror-limit=0", "-x", "c++", "-"], cwd=d, stdin=hdr.encode())
        if r.rc == 0:
            if not ds:
                return classes, hdr
            r = run(["clang++", *clang_args, "-Wno-everything", "-Wdefaulted-function-deleted", "-ferror-limit=0", "-fsyntax-only", "-x", "c++", "-"], cwd=d, stdin=hdr.encode())
            lines, hit = hdr.splitlines(), False
            for m in re.finditer(r"<stdin>:(\d+):(\d+): warning: explicitly defaulted (.*?) is implicitly deleted", r.err):
                k = re.search(r"class (\w+)[ :]", lines[int(m.group(1)) - 1])
                sp = {"default constructor": "dflt", "copy constructor": "copy", "move constructor": "move", "destructor": "dtor", "copy assignment operator": "cassign", "move assignment operator": "massign"}[m.group(3)]
                for c in classes:
                    if c.name == k.group(1) and c.sp[sp] == "default":
                        c.sp[sp], hit = "delete", True
            if not hit:
                return classes, hdr
            continue
        bad = set()
        lines = hdr.splitlines()
        for m in re.finditer(r"<stdin>:(\d+):\d+: error", r.err):
            l = lines[int(m.group(1)) - 1]
            k = re.search(r"class (\w+)[ :]", l)
            if k:
                bad.add(k.group(1))
        if not bad:
            raise Inconclusive("header: " + first_error(r))
        keep = []
        for c in classes:
            deps = [c.base.name] if c.base else []
            deps += [m for f in c.fields for m in re.findall(r"::(\w+) (?:_base_)?f", f)]
            if c.name in bad or any(x in bad for x in deps):
                bad.add(c.name)
            else:
                keep.append(c)
        classes = keep


# Inputs whose generated code is known not to build on the unchanged tree (known-findings.txt), judged one by one.
KNOWN = [
    ("empty-noncopyable-base", "class NC { public: NC() = default; NC(const NC&) = delete; }; class X : public NC { public: uint32_t a; };", "14"),
    ("move-assignment-deletes-copy", "class X { public: X(); X& operator=(X&&); uint32_t a; };", "14"),
    ("copy-assignment-suppresses-move", "class X { public: X(); X& operator=(const X&); std::unique_ptr<uint32_t> a; };", "14"),
    ("unique-ptr-array-field", "class X { public: std::unique_ptr<uint32_t[]> a; };", "14"),
    ("const-field", "struct X { const int x; };", "14"),
    ("promise-field", "#include <future>\nstruct X { std::promise<int> p; uint32_t a; };", "14"),
    ("map-field-cxx17", "#include <map>\nstruct X { std::map<int, int> m; uint32_t a; };", "17"),
]


def known_case(ck, T, sig, decl, std):
    hdr = HDR + decl + "\n"
    main_rs = RS_ALLOW + "use autocxx::prelude::*;\ninclude_cpp! {\n#include \"input.h\"\ngenerate!(\"X\")\nsafety!(unsafe_ffi)\n}\nfn main() {}\n"
    case = Case("c07_" + sig, hdr, main_rs, "", clang_args=["-std=c++" + std])
    o = run_case(T, case, stop_after="cxx")
    if o.ok:
        rej, broken = probe(T, case, main_rs, [])
        if broken:
            ck.violation(sig, "generated Rust does not build for " + decl + ": " + broken[0], src=case.dir)
    elif o.stage == "cxx":
        ck.violation(sig, "generated C++ does not build for " + decl, src=case.dir)
    else:
        judge_trace(ck, case, o, [], "known-" + sig)
    ck.evaluated("fixed input " + sig)
    cleanup(case)


def main():
    ck = Check("C07")
    T = build_repo()
    ck.rule = ("one evaluation = one special member, constructor or method of a generated class whose availability in Rust (asked of rustc) was compared with what a public "
               "C++ caller may do (asked of clang); distinct = distinct (declared special members, base, field kinds, verdicts)")
    n = 24 if ck.quick else 240

    def one(i):
        rng = ck.rng("prog", i)
        classes = []
        for k in range(14):
            classes.append(Cls(rng, rng.choice(NSS), "K%d" % k, classes[:]))
        args = [rng.choice(["-std=c++14", "-std=c++17"])]
        classes, hdr = valid(classes, args)
        pre = RS_ALLOW + "use autocxx::prelude::*;\ninclude_cpp! {\n#include \"input.h\"\n%s\nsafety!(unsafe_ffi)\n}\n%s\nfn main() {}\n" % (
            "\n".join('generate!("%s")' % c.qual for c in classes), PRE_RS)
        case = Case("c07_%d" % i, hdr, pre, "", clang_args=args)
        o = run_case(T, case, stop_after="cxx")
        if not o.ok:
            judge_trace(ck, case, o, [], "prog%d" % i)
            cleanup(case)
            return
        tr = traits(case, classes)
        probes, meta = [], []

        def add(c, what, text):
            probes.append("fn p%d() { %s }" % (len(probes), text))
            meta.append((c, what))
        for c in classes:
            R = "ffi::" + c.qual
            for s in ("", "1", "2", "3"):
                add(c, "dflt", "is_new(%s::new%s());" % (R, s))
                add(c, "args", "is_new(%s::new%s(1u32, true));" % (R, s))
            add(c, "copy", "has_copy::<%s>();" % R)
            add(c, "move", "has_move::<%s>();" % R)
            for m, acc, kind in c.meths:
                add(c, "meth:" + m, {"static": "%s::%s(1u32);" % (R, m), "const": "let x: &%s = todo!(); x.%s(1u32);" % (R, m)}.get(
                    kind, "let x: std::pin::Pin<&mut %s> = todo!(); x.%s(1u32);" % (R, m)))
        rej, broken = probe(T, case, pre, probes)
        if broken:
            ck.violation("prog%d:rustc" % i, "the generated Rust does not build: %s" % broken[0], src=case.dir)
            cleanup(case)
            return
        got = {}
        for k, (c, what) in enumerate(meta):
            got[(c.name, what)] = got.get((c.name, what), False) or k not in rej
        for c in classes:
            t = tr[c.name]
            for what in ("dflt", "copy", "move", "args"):
                g, may = got[(c.name, what)], t[what] and not t["abstract"]
                must = may and t["dtor"] and documented(c, what)
                if what == "copy" and c.nonconst and c.sp["copy"] != "none":
                    ck.count("copy constructors taking non-const references")
                ck.evaluated("%s %s base=%s fields=%s cpp=%s rust=%s" % (what, sorted(c.sp.items()), bool(c.base), [re.sub(r"f\d_|K\d+", "", f) for f in c.fields], may, g))
                ck.count("%s_%s" % (what, "exposed" if g else "withheld"))
                if g and not may:
                    ck.violation("prog%d:%s" % (i, what), "%s of %s is available in Rust although C++ forbids it: %s" % (what, c.qual, c.decl()), src=case.dir)
                if must and not g:
                    ck.violation("prog%d:%s" % (i, what), "%s of %s is callable in C++ and must be available in Rust, but is not: %s" % (what, c.qual, c.decl()), src=case.dir)
            for m, acc, kind in c.meths:
                g, e = got[(c.name, "meth:" + m)], acc == "public"
                ck.evaluated("method %s %s" % (acc, kind))
                ck.count("method_%s_%s" % (acc, "exposed" if g else "withheld"))
                if g != e:
                    ck.violation("prog%d:method" % i, "method %s (%s, %s) of %s is %s in Rust: %s" % (m, acc, kind, c.qual, "available" if g else "missing", c.decl()), src=case.dir)
        cleanup(case)

    for r in pmap(lambda k: known_case(ck, T, *k), KNOWN) + pmap(one, range(n)):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=100)
