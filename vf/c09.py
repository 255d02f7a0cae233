"""C09 the API surface is what the directives ask for: rustc's verdict on use probes vs. an allow/block model."""
from .core import *
from .lib import *
from .types import wrap_ns, q

HDR = "#pragma once\n#include <cstdint>\n#include <cstddef>\n"
NSS = [(), ("na",), ("na", "nb"), ("nab",), ("nc",), ("nc", "na")]


class Ty:
    def __init__(self, rng, ns, name, prev):
        self.ns, self.name, self.qual = ns, name, q(ns, name)
        self.pod = rng.random() < .3
        self.fieldty = rng.choice([t for t in prev if not t.nested]) if prev and rng.random() < .35 else None
        self.base = rng.choice([t for t in prev if not t.pod]) if any(not t.pod for t in prev) and not self.pod and rng.random() < .2 else None
        if self.pod and self.fieldty and not self.fieldty.pod:
            self.fieldty = None
        self.ctor = not self.pod and rng.random() < .6          # explicit (uint32_t) constructor, suppresses the implicit default one
        self.meths = []           # (name, static, param type or None)
        for i in range(rng.choice([1, 2, 3])):
            self.meths.append(("%s_m%d" % (name.lower(), i), rng.random() < .3, rng.choice(prev) if prev and rng.random() < .4 else None))
        self.nested = False

    def decl(self):
        ms = "".join("%suint32_t %s(%s)%s; " % ("static " if st else "", m, "const ::%s& p" % t.qual if t else "uint32_t p", "" if st else " const") for m, st, t in self.meths)
        return "%s %s%s { public: %s%s%s%s };" % (
            "struct" if self.pod else "class", self.name, " : public ::%s" % self.base.qual if self.base else "", ms,
            "%s(uint32_t x, uint32_t y); " % self.name if self.ctor else "",
            "uint32_t v_; ", "::%s f_;" % self.fieldty.qual if self.fieldty else "")

    def deps(self):
        d = {t for _, _, t in self.meths if t}
        return d


class Fn:
    def __init__(self, rng, ns, name, types):
        self.ns, self.name, self.qual = ns, name, q(ns, name)
        self.params = [rng.choice(types) if rng.random() < .6 else None for _ in range(rng.choice([0, 1, 1, 2]))]
        self.ret = rng.choice(types) if rng.random() < .25 else None          # returned as pointer

    def decl(self):
        return "%s %s(%s);" % ("const ::%s*" % self.ret.qual if self.ret else "uint32_t", self.name,
                               ", ".join("const ::%s& a%d" % (t.qual, i) if t else "uint32_t a%d" % i for i, t in enumerate(self.params)))

    def deps(self):
        return {t for t in self.params if t} | ({self.ret} if self.ret else set())


def build(rng):
    types, fns = [], []
    for k in range(rng.choice([8, 10, 12])):
        types.append(Ty(rng, rng.choice(NSS), "T%d" % k, types[:]))
    for k in range(14):
        fns.append(Fn(rng, rng.choice(NSS), "fn%d" % k, types))
    # names that extend another item's name
    fns += [Fn(rng, (), "fn1_more", types), Fn(rng, ("na",), "fn1x", types)]
    enums = [(rng.choice(NSS), "E%d" % k) for k in range(3)]
    consts = [(rng.choice(NSS), "kConst%d" % k) for k in range(3)]
    hdr = HDR + "".join("namespace %s { %s }\n" % (ns[0], "") for ns in NSS if ns)
    for t in types:
        hdr += wrap_ns(t.ns, t.decl())
    for f in fns:
        hdr += wrap_ns(f.ns, f.decl())
    for ns, e in enums:
        hdr += wrap_ns(ns, "enum class %s : uint8_t { %s_A = 3, %s_B };" % (e, e, e))
    for k, (ns, c) in enumerate(consts):
        hdr += wrap_ns(ns, "const uint32_t %s = %d;" % (c, 40 + k))
    return types, fns, enums, consts, hdr


def in_ns(ns, want):
    return ns[:len(want)] == want


def program(ck, T, i):
    rng = ck.rng("prog", i)
    types, fns, enums, consts, hdr = build(rng)
    mode = ["items", "ns", "mixed", "all", "items", "mixed"][i % 6]
    listed, nslist, dirs = set(), [], []
    everything = [t.qual for t in types] + [f.qual for f in fns] + [q(*e) for e in enums] + [q(*c) for c in consts]
    pods = set()
    if mode in ("items", "mixed"):
        for x in everything:
            if rng.random() < .4:
                listed.add(x)
    if mode in ("ns", "mixed"):
        nslist = rng.sample([n for n in NSS if n], rng.choice([1, 1, 2]))
    if mode == "all":
        dirs.append("generate_all!()")
    for t in types:
        if t.pod and (t.qual in listed or any(in_ns(t.ns, n) for n in nslist)) and rng.random() < .6:
            pods.add(t.qual)
    for x in sorted(listed):
        if x in pods:
            dirs.append('generate_pod!("%s")' % x)
            if rng.random() < .3:
                dirs.append('generate!("%s")' % x)
        else:
            dirs.append('generate!("%s")' % x)
    for x in sorted(pods - listed):
        dirs.append('pod!("%s")' % x)
    for n in nslist:
        dirs.append('generate_ns!("%s")' % "::".join(n))
    blocked, noctor = set(), set()
    if rng.random() < .6:
        # the blocked type is not itself listed
        cand = [t for t in types if t.qual not in listed and t.qual not in pods]
        if cand:
            b = rng.choice(cand)
            if not any(t.pod and (t.qual in pods) and t.fieldty is b for t in types):
                blocked.add(b)
                dirs.append('block!("%s")' % b.qual)
    if rng.random() < .6:
        for t in types:
            if rng.random() < .3 and t not in blocked:
                noctor.add(t)
                dirs.append('block_constructors!("%s")' % t.qual)
    excl_util = rng.random() < .4
    excl_impls = rng.random() < .15
    if excl_util:
        dirs.append("exclude_utilities!()")
    if excl_impls:
        dirs.append("exclude_impls!()")
    dirs.append("safety!(unsafe_ffi)")
    rng.shuffle(dirs)
    pre = RS_ALLOW + "use autocxx::prelude::*;\ninclude_cpp! {\n#include \"input.h\"\n%s\n}\nfn any<T>() -> T { loop {} }\nfn is_cxx<T: cxx::ExternType>() {}\nfn is_new<N: autocxx::moveit::New>(n: N) {}\nfn has_copy<T: autocxx::moveit::CopyNew>() {}\nfn has_move<T: autocxx::moveit::MoveNew>() {}\nfn main() {}\n" % "\n".join(dirs)
    case = Case("c09_%d" % i, hdr, pre, "")
    write_case(case)
    if run(["clang++", "-std=c++14", "-w", "-fsyntax-only", "-x", "c++", "input.h"], cwd=case.dir).rc != 0:
        raise Inconclusive("c09: harness header rejected by clang")
    o = run_case(T, case, stop_after="cxx")
    if not o.ok:
        judge_trace(ck, case, o, [], "prog%d" % i)
        cleanup(case)
        return

    def listed_p(qual, ns):
        return mode == "all" or qual in listed or any(in_ns(ns, n) for n in nslist)
    infected = set(blocked)        # types that need a blocked type by value or as a base are not judged
    for t in types:
        if t.fieldty in infected or t.base in infected:
            infected.add(t)
    allpods = set(pods)            # a POD's fields are PODs too
    for t in reversed(types):
        if t.qual in allpods and t.fieldty:
            allpods.add(t.fieldty.qual)
    probes, meta = [], []

    def add(want, what, item, text):
        probes.append("fn p%d() { %s }" % (len(probes), text))
        meta.append((want, what, item))

    def blockedp(x):
        return bool(x.deps() & blocked)
    needed = set()
    for f in fns:
        want = listed_p(f.qual, f.ns) and not blockedp(f)
        if want and f.deps() & infected:
            want = None
        if want:
            needed |= f.deps()
        add(want, "function", f.qual, "ffi::%s(%s);" % (f.qual, ", ".join("any()" for _ in f.params)))
    for t in types:
        on = listed_p(t.qual, t.ns) and t not in blocked
        for m, st, pt in t.meths:
            want = on and pt not in blocked
            if want and (t in infected or pt in infected):
                want = None
            if want and pt:
                needed.add(pt)
            add(want, "static method" if st else "method", t.qual + "::" + m, "ffi::%s::%s(any());" % (t.qual, m) if st else "let x: &ffi::%s = any(); x.%s(any());" % (t.qual, m))
        if t.ctor:
            add(None if t in infected and on else on, "explicit constructor", t.qual, "is_new(ffi::%s::new(any(), any()));" % t.qual)
        imp = on and t not in noctor and not excl_impls
        simple = t not in infected and not t.base and not (t.fieldty)

        def judge(w):
            return w if not w else (True if simple else None)
        # a class with only unlisted status may still be owned when needed; only listed types get constructors
        if not t.ctor:
            add(judge(imp), "implicit default constructor", t.qual, "is_new(ffi::%s::new());" % t.qual)
        if on or t in blocked:
            add(judge(imp), "implicit copy", t.qual, "has_copy::<ffi::%s>();" % t.qual)
            add(judge(imp), "implicit move", t.qual, "has_move::<ffi::%s>();" % t.qual)
        if t in blocked:
            # (a documentation placeholder of that name is not the C++ type)
            add(False, "blocked type", t.qual, "is_cxx::<ffi::%s>();" % t.qual)
        elif on and t not in infected:
            add(True, "listed type", t.qual, "is_cxx::<ffi::%s>();" % t.qual)
            add(not excl_impls if not noctor or t not in noctor else None, "UniquePtr of listed type", t.qual, "let x: cxx::UniquePtr<ffi::%s> = any();" % t.qual)
        if t.qual in allpods:
            add(True, "field", t.qual, "let x: ffi::%s = any(); let v: u32 = x.v_;" % t.qual)
        elif t not in infected:
            add(False, "field of opaque type", t.qual, "let x: &ffi::%s = any(); let v = x.v_;" % t.qual)
    for t in needed:
        if t not in infected:
            add(True, "needed type", t.qual, "let x: &ffi::%s = any();" % t.qual)
    for ns, e in enums:
        add(listed_p(q(ns, e), ns), "enum", q(ns, e), "let x = ffi::%s::%s_B;" % (q(ns, e), e))
    for ns, c in consts:
        add(listed_p(q(ns, c), ns), "constant", q(ns, c), "let x: u32 = ffi::%s;" % q(ns, c))
    add(not excl_util, "utilities", "ToCppString", "use ffi::ToCppString; let x = \"a\".into_cpp();")
    add(not excl_util, "utilities", "make_string", "let x = ffi::make_string(\"a\");")
    rej, broken = probe(T, case, pre, probes, rounds=10)
    if broken:
        ck.violation("prog%d:rustc" % i, "the generated Rust does not build: %s" % broken[0], src=case.dir)
        cleanup(case)
        return
    for k, (want, what, item) in enumerate(meta):
        acc = k not in rej
        if want is None:
            ck.count("unjudged")
            continue
        ck.evaluated("%s|%s|%s|%s|%s" % (mode, what, want, bool(blocked), item.count("::")))
        ck.count("%s:%s" % (what, "exposed" if acc else "absent"))
        if acc != want:
            ck.violation("prog%d:%s" % (i, what.replace(" ", "-")), "%s %s is %s, directives were:\n%s\nprobe: %s %s" % (
                what, item, "exposed" if acc else "missing", "\n".join(dirs), probes[k], "" if acc else rej[k]), src=case.dir)
    cleanup(case)


BAD = [
    ("missing-function", 'generate!("no_such_function")', "no_such_function"),
    ("missing-in-ns", 'generate!("na::no_such")', "no_such"),
    ("wrong-ns", 'generate!("nb::fa")', "fa"),
    ("missing-ns-qualifier", 'generate!("fa")', "fa"),
    ("pod-missing", 'generate_pod!("NoSuchType")', "NoSuchType"),
    ("pod-use-missing", 'pod!("NoSuchType2")\ngenerate!("na::fa")', "NoSuchType2"),
    ("method-as-item", 'generate!("na::TA::ma")', "ma"),
    ("typo-case", 'generate!("na::Fa")', "Fa"),
    ("prefix-of-name", 'generate!("na::f")', "na::f"),
    ("suffix-of-name", 'generate!("na::fab")', "fab"),
    ("namespace-as-item", 'generate!("na")', "na"),
    ("blocked-and-generated", 'generate!("na::TA")\nblock!("na::TA")', "TA"),
    ("missing-among-good", 'generate!("na::fa")\ngenerate!("na::TA")\ngenerate!("na::gone")', "gone"),
    ("regex-chars", 'generate!("na::f.")', "f."),
]


RICH = HDR + """uint32_t fa(uint32_t x); struct TR { uint32_t v; }; enum class ER { A, B }; const uint32_t kr = 3;
namespace na { class TA { public: TA(); uint32_t ma() const; uint32_t v; struct In { uint32_t w; }; }; uint32_t fa(uint32_t x); enum class EA { A }; const uint32_t ka = 4; using AL = TA;
namespace nb { struct TB { uint32_t v; uint32_t mb(); }; uint32_t fb(); uint32_t other(); namespace nc { uint32_t fc(const TB& b); struct TC { uint32_t v; }; } } }
namespace nb { uint32_t other(); uint32_t fd(); struct TD { uint32_t v; }; }
namespace nd { uint32_t fd(); uint32_t fb(); }
"""
RICH_OK = ["fa", "TR", "ER", "kr", "na::TA", "na::TA_In", "na::fa", "na::EA", "na::ka", "na::nb::TB", "na::nb::fb", "na::nb::other", "na::nb::nc::fc", "na::nb::nc::TC", "nb::other", "nb::fd", "nb::TD", "nd::fd", "nd::fb"]


def near_misses(rng):
    """Directives that can all be satisfied but one; the odd one out looks like the others or like something in the header."""
    good = rng.sample(RICH_OK, rng.randint(1, 6))
    x = rng.choice(good if rng.random() < .7 else RICH_OK)
    parts = x.split("::")
    while True:
        k = rng.choice(["otherns", "otherns", "lessns", "morens", "case", "plural", "cut", "method", "swap", "typens"])
        y = {"otherns": lambda: "::".join(rng.choice(["na", "nb", "nd", "na::nb", "na::nb::nc", "nx"]).split("::") + parts[-1:]),
             "lessns": lambda: "::".join(parts[1:]), "morens": lambda: "::".join(["nb"] + parts), "case": lambda: x.swapcase(), "plural": lambda: x + rng.choice("s_2x"), "cut": lambda: x[:-1],
             "method": lambda: rng.choice(["na::TA::ma", "na::nb::TB::mb", "na::ma", "ma"]), "swap": lambda: "::".join(reversed(parts)),
             "typens": lambda: "::".join(parts[:-1] + ["TA", parts[-1]])}[k]()
        if y and y not in RICH_OK and not y.endswith(":") and y not in ("na", "nb", "nd", "na::nb", "na::nb::nc", "na::AL"):
            break
    ds = ['generate!("%s")' % g for g in good]
    kind = "generate_pod" if rng.random() < .2 else "generate"
    ds.insert(rng.randrange(len(ds) + 1), '%s!("%s")' % (kind, y))
    return "near-%s" % k, "\n".join(ds), y


def bad(ck, T, job):
    lab, d, name = job
    hdr = RICH if lab.startswith("near-") else HDR + "namespace na { class TA { public: TA(); uint32_t ma() const; uint32_t v; }; uint32_t fa(uint32_t x); uint32_t fab_(); }\nnamespace nb { uint32_t other(); }\n"
    main_rs = RS_ALLOW + "use autocxx::prelude::*;\ninclude_cpp! {\n#include \"input.h\"\n%s\nsafety!(unsafe_ffi)\n}\nfn main() {}\n" % d
    case = Case("c09_bad_" + lab, hdr, main_rs, "")
    o = run_case(T, case, stop_after="gen")
    ck.evaluated("unsatisfiable " + lab if not lab.startswith("near-") else "%s of %d" % (re.sub(r"-\d+$", "", lab), d.count("!")))
    ck.count("unsatisfiable_directives")
    if o.ok:
        ck.violation("bad:" + lab, "generation succeeded although %s names nothing that can be generated" % d, src=case.dir)
    elif "panicked" in o.gen.err:
        ck.violation("bad:" + lab, "generator panicked on %s: %s" % (d, o.gen.err[-1500:]), src=case.dir)
    elif name not in o.gen.err:
        ck.violation("bad:" + lab, "the failure for %s does not name it: %s" % (d, o.gen.err[-800:]), src=case.dir)
    cleanup(case)


def all_good(ck, T):
    """The same header with the same directives, none of them wrong: accepted."""
    for j in range(4):
        ds = RICH_OK if j == 0 else ck.rng("good", j).sample(RICH_OK, 6)
        case = Case("c09_good%d" % j, RICH, RS_ALLOW + "use autocxx::prelude::*;\ninclude_cpp! {\n#include \"input.h\"\n%s\nsafety!(unsafe_ffi)\n}\nfn main() {}\n" % "\n".join('generate!("%s")' % x for x in ds), "")
        o = run_case(T, case, stop_after="gen")
        ck.evaluated("satisfiable %d" % len(ds))
        if not o.ok:
            judge_trace(ck, case, o, [], "good%d" % j)
        cleanup(case)


def main():
    ck = Check("C09")
    T = build_repo()
    ck.rule = ("one evaluation = one item of a generated header (function, method, constructor, implicit member, type, field, enum, constant, utility) whose availability in Rust, "
               "asked of rustc, was compared with what the directives imply; or one unsatisfiable directive whose rejection was observed; distinct = directive mode x item kind x expectation")
    n = 24 if ck.quick else 200
    near = []
    for i in range(40 if ck.quick else 400):
        l, d, y = near_misses(ck.rng("near", i))
        near.append((l + "-%d" % i, d, y))
    for r in pmap(lambda b: bad(ck, T, b) if b else all_good(ck, T), [None] + BAD + near) + pmap(lambda i: program(ck, T, i), range(n)):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=300)
