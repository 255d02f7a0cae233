"""C19: random include_cpp! blocks and token-level damage; what the parser understood against what was written."""
from .core import *
from .lib import *

IDENTS = ["A", "Foo", "bar_baz", "x1", "VeryLongIdentifierIndeed", "ffi2", "_hidden", "Zed", "snake_case", "name", "generate", "safety", "include", "union", "auto", "unsafe_ffi", "self_owned"]
STRS = ["Foo", "ns::Foo", "a::b::c", "foo", "std::vector<int>", "operator==", "A_B", "input.h", "dir/sub dir/x.hpp", "../up.h", "", " ", "caf\u00e9", "quo\"te", "back\\slash", "tab\there",
        "a,b", ")(", "*/", "//", "::lead", "T<const char*, U&&>", "line\nbreak", "#include", "generate!(\"x\")"]
# where the name of a type is called for: its parts have to be usable as Rust identifiers
TYPES = ["Foo", "ns::Foo", "a::b::c", "foo", "A_B", "caf\u00e9", "::lead", "_x", "n1::n2::n3::n4::T9", "::a::b", "generate"]
BAD_TYPES = ["std::vector<int>", "operator==", "dir/x.hpp", "", " ", "quo\"te", "a b", "a:b", "a::", "a,b", "T*", "1x", "a::2::b", "const X", "x.h", "//", "a::/*c*/b", " Foo", "Foo ", "F\n"]
PATHS = ["crate::b::C", "super::super::base::B", "C", "other_crate::ffi::ns::D", "crate::gen::G<u8>", "self::local::E"]


class Dir:
    def __init__(self, name, args, effect, toks):
        self.name, self.args, self.effect, self.toks = name, args, effect, toks


def lit(rng, s):
    """One of the ways of writing a string literal."""
    k = rng.random()
    if k < .25 and '"' not in s and "\\" not in s and "\n" not in s:
        return '"%s"' % s
    if k < .5 and "\r" not in s:
        h = "#"
        while '"' + h in s:
            h += "#"
        return 'r%s"%s"%s' % (h, s, h)
    out = ""
    for c in s:
        if c in '"\\' or ord(c) < 32:
            out += {"\n": "\\n", "\t": "\\t", '"': '\\"', "\\": "\\\\"}.get(c, "\\u{%x}" % ord(c))
        elif rng.random() < .2:
            out += "\\u{%x}" % ord(c) if ord(c) > 127 or rng.random() < .5 else "\\x%02x" % ord(c)
        else:
            out += c
    return '"%s"' % out


SIGS = [("fn f ( a : u32 ) -> u32", False), ("fn g ( )", False), ("unsafe fn h ( p : * const u8 , n : usize )", False), ("fn k ( a : & Foo , b : String ) -> Box < Foo >", False),
        ("fn m ( self : & Foo , a : u8 )", True), ("fn m2 ( self : & Foo ) -> u8", True)]


def gen_dir(rng, kind=None):
    k = kind or rng.choice(["include", "include", "generate", "generate", "generate", "generate_pod", "generate_ns", "safety", "pod", "block", "opaque", "block_constructors", "instantiable",
                            "parse_only", "exclude_impls", "exclude_utilities", "name", "concrete", "rust_type", "extern_rust_type", "subclass", "extern_rust_function",
                            "extern_cpp_type", "extern_cpp_opaque_type", "generate_all"])
    s, i = rng.choice(STRS), rng.choice(IDENTS)
    if k == "include":
        return Dir(k, s, None, [lit(rng, s)])
    if k in ("generate", "generate_pod", "generate_ns", "pod", "block", "opaque", "block_constructors", "instantiable"):
        return Dir(k, s, None, [lit(rng, s)])
    if k == "safety":
        v = rng.choice(["unsafe", "unsafe_ffi", "", "unsafe_references_wrapped"])
        return Dir(k, {"unsafe": "safe", "unsafe_ffi": "safe", "": "unsafe", "unsafe_references_wrapped": "refs"}[v], None, [v] if v else [])
    if k in ("parse_only", "exclude_impls", "exclude_utilities", "generate_all"):
        return Dir(k, None, None, [])
    if k in ("name", "rust_type", "extern_rust_type"):
        return Dir(k, i, None, [i])
    if k == "subclass" or k.startswith("extern_cpp_"):
        s = rng.choice(TYPES)
    if k in ("concrete", "subclass"):
        return Dir(k, (s, i), None, [lit(rng, s), ",", i])
    if k == "extern_rust_function":
        p = rng.choice(["f", "a::f", "very::deep::path::to::f"])
        sig, recv = rng.choice(SIGS)
        return Dir(k, (p, sig.replace(" ", ""), recv), None, [" :: ".join(p.split("::")), ","] + sig.split(" "))
    p = rng.choice(PATHS)
    return Dir(k, (s, p), None, [lit(rng, s), ",", p])


ALLOW = ("generate", "generate_pod", "generate_ns")


def model(ds):
    """What the block asks for, or None when it contradicts itself."""
    m = {"inclusions": [], "safety": "unsafe", "parse_only": False, "exclude_impls": False, "exclude_utilities": False, "pods": [], "block": [], "opaque": [], "instantiable": [],
         "ctorblock": [], "mod": "ffi", "rsfile": "autocxx-ffi-default-gen.rs", "rust_types": [], "subclasses": [], "superclasses": [], "extern_funs": [], "concretes": {}, "externs": {}, "items": [], "all": False}
    for d in ds:
        k, a = d.name, d.args
        if k == "include":
            m["inclusions"].append(a)
        elif k in ALLOW:
            if m["all"]:
                return None
            m["items"].append(("ns" if k == "generate_ns" else "item", a))
            if k == "generate_pod":
                m["pods"].append(a)
        elif k == "generate_all":
            if m["items"]:
                return None
            m["all"] = True
        elif k == "safety":
            m["safety"] = a
        elif k == "pod":
            m["pods"].append(a)
        elif k in ("block", "opaque", "instantiable"):
            m[k].append(a)
        elif k == "block_constructors":
            m["ctorblock"].append(a)
        elif k in ("parse_only", "exclude_impls", "exclude_utilities"):
            m[k] = True
        elif k == "name":
            m["mod"], m["rsfile"] = a, "autocxx-%s-gen.rs" % a
        elif k in ("rust_type", "extern_rust_type"):
            m["rust_types"].append(a)
        elif k == "subclass":
            m["subclasses"].append(list(a))
        elif k == "concrete":
            m["concretes"][a[0]] = a[1]
        elif k == "extern_rust_function":
            m["extern_funs"].append(list(a))
        else:
            m["externs"][a[0]] = (a[1], k == "extern_cpp_opaque_type")
    return m


def expected(m, probes):
    e = {k: m[k] for k in ("inclusions", "safety", "parse_only", "exclude_impls", "exclude_utilities", "pods", "block", "opaque", "instantiable", "mod", "rsfile", "rust_types", "subclasses", "extern_funs")}
    e["ctorblock"] = [p for p in probes if p in m["ctorblock"]]
    e["blockprobe"] = [p for p in probes if p in m["block"]]
    e["superclasses"] = sorted({s for s, _ in m["subclasses"]})
    e["concretes"] = sorted([k, v] for k, v in m["concretes"].items())
    e["externs"] = sorted([k, v[0], v[1]] for k, v in m["externs"].items())
    if m["all"]:
        e["allow"], e["must"] = None, sorted(m["pods"])
        e["allowprobe"] = list(probes)
    else:
        e["must"] = sorted([a for t, a in m["items"] if t == "item"] + m["pods"])
        e["allow"] = sorted([a if t == "item" else a + "::.*" for t, a in m["items"]] + m["pods"] + ([] if m["exclude_utilities"] else ["MAKESTRING"]) +
                            [x for s, c in m["subclasses"] for x in (c + "Cpp", c, s)])
        e["allowprobe"] = [p for p in probes if allowed(m, p)]
    return e


def allowed(m, p):
    return (any(p in (s, c, c + "Holder", c + "Cpp") for s, c in m["subclasses"]) or p in m["rust_types"] or p in m["concretes"].values()
            or any(re.match(r"(?:unsafe)?fn(\w+)\(", f[1]).group(1) == p for f in m["extern_funs"])
            or any(p == a if t == "item" else p.startswith(a + "::") for t, a in m["items"]))


def norm(c):
    """Dump of the harness in the model's terms: sets where order has no effect."""
    c = dict(c)
    c["superclasses"] = sorted(c["superclasses"])
    c["concretes"], c["externs"] = sorted(c["concretes"]), sorted(c["externs"])
    if c.get("must") is not None:
        c["must"] = sorted(c["must"])
    if c.get("allow") is not None:
        c["allow"] = sorted("MAKESTRING" if re.match(r"autocxx_make_string_0x[0-9a-f]+$", x) else x for x in c["allow"])
    return c


WS = [" ", "\n", "\t", "  ", " // c\n", " /* generate!(\"no\") */ ", "\n\n", "/* a /* nested */ b */"]


def layout(rng, toks):
    out = ""
    for t in toks:
        if out and (out[-1].isalnum() or out[-1] in '_"#') and t and (t[0].isalnum() or t[0] in '_"#'):
            out += rng.choice(WS)
        elif rng.random() < .4:
            out += rng.choice(WS)
        out += t
    return out + rng.choice(["", "\n", " // end\n"])


def tokens(rng, ds):
    t = []
    for d in ds:
        if d.name == "include":
            t += ["#", "include"] + d.toks
        else:
            t += [d.name, "!", "("] + d.toks + [")"]
    return t


def damage(rng, ds):
    """(what, token list) with one defect which no reading of the documentation makes valid."""
    j = rng.randrange(len(ds))
    d = ds[j]
    pre, post = tokens(rng, ds[:j]), tokens(rng, ds[j + 1:])
    hdr = ["#", "include"] if d.name == "include" else [d.name, "!", "("]
    end = [] if d.name == "include" else [")"]
    opts = []
    opts.append(("unknown directive", [rng.choice(["generat", "Generate", "generate_pods", "gen", "allow", "blocks", "include_cpp", "unsafe_ffi", "extern_type", "x"]), "!", "("] + d.toks + [")"]))
    opts.append(("unknown # directive", ["#", rng.choice(["define", "includes", "pragma", "generate"]), '"x.h"']))
    opts.append(("angle include", ["#", "include", "<", "vector", ">"]))
    opts.append(("include as macro", ["include", "!", "(", '"x.h"', ")"]))
    if d.name != "include":
        opts.append(("# before directive", ["#"] + hdr + d.toks + end))
        opts.append(("extra argument", hdr + d.toks + [rng.choice([",", '"z"', "zz", "1", ";", "=> b"])] + end))
        if d.name in ("generate", "generate_pod", "generate_ns", "pod", "block", "opaque", "block_constructors", "instantiable"):
            opts.append(("two strings", hdr + d.toks + [",", '"Other"'] + end))
        opts.append(("no parentheses", [d.name, "!"] + d.toks))
        opts.append(("wrong brackets", [d.name, "!", "["] + d.toks + ["]"]))
    if d.toks and d.name != "safety":
        opts.append(("missing argument", hdr + end))
        opts.append(("wrong argument", hdr + [rng.choice(["12", "'c'", "b\"bytes\"", "1.5", "-", "[]", "&x"])] + d.toks[1:] + end))
        if d.name in ("generate", "generate_pod", "generate_ns", "pod", "block", "opaque", "concrete", "subclass", "extern_cpp_type", "include"):
            opts.append(("identifier for string", hdr + ["Foo"] + d.toks[1:] + end))
        if d.name in ("name", "rust_type", "extern_rust_type"):
            opts.append(("string for identifier", hdr + ['"Foo"'] + end))
            opts.append(("keyword for identifier", hdr + [rng.choice(["fn", "struct", "match"])] + end))
    if len(d.toks) > 2 and d.toks[1] == ",":
        opts.append(("missing comma", hdr + [d.toks[0]] + d.toks[2:] + end))
        opts.append(("only first argument", hdr + [d.toks[0]] + end))
        opts.append(("trailing comma only", hdr + [d.toks[0], ","] + end))
    if d.name == "subclass" or d.name.startswith("extern_cpp_"):
        opts.append(("not the name of a type", hdr + [lit(rng, rng.choice(BAD_TYPES))] + d.toks[1:] + end))
    if d.name == "safety":
        opts.append(("bad safety", hdr + [rng.choice(["safe", "unsafe_fi", "\"unsafe\"", "unsafe unsafe", "unsafe_ffi unsafe_ffi", "unsafe, unsafe_ffi", "false"])] + end))
    if d.name == "extern_rust_function":
        opts.append(("bad signature", hdr + ["f", ",", rng.choice(["f(a: u32)", "fn", "fn f", "fn f(a)", "fn f() -> ", "fn f() {}", "struct X"])] + end))
    opts.append(("junk between", [rng.choice([";", ",", "123", '"str"', "=>", "fn x ( ) { }", "#", "!"])] + tokens(rng, [d])))
    opts.append(("semicolon after", tokens(rng, [d]) + [";"]))
    what, mid = rng.choice(opts)
    return what, pre + mid + post


class Harness:
    def __init__(self, exe):
        self.exe = exe

    def ask(self, reqs):
        r = run([self.exe], timeout=300, stdin="".join(json.dumps(q) + "\n" for q in reqs).encode())
        if r.killed:
            raise Inconclusive("harness killed")
        ls = r.out.splitlines()
        if len(ls) != len(reqs):
            raise Inconclusive("harness answered %d of %d (rc %s): %s" % (len(ls), len(reqs), r.rc, r.err[-400:]))
        return [json.loads(l) for l in ls]


def batch(ck, H, bi, n):
    rng = ck.rng("b", bi)
    reqs, info = [], []
    for _ in range(n):
        nd = rng.choice([0, 1, 1, 2, 3, 4, 6, 10, 25])
        all_ok = rng.random() < .3
        ds = []
        for _ in range(nd):
            d = gen_dir(rng)
            if d.name == "generate_all" and not all_ok:
                continue
            if d.name in ALLOW and all_ok and rng.random() < .9:
                continue
            ds.append(d)
        probes = rng.sample(sorted({x for d in ds for x in ([d.args] if isinstance(d.args, str) else list(d.args or [])) if isinstance(x, str)} | set(STRS[:8]) | {"ns", "ns::Foo::Bar", "nsx::Foo", "fooo", "FooCpp", "FooHolder", "f"}), 8)
        if ds and rng.random() < .35:
            what, toks = damage(rng, ds)
            reqs.append({"text": layout(rng, toks), "probes": probes})
            info.append(("bad", what, ds, probes))
        else:
            t = layout(rng, tokens(rng, ds))
            reqs.append({"text": t, "probes": probes})
            info.append(("good", None, ds, probes))
    for (kind, what, ds, probes), q, a in zip(info, reqs, H.ask(reqs)):
        shape = ",".join(sorted({d.name for d in ds}))
        if "panic" in a:
            ck.evaluated("panic")
            ck.violation("panic:" + (what or "valid"), "parsing or printing panics: %s\n%s" % (a["panic"], q["text"]))
            continue
        if kind == "bad":
            ck.evaluated("bad|%s|%s" % (what, len(ds)))
            ck.saw("malformed kinds", what)
            ck.count("malformed blocks")
            if a["ok"]:
                ck.violation("accept:" + what, "malformed block accepted (%s):\n%s\nread as %s" % (what, q["text"], json.dumps(a["cfg"])))
            elif not a["err"].strip():
                ck.violation("noerr:" + what, "malformed block rejected without a message:\n" + q["text"])
            continue
        m = model(ds)
        ck.evaluated("%s|%d" % (shape, len(ds)))
        if m is None:
            ck.count("contradictory blocks")
            if a["ok"]:
                ck.violation("contradiction", "generate_all! together with generate!/generate_ns! accepted:\n" + q["text"])
            continue
        ck.count("valid blocks")
        ck.count("directives", len(ds))
        if not a["ok"]:
            ck.violation("reject:" + shape[:60], "valid block rejected: %s\n%s" % (a["err"], q["text"]))
            continue
        want = expected(m, probes)
        got = norm(a["complete"])
        bad = [k for k in want if want[k] != got[k]]
        early = [k for k in ("inclusions", "pods", "block", "mod", "safety", "rust_types") if a["cfg"][k] != want[k]]
        if bad or early:
            ck.violation("read:" + ",".join(bad + early), "block read wrongly:\n%s\n%s" % (q["text"], "\n".join("%s: wrote %r, read %r" % (k, want[k], got[k]) for k in bad + early)))
            continue
        if not a["re"]["ok"]:
            ck.violation("reprint:reject", "printed configuration does not parse: %s\n%s\n-- from --\n%s" % (a["re"]["err"], a["printed"], q["text"]))
            continue
        re_ = norm(a["re"]["cfg"])
        bad = [k for k in want if want[k] != re_[k]]
        if bad:
            ck.violation("reprint:" + ",".join(bad), "configuration changed by printing and reading again:\n%s\nprinted: %s\n%s" % (
                q["text"], a["printed"], "\n".join("%s: had %r, now %r" % (k, want[k], re_[k]) for k in bad)))
        ck.saw("directive sets", shape)
        if len(ds) == 3:
            ck.sample(q["text"][:300], 3)


def sub_batch(ck, H, bi, n):
    """The #[subclass(...)] attribute."""
    rng = ck.rng("s", bi)
    reqs, want = [], []
    for _ in range(n):
        parts = [rng.choice(["self_owned", "sup", "self_owned", "sup", "bad"]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
        toks, m, ok = [], {"self_owned": False, "superclass": None}, True
        for j, p in enumerate(parts):
            if j:
                toks.append(",")
            if p == "self_owned":
                toks.append(p)
                m["self_owned"] = True
            elif p == "sup":
                s = rng.choice(TYPES + BAD_TYPES if rng.random() < .3 else TYPES)
                ok = ok and s not in BAD_TYPES
                toks += ["superclass", "(", lit(rng, s), ")"]
                ok = ok and m["superclass"] is None
                m["superclass"] = s
            else:
                ok = False
                toks += rng.choice([["selfowned"], ["superclass"], ["superclass", "(", "A", ")"], ["superclass", "=", '"A"'], ["123"], ["superclass", "(", ")"], ["self_owned", "self_owned"]])
        reqs.append({"kind": "sub", "text": layout(rng, toks)})
        want.append(m if ok else None)
    for q, m, a in zip(reqs, want, H.ask(reqs)):
        ck.evaluated("sub|%s" % (m and "%s %s" % (m["self_owned"], m["superclass"] is not None)))
        ck.count("subclass attributes")
        if "panic" in a:
            ck.violation("sub:panic", "%s: %s" % (q["text"], a["panic"]))
        elif m is None:
            if a["ok"]:
                ck.violation("sub:accept", "malformed subclass attribute accepted: %s -> %s" % (q["text"], a["cfg"]))
        elif not a["ok"] or a["cfg"] != m:
            ck.violation("sub:read", "subclass attribute read wrongly: %s -> %s, wrote %s" % (q["text"], a, m))


# ---------------------------------------------------------------- whole tool

HDR = """#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace ns { struct P { uint32_t a; uint8_t b; }; class Q { public: Q(uint32_t); Q(const Q&); ~Q(); uint32_t get() const; void set(uint32_t); }; uint32_t f(P p); inline uint32_t hidden() { return 1; } namespace deep { uint32_t g(); } }
class R { public: R(); virtual ~R() {} virtual uint32_t v(uint32_t) const { return 1; } virtual void w() = 0; };
template <typename T> class Tm { public: T t; };
typedef Tm<int> Ti;
class Op { public: uint32_t x; uint32_t y() const; };
uint32_t uses_op(const Op& o);
uint32_t plain(uint32_t a);
std::string strf(std::string s);
enum class En : uint8_t { X, Y };
En en(En e);
class Rt;
uint32_t rt(const Rt& r);
"""


def norm_out(t):
    return re.sub(r"0x[0-9a-f]{5,}", "0xHASH", t)


def repro(ck, T, i):
    """The reproduction case of a run, replayed: the same bindings."""
    rng = ck.rng("r", i)
    ds = ['generate!("plain")']
    pool = ['generate_pod!("ns::P")', 'generate!("ns::Q")', 'generate!("ns::f")', 'generate_ns!("ns::deep")', 'generate!("strf")', 'generate!("En")', 'generate!("en")', 'generate!("R")',
            'block!("ns::hidden")', 'opaque!("Op")', 'generate!("uses_op")', 'block_constructors!("ns::Q")', 'concrete!("Tm<int>", TmInt)', "exclude_utilities!()", "exclude_impls!()",
            'name!(other)', 'extern_cpp_type!("ns::P", crate::elsewhere::P)', 'instantiable!("ns::Q")', 'pod!("ns::P")', 'generate_ns!("ns")']
    use = rng.sample(pool, rng.randint(3, 9))
    if any("extern_cpp_type" in u for u in use):
        use = [u for u in use if "generate_pod" not in u]
    ds += use
    saf = rng.choice(["safety!(unsafe)", "safety!(unsafe_ffi)", None, "safety!()"])
    if saf:
        ds.append(saf)
    rust = ""
    kind = rng.choice(["none", "fn", "fnmod", "method", "sub", "type", "typemod", "nested"])
    name = "other" if "name!(other)" in use else "ffi"
    if kind == "fn":
        rust = "#[autocxx::extern_rust::extern_rust_function]\npub fn called(a: u32) -> u32 { a }\n"
    elif kind == "fnmod":
        rust = "pub mod deep { pub mod er {\n#[autocxx::extern_rust::extern_rust_function]\npub fn called(a: u32, b: &str) -> String { String::new() }\n} }\n"
    elif kind == "method":
        rust = "#[autocxx::extern_rust::extern_rust_type]\npub struct Rt { v: u32 }\nimpl Rt { #[autocxx::extern_rust::extern_rust_function]\npub fn meth(&self, a: u32) -> u32 { a } }\n"
    elif kind == "type":
        rust = "#[autocxx::extern_rust::extern_rust_type]\npub struct Rt { v: u32 }\n"
        ds.append('generate!("rt")')
    elif kind == "typemod":
        rust = "pub mod deep {\n#[autocxx::extern_rust::extern_rust_type]\npub struct Rt { v: u32 }\n}\n"
        ds.append('generate!("rt")')
    elif kind == "sub":
        ds = [d for d in ds if d != 'generate!("R")'] + ['subclass!("R", MyR)']
    head, tail = "", ""
    if kind == "nested":
        head, tail = "pub mod outer { pub mod inner {\n", "} }\n"
        rust = "#[autocxx::extern_rust::extern_rust_function]\npub fn called(a: u32) -> u32 { a }\n"
    rng.shuffle(ds)
    main_rs = head + "autocxx::include_cpp! {\n#include \"input.h\"\n%s\n}\n" % "\n".join(ds) + tail + rust
    case = Case("rp%d" % i, HDR, main_rs)
    try:
        write_case(case)
        d = case.dir
        rj = os.path.join(d, "repro.json")
        g = gen_step(T, case, env={"AUTOCXX_REPRO_CASE": rj})
        if g.killed:
            raise Inconclusive("generator killed")
        ck.evaluated("repro|%s|%s" % (kind, " ".join(sorted(x.split("!")[0] for x in ds))))
        if g.rc != 0:
            ck.violation("repro:gen", "generator failed: %s\n%s" % (g.err[-1500:], main_rs), src=d)
            return
        if not os.path.exists(rj):
            ck.violation("repro:none", "no reproduction case written", src=d)
            return
        j = json.load(open(rj))
        open(os.path.join(d, "again.rs"), "w").write("autocxx::include_cpp! {\n%s\n}\n" % j["config"])
        case.inputs = ["again.rs"]
        g = gen_step(T, case, out="out2")
        if g.killed:
            raise Inconclusive("generator killed")
        ck.saw("reproduction shapes", kind)
        if g.rc != 0:
            ck.violation("repro:reject:" + kind, "the configuration of the reproduction case is not accepted: %s\n%s" % (g.err[-1200:], j["config"]), src=d)
            return
        a, b = (sorted(os.listdir(os.path.join(d, o))) for o in ("out", "out2"))
        if a != b:
            ck.violation("repro:files", "reproduction makes other files: %s / %s" % (a, b), src=d)
            return
        for f in a:
            x, y = (norm_out(open(os.path.join(d, o, f)).read()) for o in ("out", "out2"))
            if f.endswith(".rs"):
                # sets of requested items may come out in another order
                x, y = ("".join(sorted(re.split(r"(?<=[;{}])", t))) for t in (x, y))
            else:
                x, y = ("\n".join(sorted(t.splitlines())) for t in (x, y))
            if x != y:
                k = next((n for n in range(min(len(x), len(y))) if x[n] != y[n]), 0)
                ck.violation("repro:differs:" + kind, "replaying the configuration gives other bindings in %s:\n%s\nvs\n%s\nconfig: %s\nblock: %s" % (f, x[max(0, k - 80):k + 160], y[max(0, k - 80):k + 160], j["config"], main_rs), src=d)
                return
        ck.count("reproduction cases replayed")
    except Inconclusive as e:
        ck.note_inconclusive("repro %d: %s" % (i, e))
    finally:
        cleanup(case)


def tool_rejects(ck, T, i):
    """Malformed blocks given to the generator and to rustc: an error exit with a message."""
    rng = ck.rng("t", i)
    ds = [gen_dir(rng) for _ in range(rng.randint(1, 4))]
    ds = [d for d in ds if d.name != "generate_all"] or [gen_dir(rng, "generate")]
    what, toks = damage(rng, ds)
    text = layout(rng, toks)
    case = Case("tr%d" % i, "#pragma once\nint x();\n", "fn main() {}\nautocxx::include_cpp! {\n%s\n}\n" % text)
    try:
        write_case(case)
        g = gen_step(T, case)
        if g.killed:
            raise Inconclusive("generator killed")
        ck.evaluated("tool|" + what)
        ck.count("malformed blocks given to the tools")
        if g.rc == 0:
            ck.violation("tool:accept:" + what, "generator accepts a malformed block (%s)\n%s" % (what, text), src=case.dir)
        elif "panicked" in g.err or g.rc not in (1, 2) or not g.err.strip():
            ck.violation("tool:crash:" + what, "generator does not reject a malformed block (%s) cleanly: rc %s %s\n%s" % (what, g.rc, g.err[-600:], text), src=case.dir)
        os.makedirs(os.path.join(case.dir, "out"), exist_ok=True)
        r = rustc_step(T, case, emit_link=False)
        if r.killed:
            raise Inconclusive("rustc killed")
        if r.rc == 0:
            ck.violation("macro:accept:" + what, "include_cpp! accepts a malformed block (%s)\n%s" % (what, text), src=case.dir)
    except Inconclusive as e:
        ck.note_inconclusive("tool %d: %s" % (i, e))
    finally:
        cleanup(case)


def main():
    ck = Check("C19")
    T = build_repo()
    H = Harness(build_harness("parse"))
    ck.rule = ("one evaluation is one include_cpp! block (random directives, order, repetition, layout and literal spelling), one damaged block, one subclass attribute, or one replayed "
               "reproduction case; distinct = set of directives x length, damage kind, or reproduction shape")
    ck.assumptions = ["a repeated name! or safety! means the last one; a missing '!' is tolerated by the parser and not judged"]
    q = ck.quick
    jobs = [("b", i) for i in range(8 if q else 160)] + [("s", i) for i in range(2 if q else 16)] + [("r", i) for i in range(24 if q else 240)] + [("t", i) for i in range(24 if q else 300)]

    def go(j):
        k, i = j
        if k == "b":
            return batch(ck, H, i, 700)
        if k == "s":
            return sub_batch(ck, H, i, 400)
        return (repro if k == "r" else tool_rejects)(ck, T, i)
    for r in pmap(go, jobs):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=1000)
