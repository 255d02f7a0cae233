"""C12 command-line outputs: histories of edits, faults and reruns; the output directory against a clean run."""
from .core import *
from .lib import *
import resource

STD = "-std=c++14"
OLD = 1_000_000_000_000_000_000       # ns; timestamp given to every output before a run


class Proj:
    """A small project: k sources, each with include_cpp! modules and/or cxx bridges, plus a graph of headers."""

    def __init__(self, rng, single_unnamed=False):
        self.rng = rng
        self.ver = 0
        self.mods = []                 # dicts: src, kind ("inc"/"bridge"), name (None = unnamed), hdr, fns(list)
        ns = 1 if single_unnamed else rng.choice([1, 1, 2, 3])
        k = 0
        for s in range(ns):
            for m in range(1 if single_unnamed else rng.choice([1, 1, 2])):
                kind = "bridge" if (not single_unnamed and rng.random() < .25) else "inc"
                name = "m%d" % k if (k or rng.random() < .4) and not single_unnamed else None
                self.mods.append({"src": s, "kind": kind, "name": name, "hdr": "h%d.h" % k, "fns": ["fa", "fb"], "k": k})
                k += 1
        self.nsrc = ns
        self.hfiles = {}
        for m in self.mods:
            if m["kind"] == "inc":
                self.hfiles[m["hdr"]] = {"val": 1, "inc": [], "fns": 3}
        # include graph: headers in sub directories, an include seen twice, one never taken, one via the second -I
        self.sub = {}
        for i in range(rng.choice([0, 1, 3])):
            self.sub["sub/s%d.h" % i] = 5
        self.sub["inc2/far.h"] = 6
        if rng.random() < .5:
            self.sub["sub/deep/d0.h"] = 7

    def header_text(self, name):
        h = self.hfiles[name]
        k = int(name[1:-2])
        t = "#pragma once\n#include <cstdint>\n#include <cstddef>\n"
        subs = sorted(self.sub)
        for i, s in enumerate(subs):
            if (i + k) % 2 == 0:
                t += '#include "%s"\n' % (s if not s.startswith("inc2/") else s[5:])
        t += "#ifdef NEVER_DEFINED\n#include \"not_there.h\"\n#endif\n"
        for i in range(h["fns"]):
            t += "inline uint32_t f%s_%d(uint32_t x) { return x + %d; }\n" % ("abcdefgh"[i], k, h["val"])
        t += "struct S%d { uint32_t a; uint32_t get() const { return a; } };\n" % k
        return t

    def used_headers(self):
        return None

    def module(self, m):
        if m["kind"] == "bridge":
            return "#[cxx::bridge]\nmod bridge%d { extern \"Rust\" { fn rs%d(a: u32) -> u32; } }\nfn rs%d(a: u32) -> u32 { a }\n" % (m["k"], m["k"], m["k"])
        t = "include_cpp! {\n#include \"%s\"\nsafety!(unsafe_ffi)\n" % m["hdr"]
        for f in m["fns"]:
            t += 'generate!("%s_%d")\n' % (f, m["k"])
        t += 'generate_pod!("S%d")\n' % m["k"]
        if m["name"]:
            t += "name!(%s)\n" % m["name"]
        return t + "}\n"

    def source(self, s):
        t = "use autocxx::prelude::*;\n"
        for m in self.mods:
            if m["src"] != s:
                continue
            t += self.module(m)
        t += "// version %d\nfn main() {}\n" % self.ver
        return t

    def write(self, d):
        for n in self.hfiles:
            _w(d, n, self.header_text(n))
        for n, v in self.sub.items():
            g = re.sub(r"\W", "_", n)
            extra = '#include "deep/d0.h"\n' if n == "sub/s0.h" and "sub/deep/d0.h" in self.sub else ""
            _w(d, n, "#ifndef %s\n#define %s\n%sinline int k%s() { return %d; }\n#endif\n" % (g, g, extra, g, v))
        for s in range(self.nsrc):
            _w(d, "src%d.rs" % s, self.source(s))

    def edit(self):
        r = self.rng
        what = r.choice(["value", "addfn", "adddirective", "dropdirective", "comment", "sub"])
        incs = [m for m in self.mods if m["kind"] == "inc"]
        if what == "value" and self.hfiles:
            self.hfiles[r.choice(sorted(self.hfiles))]["val"] += 1
        elif what == "addfn" and self.hfiles:
            h = self.hfiles[r.choice(sorted(self.hfiles))]
            h["fns"] = min(8, h["fns"] + 1)
        elif what == "adddirective" and incs:
            m = r.choice(incs)
            if "fc" not in m["fns"]:
                m["fns"].append("fc")
        elif what == "dropdirective" and incs:
            m = r.choice(incs)
            m["fns"] = m["fns"][:1]
        elif what == "sub":
            self.sub[r.choice(sorted(self.sub))] += 1
        self.ver += what == "comment"
        return what


def _w(d, n, t):
    p = os.path.join(d, n)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(t)


def read_dir(d):
    out = {}
    for dp, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(dp, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


class Opts:
    def __init__(self, rng, proj):
        self.exact = None
        n = len(proj.mods)
        incs = len([m for m in proj.mods if m["kind"] == "inc"])
        self.cpp = rng.random() < .85
        self.rs = rng.choice(["include", "archive", "both"]) if self.cpp else rng.choice(["include", "archive", "both"])
        if rng.random() < .15 and self.cpp:
            self.rs = "none"
        # several bridges need --generate-exact, otherwise their headers share a name
        self.exact = n + incs + rng.choice([0, 0, 1, 3]) if n > 1 or rng.random() < .5 else None
        self.fix = self.exact is not None or rng.random() < .3
        self.ext = rng.choice(["cc", "cc", "cpp", "cxx"])
        self.cxxh = rng.random() < .5
        self.sup = rng.random() < .2
        self.need_cpp, self.need_rs = n, incs

    def args(self, exact="same"):
        a = []
        if self.cpp:
            a += ["--gen-cpp"]
        if self.rs in ("include", "both"):
            a += ["--gen-rs-include"]
            if self.fix:
                a += ["--fix-rs-include-name"]
        if self.rs in ("archive", "both"):
            a += ["--gen-rs-archive"]
        e = self.exact if exact == "same" else exact
        if e is not None:
            a += ["--generate-exact", str(e)]
        if self.ext != "cc":
            a += ["--cpp-extension", self.ext]
        if self.cxxh:
            a += ["--generate-cxx-h"]
        if self.sup:
            a += ["--suppress-system-headers"]
        return a


def gen(T, d, proj, opts, out, depfile=None, exact="same", inputs=None, fsize=None, kill_after=None, timeout=100):
    cmd = [T.gen] + (inputs or ["src%d.rs" % s for s in range(proj.nsrc)]) + ["-o", out, "-I", ".", "-I", "inc2"] + opts.args(exact)
    if depfile:
        cmd += ["--depfile", depfile]
    cmd += ["--", STD]
    if fsize is None and kill_after is None:
        return run(cmd, cwd=d, timeout=timeout)
    # interrupted run: killed by the file-size limit part way through a write, or by SIGKILL after a delay
    if fsize is not None:
        cmd = ["bash", "-c", 'ulimit -c 0; ulimit -f "$0"; exec "$@"', str(fsize)] + cmd
        return run(cmd, cwd=d, timeout=timeout)
    p = subprocess.Popen(cmd, cwd=d, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    time.sleep(kill_after)
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    return Res(p.returncode, "", "", False)


def parse_depfile(path):
    """Returns {output: [dependencies]} as make would read it; names resolved against the depfile's directory."""
    base = os.path.dirname(os.path.abspath(path))
    txt = open(path).read().replace("\\\n", " ")
    rules = {}
    for line in txt.split("\n"):
        if not line.strip():
            continue
        # make: a colon followed by blank or end of line separates targets from prerequisites; backslash quotes a blank
        parts = re.split(r"(?<!\\):(?:\s|$)", line, maxsplit=1)
        if len(parts) != 2:
            return None
        sp = lambda s: [x.replace("\\ ", " ").replace("\\#", "#").replace("$$", "$") for x in re.split(r"(?<!\\)\s+", s.strip()) if x]
        for o in sp(parts[0]):
            rules.setdefault(os.path.normpath(os.path.join(base, o)), []).extend(os.path.normpath(os.path.join(base, x)) for x in sp(parts[1]))
    return rules


_hdr_cache = {}


def headers_read(d, proj):
    """Ground truth: clang's own list of the headers each module's header pulls in."""
    out = set()
    for n in sorted(proj.hfiles):
        r = run(["clang++", STD, "-M", "-MG", "-x", "c++", "-I", ".", "-I", "inc2", n], cwd=d)
        if r.rc != 0:
            raise Inconclusive("clang -M failed: " + r.err[-300:])
        for w in r.out.replace("\\\n", " ").split(":", 1)[1].split():
            out.add(os.path.realpath(os.path.join(d, w)))
    return out


def history(ck, T, i):
    rng = ck.rng("hist", i)
    proj = Proj(rng)
    opts = Opts(rng, proj)
    d = os.path.join(scratch_root(), "c12_%d" % i)
    os.makedirs(d)
    proj.write(d)
    out = rng.choice(["out", "./out", "o/p/q", os.path.join(d, "absout")])
    outp = os.path.join(d, out)
    depname = rng.choice([None, "deps.d", "o2/x.d", os.path.join(d, "absdep.d")])
    if depname:
        os.makedirs(os.path.dirname(os.path.join(d, depname)) or d, exist_ok=True)
    tag = "%d mods, exact=%s, rs=%s, cpp=%s" % (len(proj.mods), opts.exact, opts.rs, opts.cpp)
    steps = ["first"] + [rng.choice(["noop", "edit", "edit", "edit", "corrupt", "corrupt", "delete", "interrupt", "interrupt", "kill", "failed-run", "blocked", "touch", "stale"])
                         for _ in range(7 if ck.quick else 20)]
    log = []
    for si, st in enumerate(steps):
        info = ""
        present = sorted(read_dir(outp)) if os.path.isdir(outp) else []
        if st == "edit":
            info = proj.edit()
            proj.write(d)
        elif st == "corrupt" and present:
            for f in rng.sample(present, rng.choice([1, min(2, len(present))])):
                p = os.path.join(outp, f)
                b = open(p, "rb").read()
                mode = rng.choice(["truncate", "empty", "append", "flip", "tail", "blank", "swap", "newline"])
                if mode == "truncate":
                    b2 = b[:rng.randrange(len(b) + 1)]
                elif mode == "empty":
                    b2 = b""
                elif mode == "append":
                    b2 = b + b"\n// more\n"
                elif mode == "newline":
                    b2 = b[:-1] if b.endswith(b"\n") else b + b"\n"
                elif mode == "flip" and b:
                    k = rng.randrange(len(b))
                    b2 = b[:k] + bytes([b[k] ^ 1]) + b[k + 1:]
                elif mode == "tail" and b:
                    b2 = b[:-1] + bytes([b[-1] ^ 3])
                elif mode == "blank":
                    b2 = b"// Blank autocxx placeholder"
                elif mode == "swap":
                    b2 = open(os.path.join(outp, rng.choice(present)), "rb").read()
                else:
                    b2 = b"\xff\xfe"
                open(p, "wb").write(b2)
                info += " %s:%s" % (f, mode)
        elif st == "delete" and present:
            for f in rng.sample(present, rng.randrange(1, len(present) + 1)):
                os.unlink(os.path.join(outp, f))
                info += " " + f
        elif st == "stale":
            _w(outp, rng.choice(["other.h", "gen99.%s" % opts.ext, "notes.txt"]), "left over\n")
        elif st == "touch":
            for f in present:
                os.utime(os.path.join(outp, f))
        elif st in ("interrupt", "kill"):
            if rng.random() < .7:
                proj.edit()
                proj.write(d)
            if rng.random() < .4 and present:
                for f in present:
                    os.unlink(os.path.join(outp, f))
            if st == "interrupt":
                fs = rng.choice([0, 1, 2, 3, 4, 5, 8, 12, 16, 24])
                r = gen(T, d, proj, opts, out, depname, fsize=fs)
                info = "size limit %d KiB rc=%s" % (fs, r.rc)
            else:
                ms = rng.choice([.005, .02, .05, .08, .1, .12, .15, .2])
                r = gen(T, d, proj, opts, out, depname, kill_after=ms)
                info = "killed after %ss rc=%s" % (ms, r.rc)
            ck.count("interrupted_runs")
            if r.rc != 0:
                ck.count("interrupted_runs_that_died")
        elif st == "failed-run":
            # a run that cannot succeed must say so, and must not disturb what follows
            bad = rng.choice(["syntax", "missing-header", "missing-item", "cpp-error"])
            src = proj.source(0)
            inc = [m for m in proj.mods if m["kind"] == "inc" and m["src"] == 0]
            if bad == "syntax" or not inc:
                _w(d, "src0.rs", src + "\nfn broken( {\n")
            elif bad == "missing-header":
                _w(d, "src0.rs", src.replace('#include "%s"' % inc[0]["hdr"], '#include "nope.h"'))
            elif bad == "missing-item":
                _w(d, "src0.rs", src.replace('generate!("fa_%d")' % inc[0]["k"], 'generate!("gone")'))
            else:
                _w(d, inc[0]["hdr"], proj.header_text(inc[0]["hdr"]) + "\nthis is not C++;\n")
            r = gen(T, d, proj, opts, out, depname)
            info = bad
            ck.count("failing_runs")
            if r.rc == 0:
                ck.violation("hist:bad-run-succeeded", "a run that cannot succeed (%s) exited 0 [%s]" % (bad, tag), src=d)
            proj.write(d)
        elif st == "blocked" and present:
            # one output cannot be written: that must be an error
            f = rng.choice(present)
            p = os.path.join(outp, f)
            os.unlink(p)
            os.mkdir(p)
            r = gen(T, d, proj, opts, out, depname)
            os.rmdir(p)
            ck.count("unwritable_outputs")
            # a file this configuration no longer writes is no obstacle
            clean = clean_run(ck, T, d, proj, opts, "%d_%db" % (i, si))
            if clean is not None and f in clean and r.rc == 0:
                ck.violation("hist:unwritable-ignored", "output %s could not be written but the run exited 0 [%s]" % (f, tag), src=d)
        log.append("%s %s" % (st, info))
        # the observed run
        before = read_dir(outp) if os.path.isdir(outp) else {}
        for f in before:
            os.utime(os.path.join(outp, f), ns=(OLD, OLD))
        r = gen(T, d, proj, opts, out, depname)
        if r.killed:
            raise Inconclusive("c12: generator timed out")
        ctx = "[%s; history: %s]" % (tag, "; ".join(log))
        if r.rc != 0:
            ck.violation("hist:run-failed:%s" % st, "a valid run failed %s: %s" % (ctx, r.err[-1200:]), src=d)
            break
        after = read_dir(outp)
        clean = clean_run(ck, T, d, proj, opts, "%d_%d" % (i, si))
        if clean is None:
            break
        ck.evaluated("%s|%s|%s" % (st, info.split(" ")[0] if st in ("edit", "failed-run") else "", tag))
        ck.count("outputs_compared", len(clean))
        ck.count("after_" + st)
        badf = sorted(f for f in clean if after.get(f) != clean[f])
        if badf:
            ck.violation("hist:diverged:%s" % st, "after %s, %s differs from what a clean run writes (%s) %s" % (
                st, badf, ["missing" if f not in after else "%d vs %d bytes" % (len(after[f]), len(clean[f])) for f in badf], ctx), src=d)
        extra = sorted(set(after) - set(before) - set(clean))
        if extra:
            ck.violation("hist:extra:%s" % st, "the run created %s, which a clean run does not %s" % (extra, ctx), src=d)
        lost = sorted(set(before) - set(after))
        if lost:
            ck.violation("hist:removed:%s" % st, "the run removed %s %s" % (lost, ctx), src=d)
        for f in after:
            mt = os.stat(os.path.join(outp, f)).st_mtime_ns
            if f in before and before[f] == after[f]:
                ck.count("unchanged_files")
                if mt != OLD:
                    ck.violation("hist:timestamp", "%s did not change but its timestamp did (after %s) %s" % (f, st, ctx), src=d)
            else:
                ck.count("changed_files")
                if mt == OLD:
                    ck.violation("hist:timestamp-stale", "%s changed but its timestamp did not (after %s) %s" % (f, st, ctx), src=d)
        if opts.exact is not None:
            check_exact(ck, clean, opts, ctx, d)
        if depname:
            check_dep(ck, d, outp, depname, clean, proj, ctx)
    shutil.rmtree(d, ignore_errors=True)


def clean_run(ck, T, d, proj, opts, tag):
    out = os.path.join(d, "clean_" + tag)
    r = gen(T, d, proj, opts, out)
    if r.killed:
        raise Inconclusive("c12: generator timed out")
    if r.rc != 0:
        ck.violation("clean-run-failed", "a run into an empty directory failed: " + r.err[-1500:], src=d)
        return None
    res = read_dir(out)
    shutil.rmtree(out)
    return res


def check_exact(ck, files, opts, ctx, d):
    n = opts.exact
    want = {}
    if opts.cpp:
        for k in range(n):
            want["gen%d.%s" % (k, opts.ext)] = want["gen%d.h" % k] = want["autocxxgen%d.h" % k] = 1
    if opts.rs in ("include", "both"):
        for k in range(n):
            want["gen%d.include.rs" % k] = 1
    if opts.rs in ("archive", "both"):
        want["gen.rs.json"] = 1
    if opts.cxxh:
        want["cxx.h"] = 1
    ck.count("exact_sets")
    if set(want) != set(files):
        ck.violation("exact:set", "--generate-exact %d wrote %s; missing %s, unexpected %s %s" % (
            n, len(files), sorted(set(want) - set(files)), sorted(set(files) - set(want)), ctx), src=d)


def check_dep(ck, d, outp, depname, clean, proj, ctx):
    p = os.path.join(d, depname)
    ck.count("depfiles")
    if not os.path.exists(p):
        ck.violation("dep:missing", "no depfile was written %s" % ctx, src=d)
        return
    rules = parse_depfile(p)
    if rules is None:
        ck.violation("dep:format", "the depfile cannot be read as a makefile %s" % ctx, src=d)
        return
    rules = {os.path.realpath(k): {os.path.realpath(x) for x in v} for k, v in rules.items()}
    want = {os.path.realpath(os.path.join(outp, f)) for f in clean}
    if set(rules) != want:
        ck.violation("dep:outputs", "depfile outputs differ: missing %s, unknown %s %s" % (
            sorted(want - set(rules))[:5], sorted(set(rules) - want)[:5], ctx), src=d)
    hdrs = headers_read(d, proj)
    ck.count("headers_expected", len(hdrs))
    for o, deps in rules.items():
        miss = sorted(hdrs - deps)
        if miss:
            ck.violation("dep:headers", "depfile of %s (%s) lacks %s %s" % (os.path.basename(o), depname, miss[:6], ctx), src=d)
            break
        gone = sorted(x for x in deps if not os.path.exists(x))
        if gone:
            ck.violation("dep:nonexistent", "depfile (%s) names %s, which do not exist %s" % (depname, gone[:6], ctx), src=d)
            break


def exact_matrix(ck, T, i):
    """--generate-exact N for every N around the number of modules, into fresh and used directories."""
    rng = ck.rng("exact", i)
    proj = Proj(rng)
    opts = Opts(rng, proj)
    opts.cpp, opts.fix, opts.sup = True, True, False
    if i % 3 == 0:
        opts.rs = "both"
    d = os.path.join(scratch_root(), "c12x_%d" % i)
    os.makedirs(d)
    proj.write(d)
    # how many C++ files each module needs is observed by generating it alone
    need = 0
    for m in proj.mods:
        one = "use autocxx::prelude::*;\n" + proj.module(m)
        _w(d, "alone.rs", one)
        r = run([T.gen, "alone.rs", "-o", "alone%d" % m["k"], "-I", ".", "-I", "inc2", "--gen-cpp", "--", STD], cwd=d)
        if r.rc != 0:
            raise Inconclusive("c12: single module failed " + r.err[-400:])
        need += len([f for f in read_dir(os.path.join(d, "alone%d" % m["k"])) if f.endswith(".cc")])
    for n in [max(0, need - 2), need - 1, need, need + 1, need + 4, 12]:
        if n < 0:
            continue
        opts.exact = n
        r = gen(T, d, proj, opts, "x%d" % n)
        if r.killed:
            raise Inconclusive("c12: generator timed out")
        ck.evaluated("exact|%d mods|N=need%+d|%s" % (need, n - need, opts.rs))
        if n < need:
            ck.count("exact_too_small")
            if r.rc == 0:
                ck.violation("exact:too-small", "--generate-exact %d succeeded with %d modules" % (n, need), src=d)
            continue
        if r.rc != 0:
            ck.violation("exact:refused", "--generate-exact %d failed with %d modules: %s" % (n, need, r.err[-800:]), src=d)
            continue
        files = read_dir(os.path.join(d, "x%d" % n))
        check_exact(ck, files, opts, "[N=%d, %d modules]" % (n, need), d)
        # every C++ file of the set can be handed to the compiler
        for f in sorted(files):
            if f.endswith("." + opts.ext) and f.startswith("gen") and n in (need, need + 1):
                c = run(["clang++", STD, "-w", "-fsyntax-only", "-x", "c++", "-I.", "-Iinc2", "-Ix%d" % n, "-I" + os.path.join(scratch_root(), "cxxh"), os.path.join("x%d" % n, f)], cwd=d)
                ck.count("cc_files_compiled")
                if c.rc != 0:
                    ck.violation("exact:cc", "%s of --generate-exact %d does not compile: %s" % (f, n, c.err[-800:]), src=d)
    shutil.rmtree(d, ignore_errors=True)


def collisions(ck, T, i):
    """Two modules whose outputs land on one name: an error if the contents differ, whatever is already there."""
    rng = ck.rng("coll", i)
    d = os.path.join(scratch_root(), "c12c_%d" % i)
    os.makedirs(d)
    _w(d, "a.h", "#pragma once\n#include <cstdint>\ninline uint32_t fa() { return 1; }\ninline uint32_t fb() { return 2; }\n")
    same = i % 3 == 2
    nm = "" if i % 2 == 0 else "name!(twin)\n"
    src = lambda f: "use autocxx::prelude::*;\ninclude_cpp! {\n#include \"a.h\"\nsafety!(unsafe_ffi)\ngenerate!(\"%s\")\n%s}\n" % (f, nm)
    _w(d, "one.rs", src("fa"))
    _w(d, "two.rs", src("fa" if same else "fb"))
    flags = [["--gen-rs-include"], ["--gen-cpp"], ["--gen-cpp", "--gen-rs-include"]][i % 3 if not same else rng.randrange(3)]

    def go(inputs, out):
        return run([T.gen] + inputs + ["-o", out, "-I", "."] + flags + ["--", STD], cwd=d)
    alone = {}
    for f in ("one.rs", "two.rs"):
        r = go([f], "alone_" + f)
        if r.rc != 0:
            raise Inconclusive("c12: single module failed " + r.err[-400:])
        alone[f] = read_dir(os.path.join(d, "alone_" + f))
    common = {n for n in alone["one.rs"] if n in alone["two.rs"] and not re.match(r"gen\d+\.", n)}
    differ = sorted(n for n in common if alone["one.rs"][n] != alone["two.rs"][n])
    for hist in ([], ["one.rs"], ["two.rs"], ["one.rs", "two.rs"], ["both"], ["both", "both"]):
        for order in (["one.rs", "two.rs"], ["two.rs", "one.rs"]):
            out = "o_%s_%s" % ("_".join(hist), order[0])
            for h in hist:
                go(order if h == "both" else [h], out)
            r = go(order, out)
            ck.evaluated("collision|%s|%s|after %s|%s" % (bool(differ), flags, hist, order[0]))
            ck.count("collisions_expected" if differ else "shared_names_without_conflict")
            if differ and r.rc == 0:
                ck.violation("collision:silent", "two modules write different contents to %s but the run (after %s, order %s, %s) exited 0" % (differ, hist, order, flags), src=d)
            if differ and r.rc != 0 and not any(n in r.err for n in differ):
                ck.violation("collision:unnamed", "the error does not name the colliding file: %s" % r.err[-600:], src=d)
            if not differ and r.rc != 0:
                ck.violation("collision:spurious", "two modules with equal outputs were refused: %s" % r.err[-600:], src=d)
    shutil.rmtree(d, ignore_errors=True)


def dep_names(ck, T, i):
    """Depfile with awkward locations and names."""
    d = os.path.join(scratch_root(), "c12d_%d" % i)
    os.makedirs(d)
    hdrs, out, dep, cwd, inc = [
        (["h.h"], "out", "out/x.d", ".", "."),
        (["h.h", "my dir/x y.h"], "out", "x.d", ".", "."),
        (["h.h"], "out dir", "x.d", ".", "."),
        (["h.h"], os.path.join(d, "abs"), "x.d", ".", "."),
        (["h.h"], "out", os.path.join(d, "x.d"), ".", "."),
        (["h.h"], "out", os.path.join(d, "x.d"), ".", d),
        (["h.h"], "../out", "../x.d", "w", ".."),
        (["h.h"], "out", "a/b/../x.d", ".", d),
        (["a#b.h", "c$d.h"], "out", "x.d", ".", "."),
    ][i]
    for k, h in enumerate(hdrs):
        _w(d, h, "#pragma once\n#include <cstdint>\n%sinline uint32_t f%d() { return 1; }\n" % ("".join('#include "%s"\n' % x for x in hdrs[k + 1:]), k))
    w = os.path.join(d, cwd)
    os.makedirs(w, exist_ok=True)
    os.makedirs(os.path.join(w, "a", "b"), exist_ok=True)
    _w(w, "m.rs", "use autocxx::prelude::*;\ninclude_cpp! {\n#include \"%s\"\nsafety!(unsafe_ffi)\ngenerate!(\"f0\")\n}\n" % hdrs[0])
    os.makedirs(os.path.dirname(os.path.join(w, dep)), exist_ok=True)
    r = run([T.gen, "m.rs", "-o", out, "-I", inc, "--gen-cpp", "--gen-rs-include", "--depfile", dep, "--", STD], cwd=w)
    ck.evaluated("depname %d" % i)
    if r.killed:
        raise Inconclusive("c12: generator timed out")
    if r.rc != 0:
        ck.violation("depname:%d" % i, "a run with outdir %s, depfile %s, -I %s failed: %s" % (out, dep, inc, r.err[-800:]), src=d)
    else:
        p = os.path.join(w, dep)
        rules = parse_depfile(p) or {}
        rules = {os.path.realpath(k): {os.path.realpath(x) for x in v} for k, v in rules.items()}
        outs = {os.path.realpath(os.path.join(w, out, f)) for f in read_dir(os.path.join(w, out)) if not f.endswith(".d")}
        need = {os.path.realpath(os.path.join(d, h)) for h in hdrs}
        if set(rules) != outs or any(need - v for v in rules.values()):
            ck.violation("depname:%d" % i, "depfile %s is wrong: outputs %s, missing headers %s\n%s" % (
                dep, sorted(set(rules) ^ outs), [sorted(need - v) for v in rules.values()], open(p).read()[:1500]), src=d)
    shutil.rmtree(d, ignore_errors=True)


def main():
    ck = Check("C12", level="fault_enumeration")
    T = build_repo()
    ck.rule = ("one evaluation = one run of the generator at the end of a history (edits, corrupted/deleted outputs, interrupted, failed and blocked runs) whose output directory, timestamps and depfile were "
               "compared with a clean run; or one --generate-exact / name-collision / depfile-location run; distinct = last history step x configuration")
    cx = os.path.join(scratch_root(), "cxxh")
    os.makedirs(cx)
    _w(scratch_root(), "t.rs", "use autocxx::prelude::*;\n")
    r = run([T.gen, "t.rs", "-o", "cxxh", "--gen-cpp", "--generate-cxx-h"], cwd=scratch_root())
    n = 24 if ck.quick else 160
    jobs = [("d", k) for k in range(9)] + [("h", k) for k in range(n)] + [("x", k) for k in range(6 if ck.quick else 30)] + [("c", k) for k in range(6)]
    fn = {"h": history, "x": exact_matrix, "c": collisions, "d": dep_names}
    for r in pmap(lambda j: fn[j[0]](ck, T, j[1]), jobs):
        if isinstance(r, Inconclusive):
            ck.note_inconclusive(r)
    return ck.finish(min_evals=100)
