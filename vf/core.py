"""Shared machinery: building /repo, running generated programs, verdicts, evidence.

Verdicts are three-valued:
  violation     -> recorded with a replay directory, check exits 1
  held          -> exit 0 when enough was observed
  inconclusive  -> harness trouble (timeout, OOM, missing tool); never a violation.
                   A run with too few conclusive observations exits 2.
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
JOBS = max(2, min(8, os.cpu_count() or 4))

ENV = dict(os.environ)
ENV.update({
    "RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
    "CARGO_INCREMENTAL": "0", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "RUSTC_WRAPPER": "",
    "LIBCLANG_PATH": "/usr/lib/llvm-18/lib", "HOME": os.environ.get("HOME", "/root"),
})
for k in ("AUTOCXX_RS", "AUTOCXX_RS_FILE", "AUTOCXX_RS_JSON_ARCHIVE", "OUT_DIR", "RUSTFLAGS", "RUST_LOG",
          "AUTOCXX_ASAN", "AUTOCXX_REPRO_CASE", "AUTOCXX_PREPROCESS", "MAKEFLAGS", "CARGO_MAKEFLAGS"):
    ENV.pop(k, None)


class Inconclusive(Exception):
    pass


class Res:
    __slots__ = ("rc", "out", "err", "timed_out")

    def __init__(self, rc, out, err, timed_out):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out

    @property
    def killed(self):
        """Ended from outside (OOM killer, time limit): no verdict possible."""
        return self.timed_out or self.rc == -signal.SIGKILL


def run(cmd, cwd=None, env=None, timeout=120, stdin=None):
    e = dict(ENV)
    if env:
        for k, v in env.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    return Res(p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), to)


# --------------------------------------------------------------------------- building /repo

def repo_hash():
    """Hash of every source file of the working tree that can affect the build."""
    h = hashlib.sha256()
    for dp, dn, fs in os.walk(REPO):
        dn[:] = sorted(d for d in dn if d not in ("target", ".git", "book", ".github"))
        for n in sorted(fs):
            if not n.endswith((".rs", ".toml", ".lock", ".h", ".cc")):
                continue
            p = os.path.join(dp, n)
            try:
                with open(p, "rb") as f:
                    d = f.read()
            except OSError:
                continue
            h.update(os.path.relpath(p, REPO).encode() + b"\0" + hashlib.sha256(d).digest())
    return h.hexdigest()


WORKSPACE_CRATES = ["autocxx", "autocxx-macro", "autocxx-parser", "autocxx-engine", "autocxx-gen", "autocxx-build"]


class Toolchain:
    """Paths of what was built from the current tree."""
    gen = None          # autocxx-gen binary
    deps = None
    rlib_autocxx = None
    rlib_cxx = None
    native = ()


def _cargo(args, cwd, timeout=800, env=None):
    r = run(["cargo"] + args, cwd=cwd, timeout=timeout, env=env)
    if r.timed_out:
        raise Inconclusive("cargo timed out: %s" % " ".join(args))
    return r


def build_lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_repo(want_harness=False):
    """Builds autocxx-gen and the autocxx runtime crate from /repo into /verif/.build/target.

    Freshness is decided by content: when the recorded hash of the sources differs, the workspace
    crates are rebuilt whatever their timestamps say."""
    lk = build_lock()
    try:
        tgt = os.path.join(BUILD, "target")
        stamp = os.path.join(BUILD, "stamp.json")
        h = repo_hash()
        st = {}
        try:
            st = json.load(open(stamp))
        except Exception:
            pass
        info = st if (st.get("hash") == h and os.path.exists(st.get("gen", "/nonexistent"))) else None
        if info is None:
            if os.path.isdir(tgt):
                _cargo(["clean", "--offline", "--target-dir", tgt] + sum((["-p", c] for c in WORKSPACE_CRATES[:-1]), []), REPO)
                # drop stale copies with other metadata hashes
                d = os.path.join(tgt, "debug", "deps")
                for n in os.listdir(d) if os.path.isdir(d) else []:
                    if re.match(r"lib(autocxx|autocxx_parser|autocxx_engine|autocxx_macro)-", n):
                        os.unlink(os.path.join(d, n))
            r = _cargo(["build", "--offline", "--locked", "-p", "autocxx-gen", "-p", "autocxx", "--target-dir", tgt,
                        "--message-format=json-render-diagnostics"], REPO)
            if r.rc != 0:
                raise Inconclusive("the repository does not build:\n" + r.err[-3000:])
            info = {"hash": h, "native": []}
            for line in r.out.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get("reason") == "compiler-artifact":
                    name = m["target"]["name"]
                    for fn in m["filenames"]:
                        if name == "autocxx" and fn.endswith(".rlib"):
                            info["autocxx"] = fn
                        if name == "cxx" and fn.endswith(".rlib"):
                            info["cxx"] = fn
                    if name == "autocxx-gen" and m.get("executable"):
                        info["gen"] = m["executable"]
                if m.get("reason") == "build-script-executed":
                    for p in m.get("linked_paths", []):
                        info["native"].append(p.split("=", 1)[-1])
            for k in ("gen", "autocxx", "cxx"):
                if k not in info:
                    raise Inconclusive("cargo did not report artifact " + k)
            json.dump(info, open(stamp, "w"))
        T = Toolchain()
        T.gen, T.rlib_autocxx, T.rlib_cxx = info["gen"], info["autocxx"], info["cxx"]
        T.native = info["native"]
        T.deps = os.path.join(tgt, "debug", "deps")
        T.hash = h
        return T
    finally:
        lk.close()


def build_harness(crate, extra=(), toolchain=None, bin_name=None):
    """Builds a harness crate of /verif (path dependencies on /repo) and returns its binary path.

    A crate with a file SHARE uses the target directory of build_repo (call that first), where its dependencies are already built."""
    lk = build_lock()
    try:
        src = os.path.join(VERIF, "harness", crate)
        if REPO != "/repo":            # development runs against a copy
            dst = os.path.join(BUILD, "src-" + crate)
            shutil.copytree(src, dst, dirs_exist_ok=True)
            for dp, _, fs in os.walk(dst):
                for f in fs:
                    if f == "Cargo.toml":
                        t = open(os.path.join(dp, f)).read()
                        open(os.path.join(dp, f), "w").write(t.replace('"/repo/', '"%s/' % REPO))
            src = dst
        share = os.path.exists(os.path.join(src, "SHARE"))
        tgt = os.path.join(BUILD, "target" if share else "target-" + crate)
        stamp = os.path.join(BUILD, "stamp-%s.json" % crate)
        h = repo_hash() + hashlib.sha256(b"".join(
            open(os.path.join(dp, f), "rb").read() for dp, _, fs in sorted(os.walk(src)) for f in sorted(fs)
            if f.endswith((".rs", ".toml")))).hexdigest()
        st = {}
        try:
            st = json.load(open(stamp))
        except Exception:
            pass
        if st.get("hash") == h and os.path.exists(st.get("exe", "/nonexistent")):
            return st["exe"]
        if os.path.isdir(tgt):
            for c in [crate] if share else WORKSPACE_CRATES + [crate]:
                run(["cargo", "clean", "--offline", "--target-dir", tgt, "-p", c], cwd=src)
        lockf = os.path.join(src, "Cargo.lock")
        r = _cargo(["build", "--offline", "--target-dir", tgt, "--message-format=json-render-diagnostics"] + list(extra), src)
        if r.rc != 0:
            raise Inconclusive("harness %s does not build:\n%s" % (crate, r.err[-3000:]))
        exe = None
        for line in r.out.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact" and m.get("executable"):
                exe = m["executable"]
        if not exe:
            raise Inconclusive("no executable from harness " + crate)
        json.dump({"hash": h, "exe": exe}, open(stamp, "w"))
        return exe
    finally:
        lk.close()


# --------------------------------------------------------------------------- scratch

_scratch_root = None
_scratch_lock = threading.Lock()


def scratch_root():
    global _scratch_root
    with _scratch_lock:
        if _scratch_root is None:
            _scratch_root = tempfile.mkdtemp(prefix="vf-")
            import atexit
            atexit.register(lambda: shutil.rmtree(_scratch_root, ignore_errors=True))
    return _scratch_root


# --------------------------------------------------------------------------- check context

class Check:
    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        self.level = level
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.violations = []
        self.known_hit = {}
        self.inconclusive = []
        self.counters = {}
        self.sets = {}
        self.samples = []
        self.assumptions = []
        self.evaluations = 0
        self.distinct = set()
        self.rule = ""
        self.extra = {}
        self.known = load_known(pid)
        rd = os.path.join(VERIF, "evidence", "replay")
        for n in os.listdir(rd) if os.path.isdir(rd) else []:
            if n.startswith(pid + "-"):
                shutil.rmtree(os.path.join(rd, n), ignore_errors=True)

    quick = property(lambda self: self.tier == "quick")

    def rng(self, *tags):
        return random.Random("%s|%s|%s" % (self.seed, self.pid, "|".join(map(str, tags))))

    def count(self, key, n=1):
        with self.lock:
            self.counters[key] = self.counters.get(key, 0) + n

    def saw(self, key, item):
        with self.lock:
            self.sets.setdefault(key, set()).add(item)

    def evaluated(self, signature=None, n=1):
        with self.lock:
            self.evaluations += n
            if signature is not None:
                self.distinct.add(hashlib.sha256(str(signature).encode()).hexdigest()[:20])

    def sample(self, s, limit=6):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s)

    def note_inconclusive(self, what):
        with self.lock:
            self.inconclusive.append(str(what)[:2000])

    def violation(self, sig, what, files=None, src=None):
        """sig identifies the failing input/call site; files: {name: text}; src: case directory to keep."""
        with self.lock:
            for k in self.known:
                if k["sig"] == sig:
                    self.known_hit.setdefault(sig, k["what"])
                    return
            if len(self.violations) >= 12:
                self.violations.append((sig, what, None))
                return
            d = os.path.join(VERIF, "evidence", "replay", "%s-%d" % (self.pid, len(self.violations)))
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            if src and os.path.isdir(src):
                for dp, dn, fs in os.walk(src):
                    for f in fs:
                        p = os.path.join(dp, f)
                        if os.path.getsize(p) < 400000 and not f.endswith((".o", ".so")):
                            q = os.path.join(d, os.path.relpath(p, src))
                            os.makedirs(os.path.dirname(q), exist_ok=True)
                            shutil.copy(p, q)
            for n, t in (files or {}).items():
                with open(os.path.join(d, n), "w") as f:
                    f.write(t)
            with open(os.path.join(d, "WHAT.txt"), "w") as f:
                f.write("property %s\nsignature %s\nseed %d tier %s\n\n%s\n" % (self.pid, sig, self.seed, self.tier, what))
            self.violations.append((sig, what, d))

    def finish(self, min_evals=1):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.distinct),
                "rule": self.rule,
                "samples": self.samples[:8],
                "observed": dict(sorted(self.counters.items())),
                "distinct_observed": {k: len(v) for k, v in sorted(self.sets.items())},
                "inconclusive": len(self.inconclusive),
                "known_findings_seen": sorted(self.known_hit),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        for k, v in sorted(self.sets.items()):
            if len(v) <= 60:
                ev["coverage"].setdefault("observed_sets", {})[k] = sorted(map(str, v))
        ev["coverage"].update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        for sig, what in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        for x in self.inconclusive[:5]:
            print("inconclusive:", x.splitlines()[0] if x else "")
        if self.violations:
            for sig, what, d in self.violations[:3]:
                print("---- %s: %s" % (sig, what[:400]))
            shown = [v for v in self.violations if v[2]]
            for sig, what, d in shown:
                print("VIOLATION property=%s replay=%s" % (self.pid, d))
            sys.stdout.flush()
            return 1
        if self.evaluations < min_evals or len(self.inconclusive) > max(2, self.evaluations // 4):
            print("INCONCLUSIVE property=%s evaluations=%d inconclusive=%d" % (self.pid, self.evaluations, len(self.inconclusive)))
            for x in self.inconclusive[:3]:
                print(x)
            return 2
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.pid, self.evaluations, len(self.distinct), time.time() - self.t0))
        return 0


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append({"sig": m.group(2), "what": m.group(3)})
    return out


def pmap(fn, items, jobs=JOBS):
    """Runs fn over items on a thread pool; exceptions propagate as results."""
    res = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(fn, it) for it in items]
        for f in futs:
            try:
                res.append(f.result())
            except Inconclusive as e:
                res.append(e)
    return res


# --------------------------------------------------------------------------- program pipeline

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
SAN_REPORT = re.compile(r"ERROR: (Address|Leak|Thread)Sanitizer|runtime error:|AddressSanitizer:DEADLYSIGNAL|double free|free\(\): invalid")


class Case:
    """One generated program."""

    def __init__(self, name, header, main, cpp="", files=None, gen_args=(), clang_args=("-std=c++14",),
                 gen_flags=("--gen-cpp", "--gen-rs-include", "--generate-cxx-h"), rs_env=None, run_args=(), env=None,
                 cxx_flags=(), rustc_args=(), inputs=("main.rs",)):
        self.name, self.header, self.main, self.cpp = name, header, main, cpp
        self.files = files or {}
        self.gen_args, self.clang_args, self.gen_flags = list(gen_args), list(clang_args), list(gen_flags)
        self.rs_env = rs_env
        self.run_args, self.env, self.cxx_flags, self.rustc_args = list(run_args), env or {}, list(cxx_flags), list(rustc_args)
        self.inputs = inputs
        self.dir = None


class Outcome:
    """stage: gen | cxx | rustc | link | run ; ok tells whether the stage `stage` succeeded."""

    def __init__(self):
        self.stage = None
        self.ok = False
        self.gen = self.cxx = self.rustc = self.runr = None
        self.trace = []

    def describe(self):
        r = {"gen": self.gen, "cxx": self.cxx, "rustc": self.rustc, "run": self.runr}.get(self.stage)
        if r is None:
            return "stage %s" % self.stage
        return "stage %s rc=%s\n%s\n%s" % (self.stage, r.rc, r.out[-1500:], r.err[-4000:])


def write_case(case):
    if case.dir is None:
        case.dir = tempfile.mkdtemp(prefix=re.sub(r"\W", "_", case.name) + "-", dir=scratch_root())
    d = case.dir
    for n, t in [("input.h", case.header), ("main.rs", case.main), ("input.cc", case.cpp)] + sorted(case.files.items()):
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb" if isinstance(t, bytes) else "w") as f:
            f.write(t)
    return d


def gen_step(T, case, out="out", timeout=120, env=None):
    d = case.dir
    cmd = [T.gen] + ["main.rs" if i == "main.rs" else i for i in case.inputs] + \
        ["-o", out, "-I", "."] + case.gen_flags + case.gen_args + ["--"] + case.clang_args
    return run(cmd, cwd=d, timeout=timeout, env=env)


def compile_cxx(case, out="out", extra=(), sanitize=True, timeout=180):
    d = case.dir
    unit = ['#include "input.h"']
    gens = sorted(f for f in os.listdir(os.path.join(d, out)) if f.endswith(".cc"))
    for i, g in enumerate(gens):
        unit.append('#include "%s/%s"' % (out, g))
    unit.append('#include "input.cc"')
    with open(os.path.join(d, "unit.cc"), "w") as f:
        f.write("\n".join(unit) + "\n")
    return run(["clang++", *case.clang_args, "-O0", "-g1", "-w", *(SAN if sanitize else []), *case.cxx_flags, *extra,
                "-I.", "-I" + out, "-c", "unit.cc", "-o", "unit.o"], cwd=d, timeout=timeout)


def rustc_step(T, case, out="out", timeout=180, emit_link=True, sanitize=True, main="main.rs", outbin="prog", extra=()):
    d = case.dir
    env = {"AUTOCXX_RS": os.path.join(d, out)}
    if case.rs_env is not None:
        env = {k: (v.replace("@DIR@", d) if v else v) for k, v in case.rs_env.items()}
    cmd = ["rustc", "--edition", "2021", main, "-L", "dependency=" + T.deps]
    for n in T.native:
        cmd += ["-L", "native=" + n]
    cmd += ["--extern", "autocxx=" + T.rlib_autocxx, "--extern", "cxx=" + T.rlib_cxx, "--cap-lints", "allow",
            "-C", "debuginfo=0", "--error-format=short"]
    if emit_link:
        cmd += ["-o", outbin, "-C", "linker=clang++", "-C", "link-arg=-fuse-ld=lld", "-C", "link-arg=unit.o"]
        if sanitize:
            cmd += ["-C", "link-arg=-fsanitize=address,undefined"]
    else:
        cmd += ["--emit=metadata", "-o", outbin + ".rmeta"]
    cmd += list(case.rustc_args) + list(extra)
    r = run(cmd, cwd=d, timeout=timeout, env=env)
    if r.rc != 0 and link_error_only(r):
        r2 = run([c for c in cmd if c != "--error-format=short"], cwd=d, timeout=timeout, env=env)
        r.err += "\n" + "\n".join(l[:300] for l in r2.err.splitlines() if "undefined" in l or "duplicate" in l or "ld.lld" in l)
    return r


RUN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:halt_on_error=1:exitcode=97:detect_stack_use_after_return=1:alloc_dealloc_mismatch=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=1",
    "LSAN_OPTIONS": "exitcode=99",
    "RUST_BACKTRACE": "0",
}


def run_case(T, case, keep=False, stop_after=None, timeout_run=60):
    """Full pipeline. Raises Inconclusive for external kills/timeouts."""
    o = Outcome()
    write_case(case)
    o.stage = "gen"
    o.gen = gen_step(T, case)
    if o.gen.killed:
        raise Inconclusive("%s: generator killed/timed out" % case.name)
    if o.gen.rc != 0:
        return o
    if stop_after == "gen":
        o.ok = True
        return o
    # C++ and Rust front ends in sequence (the outer pool provides the parallelism)
    o.stage = "cxx"
    o.cxx = compile_cxx(case)
    if o.cxx.killed:
        raise Inconclusive("%s: clang killed/timed out" % case.name)
    if o.cxx.rc != 0:
        return o
    if stop_after == "cxx":
        o.ok = True
        return o
    o.stage = "rustc"
    o.rustc = rustc_step(T, case)
    if o.rustc.killed:
        raise Inconclusive("%s: rustc killed/timed out" % case.name)
    if o.rustc.rc != 0:
        return o
    if stop_after == "rustc":
        o.ok = True
        return o
    o.stage = "run"
    o.runr = exec_prog(case, timeout_run)
    if o.runr.killed:
        raise Inconclusive("%s: program killed/timed out" % case.name)
    o.trace = o.runr.out.splitlines()
    o.ok = o.runr.rc == 0
    return o


def exec_prog(case, timeout=60, prog="prog", env=None):
    e = dict(RUN_ENV)
    e.update(case.env)
    if env:
        e.update(env)
    r = run([os.path.join(case.dir, prog)] + case.run_args, cwd=case.dir, timeout=timeout, env=e)
    if "LeakSanitizer has encountered a fatal error" in r.err:
        # leak detection impossible in this sandbox (ptrace forbidden): rerun without it
        e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
        r = run([os.path.join(case.dir, prog)] + case.run_args, cwd=case.dir, timeout=timeout, env=e)
    return r


def probe(T, case, pre, probes, out="out", extra=(), rounds=6):
    """Asks rustc which of `probes` (one-line items, each independent) it accepts, given the bindings.

    Returns (rejected, broken): rejected = {index: (code, message)}; broken = errors that lie outside every probe line
    (the bindings themselves do not build). Rejected lines are removed and rustc is asked again, because later compiler
    phases only run when the earlier ones are clean."""
    base = pre.rstrip("\n").count("\n") + 2      # line number of probe 0
    rejected = {}
    for _ in range(rounds):
        text = pre.rstrip("\n") + "\n" + "\n".join("// rejected" if i in rejected else p for i, p in enumerate(probes)) + "\n"
        with open(os.path.join(case.dir, "probe.rs"), "w") as f:
            f.write(text)
        env = {"AUTOCXX_RS": os.path.join(case.dir, out)}
        if case.rs_env is not None:
            env = {k: (v.replace("@DIR@", case.dir) if v else v) for k, v in case.rs_env.items()}
        cmd = ["rustc", "--edition", "2021", "probe.rs", "-L", "dependency=" + T.deps, "--extern", "autocxx=" + T.rlib_autocxx, "--extern", "cxx=" + T.rlib_cxx,
               "--cap-lints", "allow", "--error-format=json", "--emit=metadata", "-o", "probe.rmeta"] + list(extra)
        r = run(cmd, cwd=case.dir, timeout=180, env=env)
        if r.killed:
            raise Inconclusive("rustc killed")
        if r.rc == 0:
            return rejected, []
        new, broken = {}, []
        for line in r.err.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") != "error" or m["message"].startswith("aborting due"):
                continue
            hit = None
            for sp in m.get("spans", []):
                k = sp["line_start"] - base
                if sp["is_primary"] and sp["file_name"] == "probe.rs" and 0 <= k < len(probes):
                    hit = k
            if hit is None:
                for sp in m.get("spans", []):
                    k = sp["line_start"] - base
                    if sp["file_name"] == "probe.rs" and 0 <= k < len(probes):
                        hit = k
            if hit is None:
                broken.append((m.get("rendered") or m["message"])[:600])
            else:
                new[hit] = ((m.get("code") or {}).get("code"), m["message"][:300])
        if not new:
            return rejected, broken or [r.err[-1000:]]
        rejected.update(new)
    raise Inconclusive("probe did not converge")


def cleanup(case):
    if case.dir and case.dir.startswith(scratch_root()):
        shutil.rmtree(case.dir, ignore_errors=True)


def link_error_only(res):
    return "linking with" in res.err and "error[E" not in res.err


def first_error(res):
    for l in (res.err + "\n" + res.out).splitlines():
        if "error" in l.lower():
            return l.strip()[:400]
    return (res.err.strip().splitlines() or [""])[0][:400]


def trace_diff(expected, got, limit=12):
    out = []
    for i in range(max(len(expected), len(got))):
        e = expected[i] if i < len(expected) else "<end>"
        g = got[i] if i < len(got) else "<end>"
        if e != g:
            out.append("line %d: expected %r observed %r" % (i, e, g))
            if len(out) >= limit:
                break
    return out


def judge_trace(ck, case, o, expected, sig, alone=True):
    """The common oracle: program must build, run clean under sanitizers and give exactly `expected`."""
    if o.stage in ("gen", "cxx"):
        # (input.cc cannot be checked alone when it calls functions that only the generated code declares)
        r = run(["clang++", *case.clang_args, *case.cxx_flags, "-fsyntax-only", "-w", "-x", "c++", "-I.", *(["-include", "input.h", "input.cc"] if alone else ["input.h"])], cwd=case.dir)
        if r.rc != 0:
            raise Inconclusive("%s: the harness wrote C++ that clang rejects: %s" % (case.name, first_error(r)))
    if o.stage != "run":
        ck.violation(sig + ":" + o.stage, "%s: bindings that must exist and build failed at stage %s: %s\n%s" % (
            case.name, o.stage, first_error({"gen": o.gen, "cxx": o.cxx, "rustc": o.rustc}[o.stage]), o.describe()), src=case.dir)
        return False
    if SAN_REPORT.search(o.runr.err):
        ck.violation(sig + ":sanitizer", "%s: sanitizer report\n%s" % (case.name, o.runr.err[:5000]), src=case.dir,
                     files={"stderr.txt": o.runr.err, "trace.txt": o.runr.out})
        return False
    if o.trace != expected or o.runr.rc != 0:
        d = trace_diff(expected, o.trace)
        ck.violation(sig + ":trace", "%s: observed history differs from the model (rc=%s)\n%s\nstderr: %s" % (
            case.name, o.runr.rc, "\n".join(d), o.runr.err[-1500:]), src=case.dir,
            files={"expected.txt": "\n".join(expected), "observed.txt": "\n".join(o.trace), "stderr.txt": o.runr.err})
        return False
    return True


def setup_harnesses():
    hd = os.path.join(VERIF, "harness")
    for c in sorted(os.listdir(hd)) if os.path.isdir(hd) else []:
        if os.path.exists(os.path.join(hd, c, "Cargo.toml")) and not os.path.exists(os.path.join(hd, c, "NO_SETUP")):
            build_harness(c)
