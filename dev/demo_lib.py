"""Helper of the demonstrations: builds the tools from /repo (the current directory) into a scratch directory and runs one generated program."""
import json, os, shutil, subprocess, sys, tempfile

REPO = os.getcwd()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           CARGO_PROFILE_DEV_DEBUG="0", LIBCLANG_PATH="/usr/lib/llvm-18/lib", HOME=os.environ.get("HOME", "/root"))
for k in ("AUTOCXX_RS", "AUTOCXX_RS_FILE", "AUTOCXX_RS_JSON_ARCHIVE", "OUT_DIR", "RUSTFLAGS"):
    ENV.pop(k, None)
SCRATCH = tempfile.mkdtemp(prefix="demo-")
import atexit
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))


def sh(cmd, cwd=None, env=None, timeout=280, check=False):
    e = dict(ENV)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout)
    r = type("R", (), {})()
    r.rc, r.out, r.err = p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    if check and r.rc != 0:
        print("demo infrastructure: %s failed\n%s" % (cmd[:3], r.err[-2000:]))
        os._exit(0)        # says nothing about the property
    return r


class Tools:
    def __init__(self):
        tgt = os.path.join(SCRATCH, "target")
        r = sh(["cargo", "build", "--offline", "--locked", "-p", "autocxx-gen", "-p", "autocxx", "--target-dir", tgt, "--message-format=json-render-diagnostics"], REPO, check=True)
        self.native = []
        for line in r.out.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                for fn in m["filenames"]:
                    if fn.endswith(".rlib") and m["target"]["name"] == "autocxx":
                        self.autocxx = fn
                    if fn.endswith(".rlib") and m["target"]["name"] == "cxx":
                        self.cxx = fn
                if m["target"]["name"] == "autocxx-gen" and m.get("executable"):
                    self.gen = m["executable"]
            if m.get("reason") == "build-script-executed":
                self.native += [p.split("=", 1)[-1] for p in m.get("linked_paths", [])]
        self.deps = os.path.join(tgt, "debug", "deps")


def build_and_run(t, header, main_rs, cpp="", std="c++14", sanitize=True, stop=None):
    """Returns (stage, ok, output): the stage reached, whether it succeeded, and its output."""
    d = tempfile.mkdtemp(dir=SCRATCH)
    for n, s in (("input.h", header), ("main.rs", main_rs), ("input.cc", cpp)):
        open(os.path.join(d, n), "w").write(s)
    r = sh([t.gen, "main.rs", "-o", "out", "-I", ".", "--gen-cpp", "--gen-rs-include", "--generate-cxx-h", "--", "-std=" + std], d)
    if r.rc != 0 or stop == "gen":
        return "gen", r.rc == 0, r.out + r.err
    unit = '#include "input.h"\n' + "".join('#include "out/%s"\n' % f for f in sorted(os.listdir(d + "/out")) if f.endswith(".cc")) + '#include "input.cc"\n'
    open(os.path.join(d, "unit.cc"), "w").write(unit)
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] if sanitize else []
    r = sh(["clang++", "-std=" + std, "-g1", "-w", *san, "-I.", "-Iout", "-c", "unit.cc", "-o", "unit.o"], d)
    if r.rc != 0 or stop == "cxx":
        return "cxx", r.rc == 0, r.out + r.err
    cmd = ["rustc", "--edition", "2021", "main.rs", "-L", "dependency=" + t.deps]
    for n in t.native:
        cmd += ["-L", "native=" + n]
    cmd += ["--extern", "autocxx=" + t.autocxx, "--extern", "cxx=" + t.cxx, "--cap-lints", "allow", "-o", "prog", "-C", "linker=clang++", "-C", "link-arg=-fuse-ld=lld", "-C", "link-arg=unit.o"]
    if sanitize:
        cmd += ["-C", "link-arg=-fsanitize=address,undefined"]
    r = sh(cmd, d, env={"AUTOCXX_RS": d + "/out"})
    if r.rc != 0 or stop == "rustc":
        return "rustc", r.rc == 0, r.out + r.err
    r = sh([d + "/prog"], d, env={"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:alloc_dealloc_mismatch=1"})
    return "run", r.rc == 0, r.out + ("" if r.rc == 0 else r.err)


def demand(cond, what):
    if not cond:
        print("DEMONSTRATED:", what)
        sys.exit(1)
