"""Plumbing shared by the checks: building the harness from /repo's working
tree, running it over a workload, and having TLC judge the recorded trace."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 8


class ToolError(Exception):
    pass


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="mbusv.")
        self.n = 0
        self.lock = threading.Lock()

    def path(self, suffix=""):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, f"{self.n}{suffix}")

    def sub(self):
        p = self.path(".d")
        os.mkdir(p)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def env_with(**kw):
    e = dict(os.environ)
    e.update({k: str(v) for k, v in kw.items()})
    return e


# ------------------------------------------------------------------ building

def cargo(args, cwd, timeout=840, **kw):
    e = env_with(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **kw)
    e.pop("RUSTFLAGS", None)
    return subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)


# operations of the harness by cargo feature: a group whose entry point is gone
# or differently shaped is left out, and what remains is observed without it
GROUPS = {"num": "bcd ibcd bs bu real", "str": "lat1 ascii", "date": "f g i j k", "man": "man", "hdr": "shdr lhdr",
          "app": "aerr asel paerr", "msg": "msg pmsg", "frame": "frame pframe", "rec": "rec prec", "dib": "dib pdib", "vib": "vib pvib",
          "err": "errtxt errpkt", "file": "file named", "streams": "slice loc"}
left_out = set()


def build_harness(profile):
    cwd = os.path.join(VERIF, "harness")
    args = ["build", "--offline"] + (["--release"] if profile == "release" else [])
    r = cargo(args, cwd)
    if r.returncode != 0:
        # bare: every other group missing, to see whether anything can be observed
        none = cargo(["check", "--offline", "--no-default-features"], cwd)
        if none.returncode != 0:
            raise ToolError(f"harness does not build ({profile}):\n" + none.stdout[-3000:])
        good = [g for g in GROUPS
                if cargo(["check", "--offline", "--no-default-features", "--features", g], cwd).returncode == 0]
        r = cargo(args + ["--no-default-features", "--features", ",".join(good)], cwd)
        if r.returncode != 0:
            raise ToolError(f"harness does not build ({profile}):\n" + r.stdout[-3000:])
        left_out.update(set(GROUPS) - set(good))
    return os.path.join(cwd, "target", "release" if profile == "release" else "debug", "mbus_harness")


def observable(ops):
    gone = {o for g in left_out for o in GROUPS[g].split()}
    return [o for o in ops if o.split(None, 1)[0].split(":")[0] not in gone] if gone else ops


# ----------------------------------------------------------------- harness

def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(binary, ops, scratch, timeout=300):
    """One trace line (as text) per operation.  A crash or a hang of the code
    under test is an observation too: that line gets st crash / hang."""
    out = []
    start = 0
    crashes = 0
    sd = scratch.sub()
    while start < len(ops):
        inp = scratch.path(".ops")
        with open(inp, "w") as f:
            f.write("\n".join(ops[start:]) + "\n")
        careful = crashes > 0
        e = env_with(HARNESS_SCRATCH=sd)
        if careful:
            e["HARNESS_UNBUFFERED"] = "1"
        res = scratch.path(".nd")
        with open(inp) as fi, open(res, "w") as fo:
            try:
                r = subprocess.run([binary], stdin=fi, stdout=fo, stderr=subprocess.DEVNULL,
                                   env=e, preexec_fn=_limits, timeout=timeout)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 97
        with open(res) as fo:
            got = fo.read().split("\n")
        os.unlink(inp)
        os.unlink(res)
        if got and got[-1] == "":
            got.pop()
        elif got:
            got.pop()           # torn last line
        if rc == 0:
            if len(got) != len(ops) - start:
                raise ToolError("harness lost lines")
            out.extend(got)
            break
        if rc == 98:
            raise ToolError("harness does not know an operation")
        crashes += 1
        if not careful and rc != 97:
            # rerun unbuffered to find the line
            continue
        if not careful:
            continue
        out.extend(got)
        start += len(got)
        if start < len(ops):
            head, hx = (ops[start].split() + ["-"])[:2]
            parts = head.split(":")
            hx = "" if hx == "-" else hx
            out.append(json.dumps({"i": 0, "op": parts[0], "a": [int(x) for x in parts[1:]],
                                   "in": list(bytes.fromhex(hx)), "st": "hang" if rc == 97 else "crash",
                                   "rest": 0, "ev": []}, separators=(",", ":")))
            start += 1
        if crashes > 8:
            # plenty of evidence; the rest stays unobserved
            break
    return out


# --------------------------------------------------------------------- TLC

def tlc(module, cfg, scratch, env=None, workers=2, heap="2g", timeout=840, args=(), spec_dir=SPEC):
    md = scratch.sub()
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss32m", f"-Djava.io.tmpdir={md}", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", md, "-workers", str(workers), "-config", cfg] + list(args) + [module]
    e = env_with(**(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(cmd, cwd=spec_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout


RE_STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left", re.M)


def tlc_counts(out):
    m = None
    for m in RE_STATES.finditer(out):
        pass
    if not m:
        return None
    return int(m.group(1)), int(m.group(2)), int(m.group(3))


def model_check(module, cfg, scratch, env=None, workers=4, heap="4g", timeout=840, args=()):
    """Check the specification itself.  A violated invariant here is a defect
    of the specification (or its own design), not of the code."""
    rc, out = tlc(module, cfg, scratch, env, workers, heap, timeout, args)
    c = tlc_counts(out)
    if rc != 0 or c is None or "No error has been found" not in out:
        raise ToolError(f"specification check {module}/{cfg} failed:\n" + out[-3000:])
    return {"model": f"{module}/{cfg}", "states": c[1], "transitions": c[0], "out": out}


def apalache(module, init, inv, steps, scratch, timeout=600):
    """One proof obligation, for all values, with Apalache."""
    out = scratch.sub()
    try:
        r = subprocess.run(["apalache-mc", "check", f"--out-dir={out}", f"--init={init}", f"--inv={inv}", f"--length={steps}", module],
                           cwd=os.path.join(VERIF, "spec"), env=env_with(JVM_ARGS="-Xmx2g"), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except (OSError, subprocess.TimeoutExpired) as e:
        raise ToolError(f"Apalache: {module} {init} => {inv}: {e}")
    if r.returncode != 0 or "The outcome is: NoError" not in r.stdout:
        raise ToolError(f"specification proof {module} {init} => {inv} failed:\n" + r.stdout[-3000:])


def _judge_chunk(lines, prop, scratch, workers, heap):
    tr = scratch.path(".nd")
    with open(tr, "w") as f:
        f.write("\n".join(lines) + "\n")
    rc, out = tlc("MBusTrace.tla", "MBusTrace.cfg", scratch, {"TRACE": tr, "PROP": prop}, workers, heap)
    os.unlink(tr)
    c = tlc_counts(out)
    if rc != 0 or c is None or c[1] != 2 * len(lines):
        raise ToolError("trace validation did not finish:\n" + out[-3000:])
    bad = []
    for m in re.finditer(r'^"DIVERGED (\d+) (.*)"$', out, re.M):
        bad.append((int(m.group(1)) - 1, m.group(2).replace('\\"', '"').replace("\\\\", "\\")))
    return c, bad


def judge(lines, prop, scratch, chunk=6000, procs=4, deadline=None):
    """TLC decides for every line whether the specification allows it."""
    chunks = [(i, lines[i:i + chunk]) for i in range(0, len(lines), chunk)]
    per = max(1, -(-len(lines) // procs))
    if per < chunk:
        chunks = [(i, lines[i:i + per]) for i in range(0, len(lines), per)]
    states = trans = 0
    bad = []
    w = max(1, CORES // procs)
    with ThreadPoolExecutor(procs) as ex:
        for (base, ls), (c, b) in zip(chunks, ex.map(lambda t: _judge_chunk(t[1], prop, scratch, w, "3g"), chunks)):
            trans += c[0]
            states += c[1]
            bad.extend((base + k, why) for k, why in b)
    return states, trans, sorted(bad)
