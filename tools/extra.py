"""Observations that need something else than the harness: the pattern macro
(C27) and the command line tool (C26)."""
import json, os, re, subprocess
import gen, vlib
from vlib import ToolError, VERIF, REPO


def observe(prop, tier, rng, n, scratch, profile):
    if prop == "C27":
        return patterns(profile)
    if prop == "C26":
        return cli(rng, n, scratch, profile)
    return [], []


# ------------------------------------------------------------------ patterns

def patterns(profile):
    cwd = os.path.join(VERIF, "patterns")
    args = ["build", "--offline"] + (["--release"] if profile == "release" else [])
    r = vlib.cargo(args, cwd)
    src = open(os.path.join(cwd, "src", "main.rs")).read().split("\n")
    if r.returncode == 0:
        out = subprocess.run([os.path.join(cwd, "target", profile, "mbus_patterns")], stdout=subprocess.PIPE, text=True)
        if out.returncode != 0:
            raise ToolError("pattern program failed")
        lines = out.stdout.strip().split("\n")
        return ["pattern " + bytes(json.loads(l)["in"]).decode() for l in lines], lines
    # /repo itself builds (the harness did): does the macro refuse patterns?
    used, lines = [], []
    for m in re.finditer(r"error(?:\[E\d+\])?: .*\n\s*--> src/main\.rs:(\d+):", r.stdout):
        t = src[int(m.group(1)) - 1]
        p = re.search(r"vif!\((.*)\)\),$", t)
        if p:
            used.append("pattern " + p.group(1))
            lines.append(json.dumps({"i": 0, "op": "pat", "a": [], "in": list(p.group(1).encode()), "st": "err",
                                     "rest": 0, "ev": []}, separators=(",", ":")))
    # nothing refused, or the macro is not there under that name: no answer
    if not lines or len(set(used)) == sum("vif!(" in l for l in src):
        raise ToolError("pattern program does not build:\n" + r.stdout[-3000:])
    return used, lines


# ---------------------------------------------------------------- command line

def build_cli(profile):
    td = os.path.join(VERIF, "harness", "target", "cli")
    args = ["build", "--offline", "--locked", "--bin", "test_parse", "--manifest-path",
            os.path.join(REPO, "Cargo.toml"), "--target-dir", td] + (["--release"] if profile == "release" else [])
    r = vlib.cargo(args, VERIF)
    if r.returncode != 0:
        raise ToolError("the command line tool does not build:\n" + r.stdout[-3000:])
    return os.path.join(td, profile, "test_parse")


BARE = {0: [".hex", "..hex", ".a.hex", "a..hex", "é.hex", ".hex.hex", "-.hex", "a b.hex"],
        1: ["hex", ".hexa", ".bin", "é", "-", "hex.", ".Hex", "a.hex.bak", "x.he", "...", "aéhex"]}


def cli_sets(rng, n):
    """lists of (kind, content): 0 = .hex text, 1 = raw bytes"""
    cp = gen.corpus()

    def one():
        b = rng.choice([lambda: gen.packet(rng), lambda: rng.choice(cp), lambda: gen.mutate(rng, rng.choice(cp)),
                        lambda: [rng.randrange(256) for _ in range(rng.randrange(12))], lambda: [0xE5],
                        lambda: gen.short(rng.choice([0x40, 0x5B, 0x7B, 0x08, 0x49]), rng.randrange(256)),
                        lambda: []])()
        k = rng.randrange(2)
        if k == 0 and b:
            return 0, (" ".join("%02X" % x for x in b) + rng.choice(["", "\n"])).encode()
        return 1, bytes(b)
    sets = [[], [(1, b"\xe5")], [(0, b"E5\n")], [(1, b"")], [(1, b""), (1, b"\xe5"), (1, b"\x00"), (0, b"e5")],
            [(1, b"\x00")] * 5 + [(0, b"10 40 01 41 16")] * 2 + [(1, b"\x68\x00\x00\x68")] + [(1, b"\xe5")]]
    for _ in range(60 * n):
        sets.append([one() for _ in range(rng.randrange(1, 12))])
    sets += [[(1, bytes(c)) for c in cp[i:i + 8]] for i in range(0, len(cp), 8)]
    # many files
    for k in (17, 33, 70) + ((300,) if n > 1 else ()):
        sets.append([one() for _ in range(k)])
    # the same file named more than once
    for _ in range(12 * n):
        s = [one() for _ in range(rng.randrange(1, 4))]
        sets.append(s + [s[i] + (i,) for i in (rng.randrange(len(s)) for _ in range(rng.randrange(1, 4)))])
    return sets


def cli(rng, n, scratch, profile):
    tool = build_cli(profile)
    hbin = vlib.build_harness(profile)
    d = scratch.sub()
    sets = cli_sets(rng, n)
    sets = [[t if len(t) == 3 else t + (i,) for i, t in enumerate(s)] for s in sets]
    blobs = sorted({(k, b) for s in sets for k, b, _ in s})
    # what the library itself says about each file, as text
    ref = {}
    lines = vlib.run_harness(hbin, [f"dbg:{k} {b.hex() or '-'}" for k, b in blobs], scratch)
    for key, l in zip(blobs, lines):
        j = json.loads(l)
        ref[key] = j["ev"][0]["s"] if j["ev"] else None
    used, out = [], []
    for si, s in enumerate(sets):
        names = []
        for i, (k, b, same) in enumerate(s):
            if same < i:
                names.append(names[same])
                continue
            nm = os.path.join(d, rng.choice(BARE[k])) if rng.random() < .15 else ""
            if not nm or nm in names:
                nm = os.path.join(d, f"t{i}" + rng.choice([".hex", ".hex", ".bin.hex", " x.hex"] if k == 0 else
                                                           [".bin", "", ".txt", ".hex.raw", ".HEX", "hex", ".hexx", ".hex ", ".hex."]))
            with open(nm, "wb") as f:
                f.write(b)
            names.append(nm)
        try:
            r = subprocess.run([tool] + names, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL, timeout=60)
            st, text = ("ok" if r.returncode == 0 else "crash"), r.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            st, text = "hang", ""
        # blocks: everything after one file's heading up to the next heading
        heads = [(m.start(), m.end(), m.group(1)) for m in re.finditer(r'^File "(.*)":\n', text, re.M)]
        ev = []
        for h, (a, e, nm) in enumerate(heads):
            body = text[e:heads[h + 1][0] if h + 1 < len(heads) else len(text)]
            idx = h if names[h:h + 1] == [nm] else names.index(nm) if nm in names else -1
            first = body.split("\n")[0]
            kind = "Packet" if first in ("Ack", "Short {", "Long {") else "Error"
            want = ref.get(s[idx][:2]) if idx >= 0 else None
            ev += [{"e": "File", "s": str(idx + 1), "n": []},
                   {"e": "Out", "s": kind, "n": [1 if body == want else 0]}]
        inp = []
        for k, b, _ in s:
            inp += [len(b) & 255, len(b) >> 8] + list(b)
        line = {"i": si + 1, "op": "cli", "a": [t[0] for t in s], "in": inp, "st": st, "rest": 0, "ev": ev}
        used.append("test_parse " + " ".join(f"{os.path.basename(nm)}={b.hex()[:60]}" for nm, (k, b, _) in zip(names, s)))
        out.append(json.dumps(line, separators=(",", ":")))
        for nm in set(names):
            os.unlink(nm)
    return used, out
