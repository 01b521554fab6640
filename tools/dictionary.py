"""Which constants does the code contain that it did not contain when the
workloads were written?  They are fed into the workloads as interesting values
(a fuzzer's dictionary).  They choose inputs only: what an input must give is
decided by the specification, as always.

dictionary.py --baseline   rewrites tools/constants.json from /repo"""
import collections, glob, json, os, random, re, sys

REPO = "/repo"
BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "constants.json")
TOKEN = re.compile(r"""//[^\n]*|/\*.*?\*/|b?r?"(?:[^"\\]|\\.)*"|b?'(?:[^'\\]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.))'"""
                   r"""|(?<![\w.])0x[0-9a-fA-F_]+|(?<![\w.])0b[01_]+|(?<![\w.])\d[\d_]*""", re.S)


def literals():
    out = collections.Counter()
    for f in sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True) + glob.glob(REPO + "/libmbus_macros/src/**/*.rs", recursive=True)):
        for m in TOKEN.finditer(open(f, errors="replace").read()):
            t = m.group(0)
            if not t.startswith("/"):
                out[t] += 1
    return out


def value(t):
    """a number, or the characters of a text"""
    try:
        if t[0].isdigit():
            return int(t.replace("_", ""), 0) if t[:2] in ("0x", "0b") else int(t.replace("_", ""))
        body = t[t.index("'" if t.rstrip()[-1] == "'" else '"') + 1:-1]
        body = re.sub(r"\\x([0-9a-fA-F]{2})|\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1) or m.group(2), 16)), body)
        body = re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(1), m.group(1)), body)
        return ord(body) if t.rstrip()[-1] == "'" else body
    except (ValueError, TypeError, IndexError):
        return None


def novel():
    """(numbers, texts) that occur more often than in the baseline"""
    base = json.load(open(BASE))
    if os.environ.get("CHECK_CONSTANTS"):          # to try the machinery out
        if os.environ["CHECK_CONSTANTS"] == "none":
            return [], []
        vs = [json.loads(x) for x in os.environ["CHECK_CONSTANTS"].split(",")]
        return [v for v in vs if isinstance(v, int)], [v for v in vs if isinstance(v, str)]
    nums, texts = collections.Counter(), collections.Counter()
    for t, n in literals().items():
        if n > base.get(t, 0):
            v = value(t)
            if isinstance(v, int):
                nums[v] += 1
            elif isinstance(v, str) and 0 < len(v) <= 60:
                texts[v] += 1
    # rare ones first: a new 0 or 1 says little
    ns = sorted(nums, key=lambda v: (v < 3, base.get(str(v), 0) + base.get(hex(v), 0), v))
    return ns[:24], sorted(texts)[:12]


class Hot(random.Random):
    """a random source with a liking for some values"""
    def __init__(self, seed, nums, texts):
        super().__init__(seed)
        self.near = sorted({x for v in nums for x in (v - 1, v, v, v + 1)} |
                           {x for v in nums if v > 255 for x in v.to_bytes(16, "little").rstrip(b"\0")} |
                           {int(str(v), 16) for v in nums if 9 < v < 10 ** 8})
        self.seqs = []
        for v in nums:
            if v < 1 << 64:
                b = v.to_bytes(8, "little").rstrip(b"\0") or b"\0"
                self.seqs += [list(b), list(b[::-1]), list(bytes.fromhex(str(v).rjust(16, "0"))[::-1]), list((-v & (1 << 64) - 1).to_bytes(8, "little"))]
        for t in texts:
            self.seqs += [list(t.encode()), list(t.encode("latin-1", "replace"))[::-1]]
        self.near += [b for t in texts for b in t.encode()]

    def randrange(self, start, stop=None, step=1):
        lo, hi = (0, start) if stop is None else (start, stop)
        if step == 1 and self.near and self.random() < .3:
            c = [v for v in self.near if lo <= v < hi]
            if c:
                return super().choice(c)
        return super().randrange(lo, hi, step)

    def choice(self, seq):
        if self.near and not isinstance(seq, str) and self.random() < .3:
            c = [x for x in seq if isinstance(x, int) and x in self.near]
            if c:
                return super().choice(c)
        return super().choice(seq)

    def fill(self, n):
        s = super().choice(self.seqs)
        out = [super(Hot, self).randrange(256) for _ in range(n)]
        if n:
            k = super().choice([0, max(0, n - len(s)), super().randrange(n)])
            out[k:k + len(s)] = s
        return (out + [0] * n)[:n]


if __name__ == "__main__":
    if "--baseline" in sys.argv:
        with open(BASE, "w") as f:
            json.dump(dict(sorted(literals().items())), f, indent=0, sort_keys=True)
            f.write("\n")
    print(novel())
