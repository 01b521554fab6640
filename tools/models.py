"""The specification's own checks: which modules TLC explores for a property,
and the implementation tests TLC generates from them."""
import random, re
from concurrent.futures import ThreadPoolExecutor
import vlib

CODEC = ["control", "ident", "man", "cfg", "status", "dib", "int", "bcd", "lvar", "text", "date", "vif", "ci",
         "app", "err"]


def C(*kinds):
    return [("MBusCodec", {"KIND": k}) for k in kinds]


def M(name):
    return [(name, {})]


MODELS = {
    "C01": M("MBusEnvelope"), "C02": M("MBusLink") + M("MBusEnvelope"), "C03": M("MBusLink") + M("MBusEnvelope"),
    "C04": M("MBusLink") + M("MBusEnvelope"), "C05": C("control") + M("MBusLink"), "C06": C("ci"),
    "C07": C("ident", "man", "status"), "C08": C("cfg"), "C09": M("MBusApp"), "C10": M("MBusApp"), "C11": C("dib"),
    "C12": C("vif"), "C13": C("vif"), "C14": C("int"), "C15": C("bcd"), "C16": C("lvar"), "C17": C("text"),
    "C18": M("MBusApp"), "C19": C("date"), "C20": C("app"), "C21": C("err"), "C22": C("man"), "C23": M("MBusApp"),
    "C24": C("ci"), "C25": M("MBusHist"), "C26": M("MBusFiles"), "C27": C("vif"), "C28": M("MBusErrors"),
}
# properties whose implementation tests include those generated from the
# application machine / the link machine, and how many of them in quick
GEN = {"C01": 12000, "C06": 12000, "C07": 3000, "C08": 3000, "C09": 12000, "C10": 12000, "C11": 8000, "C12": 8000,
       "C13": 12000, "C14": 6000, "C15": 6000, "C16": 8000, "C17": 6000, "C18": 8000, "C19": 8000, "C20": 4000,
       "C21": 4000, "C22": 4000, "C23": 12000, "C24": 4000}
GENLINK = {"C01": 6000, "C02": 12000, "C03": 6000, "C04": 12000, "C05": 6000}
# proofs by induction, checked symbolically with Apalache: the invariant holds at
# the start, is kept by every step from any state it allows, and implies the goal
PROOFS = {"C02": ["MBusLinkExact"], "C03": ["MBusLinkProof"], "C04": ["MBusLinkExact", "MBusLinkProof"]}
OBLIGATIONS = [("Init", "Ind", 0), ("IndInit", "Ind", 1), ("IndInit", "Goal", 0)]
RE_V = re.compile(r'^<<"V", <<(.*)>>>>$', re.M)


def vectors(out):
    got = {}
    for m in RE_V.finditer(out):
        got[bytes(int(x) for x in m.group(1).split(", ")) if m.group(1) else b""] = None
    return list(got)


def wrapped(b):
    body = bytes([8, 1]) + b
    return bytes([0x68, len(body), len(body), 0x68]) + body + bytes([sum(body) & 255, 0x16])


def as_ops(kind, vs, rng):
    h = lambda b: b.hex() or "-"
    if kind == "app":
        out = ["msg " + h(b) for b in vs]
        out += ["pkt " + h(wrapped(b)) for b in vs if len(b) < 253 and rng.random() < .3]
        return out
    if kind == "lhdr":
        return ["lhdr " + h(b) for b in vs]
    out = ["pkt " + h(b) for b in vs]
    out += ["prefix " + h(b) for b in vs if rng.random() < .5]
    return out


def run_models(prop, tier, seed, scratch):
    env0 = {"TIER": tier}
    jobs = [(m, e, ()) for m, e in MODELS.get(prop, [])]
    if prop in GEN:
        jobs.append(("MBusGen", {}, ()))
    if prop == "C22":
        jobs.append(("MBusGenNames", {}, ()))
    if prop in GENLINK:
        jobs.append(("MBusGenLink", {}, ()))

    def one(job):
        m, e, args = job
        gen = m.startswith("MBusGen")
        # one worker makes the generated tests the same every time
        r = vlib.model_check(m + ".tla", m + ".cfg", scratch, {**env0, **e}, workers=1 if gen else 3,
                             heap="6g" if tier == "thorough" and not gen else "3g", timeout=800, args=args)
        r["model"] = m + (":" + e["KIND"] if "KIND" in e else "")
        return r

    def proof(job):
        m, (init, inv, steps) = job
        vlib.apalache(m + ".tla", init, inv, steps, scratch)
        return {"model": f"{m}:{init}=>{inv}" + (" after one step" if steps else ""), "states": 0, "transitions": 0,
                "out": "", "method": "inductive, all values (Apalache)"}

    proofs = [(m, o) for m in PROOFS.get(prop, []) for o in OBLIGATIONS]
    with ThreadPoolExecutor(4) as ex:
        proved = [ex.submit(proof, j) for j in proofs]
        res = list(ex.map(one, jobs)) + [f.result() for f in proved]
    rng = random.Random(f"vectors/{prop}/{seed}")
    ops = []
    for r in res:
        out = r.pop("out")
        if r["model"] == "MBusGen":
            vs, lim, kind = vectors(out), GEN[prop], "app"
        elif r["model"] == "MBusGenLink":
            vs, lim, kind = vectors(out), GENLINK[prop], "link"
        elif r["model"] == "MBusGenNames":
            vs, lim, kind = vectors(out), 1 << 30, "lhdr"
        else:
            continue
        r["tests_generated"] = len(vs)
        if tier == "quick" and len(vs) > lim:
            vs = rng.sample(vs, lim)
        r["tests_replayed"] = len(vs)
        ops += as_ops(kind, vs, rng)
    return res, ops
