#!/usr/bin/env python3
"""One check = one property.  Builds the harness from /repo's working tree,
model-checks the specification, replays generated and specification-derived
inputs in the real code, and lets TLC decide every recorded line."""
import argparse, collections, json, os, random, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, gen, models, extra, dictionary, focus
from vlib import ToolError, VERIF

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """finding: property=<id> op=<operation line> <what fails>"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=" + prop + " "):
                rest = l.split(" op=", 1)[1]
                opl, what = rest.split(" ## ", 1)
                out[opl] = what
    return out


def parallel_harness(binary, ops, scratch, shards=4):
    if len(ops) < 4000:
        shards = 1
    per = -(-len(ops) // shards) or 1
    parts = [ops[i:i + per] for i in range(0, len(ops), per)]
    with ThreadPoolExecutor(len(parts) or 1) as ex:
        res = list(ex.map(lambda p: vlib.run_harness(binary, p, scratch), parts))
    lines, used = [], []
    for p, r in zip(parts, res):
        lines += r
        used += p[:len(r)]
    return used, lines


def sample(opl, line):
    d = json.loads(line)
    return {"op": opl[:300], "outcome": d["st"], "items": [x["e"] + (":" + x["s"] if x["s"] else "") for x in d["ev"]][:24]}


def run(prop, tier, seed, scale=None):
    t0 = time.time()
    scratch = vlib.Scratch()
    cov = collections.OrderedDict()
    T = {}
    try:
        n = scale if scale is not None else (1 if tier == "quick" else gen.DEEP.get(prop, 8))
        profiles = ["debug"]
        if tier == "thorough" or prop in ("C01", "C25", "C28"):
            profiles.append("release")
        ex = ThreadPoolExecutor(6)
        builds = ex.submit(lambda: [vlib.build_harness(p) for p in profiles])
        mods = ex.submit(models.run_models, prop, tier, seed, scratch)
        rng = random.Random(f"{prop}/{seed}/{tier}")
        ops = gen.WORK[prop](rng, n) if prop in gen.WORK else []
        # constants the workloads were not written with: more inputs around them
        nums, texts = dictionary.novel()
        plain = len(ops)
        if (nums or texts) and prop in gen.WORK:
            ops = ops + gen.WORK[prop](dictionary.Hot(f"{prop}/{seed}", nums, texts), 1)
            if prop not in ("C26", "C28"):
                ops = ops + focus.ops(rng, nums, texts)
        around = len(ops) - plain
        T["gen"] = time.time() - t0
        bins = builds.result()
        T["build"] = time.time() - t0
        mres, vectors = mods.result()
        T["models"] = time.time() - t0
        ops = vlib.observable(ops + vectors)
        if vlib.left_out:
            print(f"not observed (their entry points do not build): {sorted(vlib.left_out)}")
        seen = set()
        uniq = [o for o in ops if not (o in seen or seen.add(o))]
        states = sum(m["states"] for m in mres)
        trans = sum(m["transitions"] for m in mres)
        violations, traces = [], 0
        outcome = collections.Counter()
        samples = []
        verdicts = {}          # observed line (without its number) -> what was specified, or None
        for profile, b in zip(profiles, bins):
            used, lines = parallel_harness(b, uniq, scratch)
            used2, lines2 = extra.observe(prop, tier, rng, n, scratch, profile)
            used, lines = used + used2, lines + lines2
            body = [l[l.index(',"op"'):] for l in lines]
            todo = [k for k in {}.fromkeys(body) if k not in verdicts]
            s, t, badl = vlib.judge(['{"i":0' + k for k in todo], prop, scratch) if todo else (0, 0, [])
            verdicts.update({k: None for k in todo})
            verdicts.update({todo[i]: want for i, want in badl})
            bad = [(i, verdicts[k]) for i, k in enumerate(body) if verdicts[k] is not None]
            states, trans, traces = states + s, trans + t, traces + len(lines)
            for l in lines:
                k = l.find('"st":"')
                outcome[l[k + 6:l.find('"', k + 6)]] += 1
            for i, want in bad:
                violations.append((profile, used[i], lines[i], want))
            if not samples and lines:
                step = max(1, len(lines) // 6)
                samples = [sample(used[i], lines[i]) for i in range(step // 2, len(lines), step)][:6]
        T["judge"] = time.time() - t0
        if not traces:
            raise ToolError("nothing could be observed")
        known = known_findings(prop)
        hit = {o for _, o, _, _ in violations if o in known}
        for o in sorted(hit):
            print(f"KNOWN-FINDING: property={prop} {known[o]}")
        fresh = [v for v in violations if v[1] not in known]
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": states, "transitions": trans, "traces_validated_against_impl": traces,
                "distinct_operations": len(uniq), "profiles": profiles,
                "new_constants": [str(x) for x in nums + texts], "operations_around_them": around,
                "operations_left_out": sorted(vlib.left_out),
                "outcomes_observed": dict(outcome), "spec_vectors": len(vectors),
                "models": [{k: v for k, v in m.items() if k != "out"} for m in mres],
                "samples": samples,
            },
            "assumptions": [
                "the TLA+ modules in spec/ state the property correctly",
                "the harness projection of the public data structures is faithful",
                "inputs outside the generated and enumerated sets behave like those in them",
            ],
            "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if os.environ.get("CHECK_VERBOSE"):
            print({k: round(v, 1) for k, v in T.items()}, "ops", len(uniq), dict(outcome), file=sys.stderr)
        if fresh:
            rp = os.path.join(VERIF, "evidence", f"{prop}.violation.txt")
            with open(rp, "w") as f:
                for profile, o, l, want in fresh[:50]:
                    f.write(f"profile: {profile}\noperation: {o}\nobserved: {l}\nspecified: {want}\n\n")
            o = fresh[0]
            print(f"{len(fresh)} observed behaviours outside the specification; first ({o[0]}): {o[1][:400]}")
            print(f"  observed: {o[2][:600]}\n  specified: {o[3][:600]}")
            print(f"replay one with: echo '{o[1][:300]}' | {VERIF}/harness/target/{o[0]}/mbus_harness")
            print(f"VIOLATION property={prop} replay={rp}")
            return 1
        print(f"{prop} {tier}: {traces} observed behaviours allowed by the specification, "
              f"{states} states, {time.time() - t0:.1f}s")
        return 0
    finally:
        scratch.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scale", type=int)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        rc = run(a.prop, a.tier, seed, a.scale)
    except ToolError as e:
        print(f"check {a.prop} could not decide: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
