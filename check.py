#!/usr/bin/env python3
"""check.py ID quick|thorough      run the check of one property (exit 0 / 1)
   check.py --replay FILE          execute one saved case/schedule again (exit 0 holds, 1 violated)
   check.py --setup                build all engines
"""
import hashlib, json, os, shutil, subprocess, sys, time, glob

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
OUT = os.path.join(V, "out")
BUILD = os.path.join(V, "build")
sys.path.insert(0, V)
from registry import ENGINES, PROPS  # noqa: E402


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def tree_hash(engine):
    h = hashlib.sha256()
    files = []
    for d in ENGINES[engine]["deps"]:
        p = d if os.path.isabs(d) else os.path.join(V, d)
        p = p.replace("/repo", REPO, 1) if d.startswith("/repo") else p
        if os.path.isdir(p):
            for root, dirs, fs in os.walk(p):
                dirs[:] = sorted(x for x in dirs if x not in ("_build", ".git", "__pycache__"))
                files += [os.path.join(root, f) for f in sorted(fs)]
        else:
            files.append(p)
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def build(engine, variant):
    d = os.path.join(BUILD, f"{engine}-{variant}-{tree_hash(engine)}")
    if os.path.exists(os.path.join(d, ".ok")):
        return d
    for old in glob.glob(os.path.join(BUILD, f"{engine}-{variant}-*")):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    t = time.time()
    r = subprocess.run(["bash", os.path.join(V, ENGINES[engine]["build"]), d, variant],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, REPO=REPO))
    if r.returncode:
        print(r.stdout[-6000:])
        shutil.rmtree(d, ignore_errors=True)
        die(f"building engine {engine} ({variant}) failed")
    open(os.path.join(d, ".ok"), "w").close()
    print(f"  built {engine} ({variant}) in {time.time() - t:.1f} s", flush=True)
    return d


def env_for(engine, d):
    e = dict(os.environ, MC_OUT=OUT, MC_BUILD=d, REPO=REPO, VERIF=V)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1"
    e.update(ENGINES[engine].get("env", {}))
    return e


def cmd_for(engine, d):
    return [x.replace("{B}", d).replace("{V}", V) for x in ENGINES[engine]["cmd"]]


def replay(path):
    # file name: <prop>-<engine>-<variant>-<rest>.case
    name = os.path.basename(path)
    prop, engine, variant = name.split("-")[:3]
    d = build(engine, variant)
    return subprocess.run(cmd_for(engine, d) + [prop, "replay", path], env=env_for(engine, d)).returncode


def known_findings(prop):
    res = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"finding: property={prop} id="):
                rest = line.split(" id=", 1)[1]
                fid, _, what = rest.partition(" ")
                res[fid] = what
    return res


def explore(prop, tier, engine, variant, d, e, res):
    """Run one engine; a violation is reported when its case fails again on its own. If it does not, it may depend on what
    the process did before (stale memory): then the same exploration, repeated, must find a violation again."""
    again = False
    while True:
        if os.path.exists(res):
            os.unlink(res)
        r = subprocess.run(cmd_for(engine, d) + [prop, tier, res], env=e)
        if not os.path.exists(res):
            die(f"{engine} ({variant}) gave no result (exit {r.returncode})")
        R = json.load(open(res))
        if r.returncode not in (0, 1) or (r.returncode == 1) != bool(R.get("violations")):
            die(f"{engine} ({variant}) ended with {r.returncode}")
        if not R.get("violations"):
            if again:
                print(f"  nothing found this time: {why}", flush=True)
            return R, None
        path, why = R["replay"], R.get("why", "")
        print(f"  replaying {path}", flush=True)
        c = subprocess.run(cmd_for(engine, d) + [prop, "replay", path], env=e).returncode
        if c == 1:
            return R, (path, why)
        if c != 0 or again and (variant == "pocl" or "did not return within" in why):
            die(f"the violation did not reproduce (replay exit {c}): {why}")
        if again:
            return R, (path, why + f" (only after the other cases of the exploration: check.py {prop} {tier})")
        print("  the case holds on its own; exploring again", flush=True)
        again = True


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        r = replay(sys.argv[2])
        sys.exit(r if r in (0, 1) else 2)
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        for e in ENGINES:
            for v in ENGINES[e]["variants"]:
                build(e, v)
        return
    if len(sys.argv) < 3 or sys.argv[1] not in PROPS:
        die("usage: check.py ID quick|thorough")
    prop, tier = sys.argv[1], sys.argv[2]
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = os.path.join(V, "evidence", prop + ".json")
    if os.path.exists(ev):
        os.unlink(ev)
    total = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
    passes, samples, outcomes = [], [], {}
    exhaustive = True
    violation = None
    found = set()
    for ps in P["passes"]:
        engine, variant = ps["engine"], ps.get("variant", "plain")
        if ps.get("tier") and ps["tier"] != tier:
            continue
        d = build(engine, variant)
        res = os.path.join(OUT, f"{prop}-{engine}-{variant}.result.json")
        if os.path.exists(res):
            os.unlink(res)
        e = env_for(engine, d)
        e["MC_TAG"] = f"{engine}-{variant}"
        R, violation = explore(prop, ps.get("tier_arg", tier), engine, variant, d, e, res)
        total["states"] += R.get("states", 0)
        total["transitions"] += R.get("transitions", 0)
        total["traces_validated_against_impl"] += R.get("evaluations", 0)
        info = {k: v for k, v in R.items() if k not in ("violations", "replay", "why", "samples", "states", "transitions", "evaluations", "findings")}
        passes.append(dict(engine=engine, variant=variant, **info))
        samples += R.get("samples", [])[:12]
        if R.get("exhaustive") is False:
            exhaustive = False
        for f in R.get("findings", []):
            found.add(f)
        if violation:
            break
    kf = known_findings(prop)
    unknown = [f for f in found if f not in kf]
    if unknown and not violation:
        die("internal: finding without a replay: " + str(unknown))
    doc = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": P["level"],
        "coverage": dict(total, samples=samples[:20] or ["none"], rule=P["rule"], exhaustive=exhaustive, passes=passes),
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    json.dump(doc, open(ev, "w"), indent=1)
    for f in sorted(found & set(kf)):
        print(f"KNOWN-FINDING: property={prop} {kf[f]}")
    print(f"{prop} {tier}: states={total['states']} transitions={total['transitions']} "
          f"executions={total['traces_validated_against_impl']} in {doc['wall_s']} s")
    if violation:
        print("  " + violation[1])
        print(f"VIOLATION property={prop} replay={violation[0]}", flush=True)
        sys.exit(1)
    sys.exit(0)


main()
