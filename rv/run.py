#!/opt/venv/bin/python
"""Driver of one check: run.py <PROPERTY> | run.py --replay FILE

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: inconclusive (a worker did not finish, or too little was observed).
"""
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
NSHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
CAP = {"quick": 60.0, "thorough": 600.0}
WALL = {"quick": 600.0, "thorough": 3000.0}


def known_findings(prop):
    keys = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3)
    return keys


def env_for(hashseed):
    env = {k: v for k, v in os.environ.items() if not k.lower().endswith("_proxy")}
    env.update(
        PYTHONPATH=os.path.join(REPO, "src") + os.pathsep + VERIF,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED=str(hashseed),
        PYTHONUTF8="1",
        NO_PROXY="*",
        VERIF_REPO=REPO,
    )
    return env


def launch(prop, tier, seed, shard, nshards, hashseed, out, keys, only=""):
    return subprocess.Popen(
        [PY, "-m", "rv.core", prop, tier, str(seed), str(shard), str(nshards),
         str(CAP[tier]), out, json.dumps(sorted(keys)), only],
        env=env_for(hashseed), cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def replay(path):
    r = json.load(open(path))
    keys = known_findings(r["property"])
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, "o.json")
        pr = launch(r["property"], r["tier"], r["seed"], r["shard"], r["nshards"], r["hashseed"], out, keys, r["case"])
        log, _ = pr.communicate(timeout=WALL["thorough"])
        if not os.path.exists(out):
            print(log.decode(errors="replace"))
            return 2
        res = json.load(open(out))
    for v in res["violations"]:
        print(v["message"])
        print(v["traceback"] or "")
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("not reproduced")
    return 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    keys = known_findings(prop)
    t0 = time.time()
    results, errors = [], []
    with tempfile.TemporaryDirectory(prefix="rv_") as d:
        procs = []
        for s in range(NSHARDS):
            out = os.path.join(d, "%d.json" % s)
            # a different hash seed per shard: set order is part of the workload
            hs = (seed * 1009 + s * 17) % 4294967295
            procs.append((s, out, launch(prop, tier, seed, s, NSHARDS, hs, out, keys)))
        deadline = t0 + WALL[tier]
        for s, out, pr in procs:
            try:
                log, _ = pr.communicate(timeout=max(1.0, deadline - time.time()))
            except subprocess.TimeoutExpired:
                pr.kill()
                log, _ = pr.communicate()
                errors.append("shard %d: watchdog" % s)
                continue
            if pr.returncode != 0 or not os.path.exists(out):
                errors.append("shard %d: exit %s\n%s" % (s, pr.returncode, log.decode(errors="replace")[-3000:]))
                continue
            results.append(json.load(open(out)))
    wall = time.time() - t0

    counters, sigs, samples, lines, hits, viol = {}, set(), [], {}, {}, []
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        sigs.update(r["sigs"])
        samples += r["samples"]
        hits.update(r["known_hits"])
        viol += r["violations"]
        errors += ["harness: " + h for h in r["harness"]]
        for k, v in r["lines"].items():
            lines.setdefault(k, set()).update(v)

    sys.path.insert(0, VERIF)
    meta = read_meta(prop)
    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["cases"] for r in results),
            "distinct_nontrivial": len(sigs),
            "rule": meta["RULE"],
            "samples": (samples[:4] or ["(none)"]),
            "events_observed": dict(sorted(counters.items())),
            "pymantic_lines_reached": {k: len(v) for k, v in sorted(lines.items())},
            "worker_processes": len(results),
            "known_findings_seen": hits,
        },
        "assumptions": meta["ASSUMES"],
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1, ensure_ascii=True)
        f.write("\n")

    for k, msg in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, msg.replace("\n", " ")))
    if viol:
        viol.sort(key=lambda v: (len(v["trace"]), v["case"]))
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s-%d.json" % (prop, tier, seed))
        json.dump(viol[0], open(path, "w"), indent=1)
        for v in viol[:3]:
            print("-- %s (%s, hash seed %s)\n%s" % (v["case"], v["property"], v["hashseed"], v["message"]))
            if v["traceback"]:
                print(v["traceback"][-1500:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("INCONCLUSIVE property=%s" % prop)
        print("\n".join(errors))
        return 2
    need = meta["MIN_EVENTS"]
    short = {k: (counters.get(k, 0), n) for k, n in need.items() if counters.get(k, 0) < n}
    if short or not sigs:
        print("INCONCLUSIVE property=%s observed too little: %s" % (prop, short))
        return 2
    print("held property=%s tier=%s seed=%d cases=%d distinct=%d oracle=%d wall=%.1fs" % (
        prop, tier, seed, evid["coverage"]["evaluations"], len(sigs),
        counters.get("oracle:evaluations", 0), wall))
    return 0


def read_meta(prop):
    """RULE, ASSUMES, MIN_EVENTS of a check, without importing pymantic."""
    import ast

    src = open(os.path.join(HERE, "checks", prop.lower() + ".py"), encoding="utf-8").read()
    out = {"ASSUMES": [], "MIN_EVENTS": {"oracle:evaluations": 100}}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id in ("RULE", "ASSUMES", "MIN_EVENTS"):
                out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


if __name__ == "__main__":
    sys.exit(main())
