"""Run the checks against the planted bugs, each in a scratch copy of /repo.

python3 tools/run_seeded.py [-a] [id ...]     -a: every check, not just the property's own
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = "-a" in sys.argv
ids = [a for a in sys.argv[1:] if a != "-a"] or sorted(os.listdir(HERE + "/seeded"))


def run(mid):
    meta = json.load(open("%s/seeded/%s/meta.json" % (HERE, mid)))
    top = tempfile.mkdtemp(prefix="rvseed")
    scratch = top + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", scratch], check=True)
        subprocess.run(["git", "-C", scratch, "apply", "%s/seeded/%s/patch.diff" % (HERE, mid)], check=True)
        res = []
        for pid in ["C%02d" % k for k in range(1, 1 + len(open(HERE + "/properties.jsonl").readlines()))] if ALL else [meta["property"]]:
            for seed in ("1",) if ALL else ("1", "2", "3"):
                env = dict(os.environ, VERIF_REPO=scratch, VERIF_SEED=seed, VERIF_TIER="quick", PYTHONDONTWRITEBYTECODE="1", VERIF_NOEVIDENCE="1")
                r = subprocess.run(["/opt/venv/bin/python", HERE + "/rv/run.py", pid, "quick"], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
                hit = r.returncode == 1 and "VIOLATION property=" + pid in r.stdout
                if ALL:
                    if hit:
                        res.append(pid)
                else:
                    res.append("caught" if hit else "MISSED(%d)" % r.returncode)
        return "%-28s %s %s" % (mid, meta["property"], " ".join(res))
    finally:
        shutil.rmtree(top, ignore_errors=True)


with ThreadPoolExecutor(4) as ex:
    for line in ex.map(run, ids):
        print(line, flush=True)
