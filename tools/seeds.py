"""Run checks against every planted bug in seeded/: which check catches which.

usage: seeds.py [--all] [--jobs N] [ID ...]     (development only; no check reads seeded/)
Each bug is applied to a scratch clone of /repo; its own property's check must exit 1.
"""
import argparse
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(seed, props):
    base = tempfile.mkdtemp(prefix="seed", dir="/dev/shm")
    try:
        tree = os.path.join(base, "repo")
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        subprocess.run(["git", "-C", tree, "apply", os.path.join(VERIF, "seeded", seed, "patch.diff")], check=True)
        got = []
        for p in props:
            env = dict(os.environ, VM_REPO=tree, VERIF_TIER="quick")
            env.setdefault("VERIF_SEED", "1")
            r = subprocess.run([os.path.join(VERIF, "bin", "check"), p], env=env, capture_output=True, text=True)
            found = re.search(rf"^VIOLATION property={p} ", r.stdout, re.M)
            got.append((p, r.returncode if r.returncode != 1 or found else 99))
        return seed, got
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--jobs", type=int, default=2)
    a = ap.parse_args()
    every = [json.loads(line)["id"] for line in open(os.path.join(VERIF, "properties.jsonl"))]
    ids = a.ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        jobs = []
        for s in ids:
            own = json.load(open(os.path.join(VERIF, "seeded", s, "meta.json")))["property"]
            jobs.append(ex.submit(one, s, every if a.all else [own]))
        for j in jobs:
            seed, got = j.result()
            print(seed, "caught by", " ".join(p for p, rc in got if rc == 1) or "NOTHING",
                  " ".join(f"({p}: {rc})" for p, rc in got if rc not in (0, 1)), flush=True)


main()
