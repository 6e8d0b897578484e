#!/usr/bin/env python3
"""detect.py: apply each planted change to a scratch copy, run all checks there, and record
in tools/detected.json which of them report it"""
import os, sys, json, subprocess, concurrent.futures, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/detect"


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


def worker(slot, ids, props):
    w = f"{W}/{slot}"
    out = {}
    os.makedirs(w + "/verif")
    sh(f"cp -a {V}/.work {V}/harness {V}/driver {V}/sa {V}/check.py {V}/known-findings.txt {w}/verif/")
    for d in ids:
        sh(f"rm -rf {w}/repo; git clone -q /repo {w}/repo")
        sh(f"sed -i 's#\"/repo\"#\"{w}/repo\"#' {w}/verif/sa/extract.py; sed -i 's#\"/repo/#\"{w}/repo/#' {w}/verif/harness/Cargo.toml")
        if sh(f"git -C {w}/repo apply {V}/seeded/{d}/patch.diff").returncode:
            print(d, "does not apply")
            continue
        hit = []
        for p in props:
            r = sh(f"cd {w}/verif && timeout 900 python3 check.py {p}")
            if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout:
                hit.append(p)
        out[d] = hit
        print(d, hit, flush=True)
    return out


def main():
    shutil.rmtree(W, ignore_errors=True)
    f = V + "/tools/detected.json"
    det = json.load(open(f)) if os.path.exists(f) else {}
    ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    props = sorted(x[:-3].upper() for x in os.listdir(V + "/sa/props") if x[0] == "c" and x.endswith(".py"))
    n = min(6, len(ids))
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for r in ex.map(lambda i: worker(i, ids[i::n], props), range(n)):
            det.update(r)
    det = {k: v for k, v in det.items() if os.path.isdir(f"{V}/seeded/{k}")}
    json.dump(det, open(f, "w"), indent=1, sort_keys=True)
    shutil.rmtree(W, ignore_errors=True)


main()
