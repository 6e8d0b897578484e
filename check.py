#!/usr/bin/env python3
"""Decide one property on /repo's current working tree: check.py <id> [--thorough] [-v]

exit 0: every obligation of the property's rules is discharged (known findings
are printed); exit 1 with a VIOLATION line otherwise."""
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sa"))
sys.setrecursionlimit(20000)


def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith(f"finding: property={prop} key="):
                out.append(line.split(" key=", 1)[1].split(" :: ")[0])
    return out


def finer(prop, first):
    """Loop heads reached in several ways are joined in the first run.  What that run cannot show is
    tried again with the first ways in kept apart: every run is an over-approximation of its own, so
    an obligation holds as soon as one run that analysed everything shows it."""
    jobs = []
    for n in (2, 3):
        out = tempfile.NamedTemporaryFile(prefix="sa-", suffix=".json", delete=False)
        out.close()
        jobs.append((out.name, subprocess.Popen([sys.executable, os.path.join(VERIF, "check.py")] + sys.argv[1:],
                                                env=dict(os.environ, SA_ENTRIES=str(n), SA_OUT=out.name),
                                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    runs = [first]
    end = time.time() + 400
    for name, p in jobs:
        try:
            if p.wait(max(1, end - time.time())) == 0:
                with open(name) as f:
                    obs, viols = json.load(f)
                runs.append(([tuple(o) for o in obs], [tuple(v) for v in viols]))
        except (subprocess.TimeoutExpired, ValueError):
            pass
        if p.poll() is None:
            p.kill()
            p.wait()
        os.unlink(name)
    full = [r for r in runs if not any(o[0] in GAVE_UP and not o[2] for o in r[0])]
    if not full:
        return first[1]
    shown, bad = set(), {}
    for obs, viols in full:
        v = dict(reversed(viols))
        bad.update({k: d for k, d in v.items() if k not in bad})
        shown |= {f"{o[0]}|{o[1]}" for o in obs} - set(v)
    return [(k, d) for k, d in bad.items() if k not in shown]


GAVE_UP = ("analysis must succeed", "the program must compile")


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    import ctx as C
    import extract
    import engine
    engine.ENTRIES = int(os.environ.get("SA_ENTRIES", "1"))
    c = C.Ctx(prop, tier)
    mod = importlib.import_module("props." + prop.lower())
    try:
        mod.check(c)
    except extract.BuildError as e:
        c.ob("the program must compile", "/repo", False, str(e))
    except Exception as e:  # noqa: BLE001 - fail closed
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        c.ob("analysis must succeed", prop, False, f"{type(e).__name__}: {str(e)[:400]} [{os.path.basename(tb.filename)}:{tb.lineno}]")
        if "-v" in sys.argv:
            traceback.print_exc()
    if "SA_OUT" in os.environ:
        with open(os.environ["SA_OUT"], "w") as f:
            json.dump([c.obs, c.viols], f, default=str)
        return
    if c.viols and not any(k.startswith(GAVE_UP[1]) for k, d in c.viols) and time.time() < engine.DEADLINE:
        c.viols = finer(prop, (c.obs, c.viols))
    ks = known(prop)
    new, seen = [], set()
    for key, detail in c.viols:
        if key in ks:
            if key not in seen:
                print(f"KNOWN-FINDING: property={prop} {key}")
        elif key not in seen:
            new.append((key, detail))
        seen.add(key)
    wall = time.time() - c.t0
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": mod.__doc__.strip(),
            "obligations": len(c.obs), "discharged": len(c.obs) - len(c.viols),
            "rules": c.counts(),
            "entry_points_analysed": sorted(set(c.entries)),
            "functions_analysed": len(c.functions), "abstract_paths": c.paths, "call_sites": c.sites,
            "samples": [f"{r}: {t}" for r, t, ok in c.obs[:12]],
            "notes": c.notes,
        },
        "assumptions": c.assume + [
            "rustc's type checking and MIR construction; the models of the external crates listed in DESIGN.md",
        ],
        "wall_s": round(wall, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if new:
        os.makedirs(os.path.join(VERIF, ".work", "replay"), exist_ok=True)
        rp = os.path.join(VERIF, ".work", "replay", prop + ".txt")
        with open(rp, "w") as f:
            for k, d in new:
                f.write(f"{k}\n    {d}\n")
        for k, d in new[:20]:
            print(f"  {k}: {d}"[:600])
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    print(f"OK {prop}: {len(c.obs)} obligations, {len(c.functions)} functions, {c.paths} paths, {wall:.1f}s")


main()
