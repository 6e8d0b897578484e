"""Compile /repo's current working tree with the fact driver and load the facts.

Nothing of /repo is executed: the driver is a rustc that type-checks the crates
and writes their resolved MIR down."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import facts

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, ".work")
FEATURES = ("core", "std", "tokio", "traffic", "traffic-tokio")


class BuildError(Exception):
    pass


def _hash():
    h = hashlib.sha256()
    files = []
    for d in ("protocol", "traffic"):
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            files += [os.path.join(r, f) for f in fs if f.endswith((".rs", ".toml", ".md"))]
    files += glob.glob(os.path.join(VERIF, "driver/src/*.rs")) + [os.path.join(REPO, "Cargo.toml")]
    files += glob.glob(os.path.join(VERIF, "harness/Cargo.*"))
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()[:16]


def messages(text):
    for line in text.splitlines():
        if line.startswith("{"):
            yield json.loads(line)


def rendered(text):
    return "".join(m["message"].get("rendered") or "" for m in messages(text)
                   if m.get("reason") == "compiler-message" and m["message"].get("level") == "error")


def artifacts(feat):
    """compiled metadata of the crates of one feature set: name -> .rmeta"""
    with open(os.path.join(extract(feat), "ok")) as f:
        return json.load(f)


def build_driver():
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(WORK, "driver")],
                       cwd=os.path.join(VERIF, "driver"), capture_output=True, text=True)
    if r.returncode:
        raise BuildError("driver: " + r.stderr[-2000:])


def extract(feat):
    """directory with the facts of /repo's working tree for one feature set."""
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, "facts", f"{feat}-{_hash()}")
    with open(os.path.join(WORK, f"lock-{feat}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        drv = os.path.join(WORK, "driver/release/factdrv")
        if not os.path.exists(drv):
            build_driver()
        for old in glob.glob(os.path.join(WORK, "facts", f"{feat}-" + "[0-9a-f]" * 16)):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        tgt = os.path.join(WORK, f"target-{feat}")
        for f in glob.glob(os.path.join(tgt, "debug/.fingerprint/bip324*")) + glob.glob(os.path.join(tgt, "debug/build/bip324*")):
            shutil.rmtree(f, ignore_errors=True)
        env = dict(os.environ)
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
        env.update(FACTDRV_OUT=out, FACTDRV_CRATES="bip324,bip324_traffic", LD_LIBRARY_PATH=sysroot + "/lib",
                   RUSTC_WRAPPER=drv, CARGO_TERM_COLOR="never")
        env.pop("RUSTFLAGS", None)
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--no-default-features", "--features", feat,
                            "--message-format=json", "--target-dir", tgt], cwd=os.path.join(VERIF, "harness"), env=env, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"{feat}: " + r.stderr[-3000:] + rendered(r.stdout)[-3000:])
        want = ["bip324"] + (["bip324_traffic"] if feat.startswith("traffic") else [])
        for w in want:
            if not os.path.exists(os.path.join(out, w + ".json")):
                raise BuildError(f"{feat}: no facts for {w}")
        lib = {}
        for m in messages(r.stdout):
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith((".rmeta", ".so")):
                        lib[m["target"]["name"].replace("-", "_")] = f
        with open(os.path.join(out, "ok"), "w") as f:
            json.dump(lib, f)
    return out


_loaded = {}


def crate(feat, name="bip324"):
    k = (feat, name)
    if k not in _loaded:
        _loaded[k] = facts.Crate(os.path.join(extract(feat), name + ".json"))
    return _loaded[k]


if __name__ == "__main__":
    build_driver()
    for f in FEATURES:
        print(extract(f))
