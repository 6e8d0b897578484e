"""Programs that the compiler must accept or refuse.

A witness is type-checked (never run) against the metadata of /repo's current tree."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import tempfile
import extract

# refusals of the type system, as opposed to typing errors in the witness
REFUSALS = {"E0382", "E0505", "E0507", "E0509", "E0451", "E0616", "E0603", "E0423", "E0599", "E0308", "E0277", "E0432",
            "E0433", "E0412", "E0425", "E0614", "E0061", "E0107", "E0063", "E0639", "E0624", "E0532", "E0716", "E0499", "E0502", "E0597",
            "E0594", "E0596", "E0026", "E0027", "E0560", "E0609", "E0608", "E0574", "E0282", "E0283", "E0515", "E0116", "E0658", "E0521", "E0106"}


def compile(feat, source):
    """(accepted, error codes, first message) of one program"""
    lib = extract.artifacts(feat)
    dirs = sorted({os.path.dirname(f) for f in lib.values()})
    td = tempfile.mkdtemp(prefix="witness")
    try:
        src = os.path.join(td, "w.rs")
        with open(src, "w") as f:
            f.write(source)
        cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "w", "--emit=metadata",
               "--error-format=json", "-Awarnings", "-o", os.path.join(td, "w.rmeta")]
        for d in dirs:
            cmd += ["-L", "dependency=" + d]
        for n, f in lib.items():
            if n in ("bip324", "bip324_traffic", "tokio", "secp256k1"):
                cmd += ["--extern", f"{n}={f}"]
        r = subprocess.run(cmd + [src], capture_output=True, text=True)
    finally:
        shutil.rmtree(td, ignore_errors=True)
    codes, first = [], ""
    for line in r.stderr.splitlines():
        if line.startswith("{"):
            m = json.loads(line)
            if m.get("level") == "error":
                k = (m.get("code") or {}).get("code")
                if k:
                    codes.append(k)
                if not first:
                    first = m["message"]
    return r.returncode == 0, codes, first or r.stderr[-200:]


def run(jobs):
    """jobs: {name: (feat, source)} -> {name: result}"""
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = {k: ex.submit(compile, f, s) for k, (f, s) in jobs.items()}
        return {k: f.result() for k, f in fs.items()}
