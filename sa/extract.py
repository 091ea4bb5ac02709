"""Compile /repo's current tree with the MIR exporter and load the exported crates."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MIRX = os.path.join(BUILD, "mirx")


class ExtractError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise ExtractError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"]).strip()


def build_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    stamp = os.path.join(BUILD, "mirx.src")
    text = open(src).read()
    if os.path.exists(MIRX) and os.path.exists(stamp) and open(stamp).read() == text:
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = MIRX + ".%d" % os.getpid()
    run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp])
    os.replace(tmp, MIRX)
    with open(stamp, "w") as f:
        f.write(text)


def tree_files(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                out.append(p)
    return out


def digest(files, root):
    h = hashlib.sha256()
    h.update(open(os.path.join(VERIF, "driver", "main.rs"), "rb").read())
    for p in files:
        h.update(os.path.relpath(p, root).encode() + b"\0")
        h.update(hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()


def extract():
    """-> directory holding librezip.json and rezippers.json for /repo's current tree.
    The result is stored under the digest of every input file (sources, manifests, exporter)."""
    build_driver()
    files = tree_files(REPO)
    dg = digest(files, REPO)
    out = os.path.join(BUILD, "mir", dg[:32])
    if os.path.exists(os.path.join(out, "done")):
        return out, dg
    work = tempfile.mkdtemp(prefix="mirx-", dir=BUILD)
    try:
        src = os.path.join(work, "src")
        for p in files:
            q = os.path.join(src, os.path.relpath(p, REPO))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copyfile(p, q)
        res = os.path.join(work, "out")
        os.makedirs(res)
        env = dict(os.environ)
        env.update({
            "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"),
            "MIRX_OUT": res,
            "MIRX_CRATES": "librezip,rezippers",
            "CARGO_NET_OFFLINE": "true",
            "RUSTC_WORKSPACE_WRAPPER": MIRX,
            "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0",
            "CARGO_TARGET_DIR": os.path.join(work, "target"),
        })
        run(["cargo", "+nightly", "check", "--offline", "-p", "librezip", "-p", "rezippers"], cwd=src, env=env)
        for c in ("librezip", "rezippers"):
            if not os.path.exists(os.path.join(res, c + ".json")):
                raise ExtractError("no MIR exported for " + c)
        os.makedirs(os.path.join(BUILD, "mir"), exist_ok=True)
        with open(os.path.join(res, "done"), "w"):
            pass
        try:
            os.rename(res, out)
        except OSError:
            pass        # another check finished first
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out, dg


if __name__ == "__main__":
    build_driver()
    print(extract()[0])
