"""Rebuild the analysed program's MIR from /repo's current working tree.

Everything is written below a scratch directory outside /repo; the driver binary and the compiled
third-party dependencies are cached in /verif/.cache (recreated when absent)."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
REPO = os.environ.get("SA_REPO", "/repo")
NIGHTLY = "nightly-2023-12-06"   # cargo front end understood by the lock file; rustc is the nightly with rustc-dev


class BuildError(Exception):
    def __init__(self, crate, text):
        super().__init__(text)
        self.crate = crate
        self.text = text


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    r = sh(["rustc", "+nightly", "--print", "sysroot"])
    if r.returncode:
        raise BuildError("toolchain", r.stdout)
    return r.stdout.strip()


def digest(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def driver(root):
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(CACHE, "driver-" + digest(src))
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        r = sh(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", tmp,
                "-C", "link-arg=-Wl,-rpath," + root + "/lib"])
        if r.returncode:
            raise BuildError("driver", r.stdout)
        os.replace(tmp, out)
    return out


def prelude(root, drv):
    src = os.path.join(VERIF, "sa", "prelude.rs")
    out = os.path.join(CACHE, "prelude-" + digest(src, drv))
    if not os.path.exists(os.path.join(out, "sa_prelude.json")):
        os.makedirs(out, exist_ok=True)
        with tempfile.TemporaryDirectory() as d:
            r = sh([drv, root + "/bin/rustc", "--crate-name", "sa_prelude", "--crate-type", "lib", "--edition", "2021",
                    "--out-dir", d, src], env=dict(os.environ, SA_OUT=out))
        if r.returncode:
            raise BuildError("prelude", r.stdout)
    return os.path.join(out, "sa_prelude.json")


def tool_cargo():
    """cargo of the toolchain the repository is pinned to when present"""
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTUP_TOOLCHAIN"] = NIGHTLY
    r = sh(["cargo", "--version"], env=env)
    if r.returncode:
        env["RUSTUP_TOOLCHAIN"] = "nightly"
    return env


def dump(outdir):
    """write <crate>.json for the analysed crates into outdir"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        root = sysroot()
        drv = driver(root)
        pj = prelude(root, drv)
        shutil.copy(pj, os.path.join(outdir, "sa_prelude.json"))
        sd = os.path.join(CACHE, "shadow")
        os.makedirs(sd, exist_ok=True)
        man = open(os.path.join(VERIF, "shadow", "Cargo.toml")).read().replace("/repo/", REPO + "/")
        mp = os.path.join(sd, "Cargo.toml")
        if not os.path.exists(mp) or open(mp).read() != man:
            open(mp, "w").write(man)
        shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(sd, "Cargo.lock"))
        tgt = os.path.join(sd, "target-" + os.path.basename(drv).split("-")[-1])
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("fluence-keypair") or n.startswith("trust-graph"):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        env = tool_cargo()
        for v in ("CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
            env.pop(v, None)
        env.update(SA_OUT=outdir, RUSTC=root + "/bin/rustc", RUSTC_WRAPPER=drv, CARGO_TARGET_DIR=tgt,
                   RUSTFLAGS='--cfg curve25519_dalek_backend="serial" --cap-lints=allow', CARGO_INCREMENTAL="0")
        r = sh(["cargo", "check", "--offline"], cwd=sd, env=env)
    bad = None
    for c in ("fluence_keypair", "trust_graph", "service"):
        if not os.path.exists(os.path.join(outdir, c + ".json")):
            bad = c
            break
    if bad or r.returncode:
        raise BuildError(bad or "service", r.stdout[-6000:])
    return r.stdout


if __name__ == "__main__":
    d = sys.argv[1] if len(sys.argv) > 1 else tempfile.mkdtemp()
    os.makedirs(d, exist_ok=True)
    try:
        dump(d)
    except BuildError as e:
        print(e.crate, e.text)
        sys.exit(2)
    print(d, sorted(os.listdir(d)))
