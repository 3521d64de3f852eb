"""Extract facts (monomorphic MIR, constants, types) from /repo's current source."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class ExtractError(Exception):
    pass


def _env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    if extra:
        e.update(extra)
    return e


def source_hash():
    h = hashlib.sha256()
    files = []
    for base in (REPO, os.path.join(VERIF, "driver"), os.path.join(VERIF, "harness"), os.path.join(VERIF, "wasmshim"), os.path.join(VERIF, "neonshim")):
        for root, dirs, fs in os.walk(base):
            dirs[:] = [d for d in dirs if d not in (".git", "target", "node_modules")]
            for f in fs:
                if f.endswith(".rs") or f == "Cargo.toml":
                    files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def build_driver():
    tdir = os.path.join(BUILD, "driver")
    exe = os.path.join(tdir, "debug", "mirfacts")
    p = subprocess.run(["cargo", "+nightly", "build", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "driver", "Cargo.toml")],
                       env=_env({"CARGO_TARGET_DIR": tdir}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=VERIF)
    if p.returncode or not os.path.exists(exe):
        raise ExtractError("fact driver does not build:\n" + p.stdout[-3000:])
    return exe


STD = os.environ.get("MIRFACTS_STD", "")


def extract(crate):
    """crate: 'harness', 'wasmshim' or 'neonshim'. Returns path of the JSON facts."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = source_hash()
        out = os.path.join(BUILD, "facts-%s-%s.json" % (crate, key))
        if os.path.exists(out):
            return out
        for old in glob.glob(os.path.join(BUILD, "facts-%s-*" % crate)):
            os.remove(old)
        exe = build_driver()
        sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], env=_env(), text=True).strip()
        tdir = os.path.join(BUILD, "target-" + crate)
        for fp in glob.glob(os.path.join(tdir, "debug", ".fingerprint", "*")) + glob.glob(os.path.join(tdir, "debug", "build", "*")):
            b = os.path.basename(fp)
            if b.startswith(("ratel", "harness", "wasmshim", "neonshim")):
                shutil.rmtree(fp)
        tmp = out + ".tmp"
        if os.path.exists(tmp):
            os.remove(tmp)
        env = _env({
            "CARGO_TARGET_DIR": tdir, "RUSTC_WRAPPER": exe, "LD_LIBRARY_PATH": sysroot + "/lib",
            "MIRFACTS_CRATE": crate, "MIRFACTS_OUT": tmp, "MIRFACTS_STD": STD_BODIES,
            "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings",
            "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false",
        })
        cmd = ["cargo", "+nightly", "check", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, crate, "Cargo.toml")]
        for extra in ([["--features", "extra"], []] if crate == "harness" else [[]]):
            p = subprocess.run(cmd + extra, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=VERIF)
            if not p.returncode and os.path.exists(tmp):
                break
        if p.returncode or not os.path.exists(tmp):
            raise ExtractError("%s: fact extraction failed (exit %d):\n%s" % (crate, p.returncode, p.stdout[-4000:]))
        os.rename(tmp, out)
        return out


STD_BODIES = "option::,result::,iter::,mem::,slice::,cmp::,ops::,convert::,clone::,cell::,array::,ptr::,str::,default::,intrinsics::,borrow::,any::,bool::,char::,hash::,vec::,boxed::,string::,marker::,num::"

if __name__ == "__main__":
    rc = 0
    for c in sys.argv[1:] or ["harness", "wasmshim", "neonshim"]:
        try:
            print(extract(c))
        except ExtractError as e:       # the checks that need it say so
            print(e)
            rc |= c == "harness"
    sys.exit(rc)
