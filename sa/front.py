"""Front end: builds the MIR dumper and runs it over /repo's current working tree.

Nothing of the program under analysis is executed: `cargo check` type-checks the
workspace (build scripts and proc-macros of its dependencies run, as in any
build) and the dumper writes the resolved MIR.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SVM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"
TCDIR = os.path.join(os.environ.get("RUSTUP_HOME", "/root/.rustup"), "toolchains", TOOLCHAIN)


class FrontError(Exception):
    pass


def _env(target):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    e.update(
        RUSTUP_TOOLCHAIN=TOOLCHAIN,
        CARGO_HOME="/opt/svm-env/cargo-home",
        CARGO_NET_OFFLINE="true",
        CARGO_TARGET_DIR=target,
        CARGO_INCREMENTAL="0",
        CARGO_TERM_COLOR="never",
    )
    e["RUSTUP_HOME"] = os.environ.get("RUSTUP_HOME", "/root/.rustup")
    e["SVM_ANALYSIS_RUSTC"] = os.path.join(TCDIR, "bin", "rustc")
    lib = os.path.join(TCDIR, "lib")
    e["LD_LIBRARY_PATH"] = lib + (":" + os.environ["LD_LIBRARY_PATH"] if os.environ.get("LD_LIBRARY_PATH") else "")
    return e


def _hash_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode())
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            h.update(b"?")
    return h.hexdigest()


def _sources(root):
    out = []
    for dp, dn, fn in os.walk(root):
        dn[:] = [d for d in dn if d not in ("target", ".git", "node_modules")]
        for f in fn:
            if f.endswith((".rs", ".toml", ".lock", ".wasm", ".json", ".h", ".sql")):
                out.append(os.path.join(dp, f))
    return out


def build_driver(log):
    src = os.path.join(VERIF, "driver")
    tgt = os.path.join(BUILD, "driver")
    p = subprocess.run(
        ["cargo", "build", "--offline", "--manifest-path", os.path.join(src, "Cargo.toml")],
        env=_env(tgt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if p.returncode:
        log(p.stdout[-4000:])
        raise FrontError("the MIR dumper does not build")
    exe = os.path.join(tgt, "debug", "svm-mirdump")
    if not os.path.exists(exe):
        raise FrontError("no dumper binary")
    return exe


def _run(exe, manifest_dir, out, tgt, extra, log):
    # force the wrapper to run again on workspace members
    for sub in ("debug/build", "debug/.fingerprint"):
        d = os.path.join(tgt, sub)
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n.startswith("svm"):
                    shutil.rmtree(os.path.join(d, n), ignore_errors=True)
    e = _env(tgt)
    e["RUSTC"] = os.path.join(VERIF, "tools", "rustc-compat")
    e["RUSTC_WORKSPACE_WRAPPER"] = exe
    e["SVM_MIR_OUT"] = out
    p = subprocess.run(["cargo", "check", "--offline"] + extra, cwd=manifest_dir, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        lines = p.stdout.splitlines()
        errs = [i for i, l in enumerate(lines) if l.startswith("error")]
        for i in errs[:5]:
            log("\n".join(lines[i:i + 12]))
        raise FrontError("cargo check failed in " + manifest_dir)


WITNESS = os.path.join(VERIF, "witness")


def dump(log=lambda s: print(s, file=sys.stderr)):
    """Returns (directory with *.json, info)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        srcs = _sources(REPO)
        key = _hash_files(srcs + _sources(os.path.join(VERIF, "driver")) + _sources(WITNESS)
                          + [os.path.join(VERIF, "sa", "front.py"), os.path.join(VERIF, "tools", "rustc-compat")])
        out = os.path.join(BUILD, "mir")
        stamp = os.path.join(out, "STAMP")
        if os.path.exists(stamp) and open(stamp).read() == key:
            return out, {"cached": True, "key": key[:16], "sources": len(srcs), "wall_s": round(time.time() - t0, 2)}
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        exe = build_driver(log)
        tgt = os.path.join(BUILD, "tgt")
        _run(exe, REPO, out, tgt,
             ["--locked", "--workspace", "--lib", "--bins", "--no-default-features"], log)
        if os.path.isdir(WITNESS):
            for w in sorted(os.listdir(WITNESS)):
                d = os.path.join(WITNESS, w)
                if os.path.exists(os.path.join(d, "Cargo.toml")):
                    wout = os.path.join(out, "witness-" + w)
                    os.makedirs(wout)
                    _run(exe, d, wout, os.path.join(BUILD, "wtgt-" + w), [], log)
        with open(stamp, "w") as f:
            f.write(key)
        return out, {"cached": False, "key": key[:16], "sources": len(srcs), "wall_s": round(time.time() - t0, 2)}


if __name__ == "__main__":
    print(dump())
