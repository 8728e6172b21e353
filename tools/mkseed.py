"""mkseed(id, property, needs, breaks, edits, crate, demo_rs): write seeded/<id> from text edits of /repo's HEAD."""
import json, os, subprocess, shutil
WT = "/tmp/seedwt"
DEMO = '''#!/bin/bash
# Runs demo.rs as an integration test of %(pkg)s; the file is removed afterwards.
D=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=nightly-2022-02-16 CARGO_HOME=/opt/svm-env/cargo-home CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=1 RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
cd /repo || exit 2
N=zz_demo_%(name)s
mkdir -p %(dir)s/tests
T=/repo/%(dir)s/tests/$N.rs
trap 'rm -f "$T"; rmdir /repo/%(dir)s/tests 2>/dev/null' EXIT
cp "$D/demo.rs" "$T" || exit 2
cargo test --all --no-default-features --offline --locked --test $N -- --test-threads 1
'''


def mkseed(id, prop, needs, breaks, edits, dir, demo_rs, demo_sh=None):
    if not os.path.exists(WT):
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call(["git", "clone", "-q", "/repo", WT])
    subprocess.check_call("git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq", shell=True, cwd=WT)
    for f, a, b in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    d = "/verif/seeded/" + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = subprocess.check_output(["git", "diff"], cwd=WT, text=True)
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(demo_sh or DEMO % {"pkg": dir, "dir": dir, "name": id.replace("-", "_")})
    os.chmod(d + "/demo.sh", 0o755)
    if demo_rs:
        open(d + "/demo.rs", "w").write(demo_rs)
