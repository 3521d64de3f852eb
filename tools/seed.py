#!/usr/bin/env python3
"""tools/seed.py new ID PROP 'needs' 'breaks' < demo.rs   take /repo's uncommitted diff as a planted bug (demo.rs: main(), panics if broken)
tools/seed.py check [ID...]                          apply each to /repo, run tests, demo and its property's check, undo
tools/seed.py props ID PROP...                       apply ID, run the given checks, undo"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree; fails where the property is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
ratel = { path = "$repo/ratel" }
ratel-codegen = { path = "$repo/ratel-codegen" }
ratel-visitor = { path = "$repo/ratel-visitor" }
ratel-transformer = { path = "$repo/ratel-transformer" }
toolshed = { version = "0.4", features = ["impl_serialize"] }
serde_json = "1.0"
END
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target" RUSTFLAGS=-Awarnings
# as in the repository's own test environment: the arena hands out misaligned pointers
export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
cargo build --offline --quiet || exit 3
timeout -s KILL 20 "$tmp/target/debug/demo"
'''

# the entry points are in a cdylib, which nothing can depend on
WASM = DEMO.replace('''serde_json = "1.0"
END
''', '''serde_json = "1.0"
ratel-wasm-lib = { path = "shim" }
END
mkdir -p "$tmp/shim"
cat > "$tmp/shim/Cargo.toml" <<END
[package]
name = "ratel-wasm-lib"
version = "0.0.0"
edition = "2015"
[lib]
path = "$repo/ratel-wasm/src/lib.rs"
[dependencies]
serde_json = "1.0"
ratel = { path = "$repo/ratel" }
ratel-codegen = { path = "$repo/ratel-codegen" }
wasm-bindgen = "0.2.36"
END
''')

# nor can the Node module be loaded without Node
NODE = DEMO.replace('''serde_json = "1.0"
END
''', '''serde_json = "1.0"
neon = { path = "neon" }
native = { path = "native" }
END
mkdir -p "$tmp/native" "$tmp/neon/src"
cp "$here/neon.rs" "$tmp/neon/src/lib.rs"
cat > "$tmp/neon/Cargo.toml" <<END
[package]
name = "neon"
version = "0.3.3"
edition = "2018"
END
cat > "$tmp/native/Cargo.toml" <<END
[package]
name = "native"
version = "0.0.0"
edition = "2015"
[lib]
path = "$repo/ffi/native/src/lib.rs"
[dependencies]
neon = { path = "../neon" }
serde = "1.0"
serde_json = "1.0"
ratel = { path = "$repo/ratel" }
ratel-codegen = { path = "$repo/ratel-codegen" }
END
''')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    return not sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip()


def apply(i):
    assert clean(), '/repo is not clean'
    r = sh('git -C /repo apply %s/seeded/%s/patch.diff' % (ROOT, i))
    assert r.returncode == 0, r.stdout


def undo():
    sh('git -C /repo checkout -- .')


def tests():
    sh('bash /opt/vp/test.sh /tmp/seed-out.json')
    j = json.load(open('/tmp/seed-out.json'))
    b = json.load(open('/opt/vp/BASELINE.json'))
    base = b['stable']
    miss = set(base) - set(j['passed'])
    return miss


def demo(i):
    r = sh('bash %s/seeded/%s/demo.sh' % (ROOT, i), cwd='/repo')
    return r.returncode, r.stdout


def check(p):
    r = sh('python3 check.py %s quick' % p, cwd=ROOT)
    return r.returncode, r.stdout


def main():
    c = sys.argv[1]
    if c == 'new':
        i, prop, needs, breaks = sys.argv[2:6]
        d = os.path.join(ROOT, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE, text=True).stdout)
        undo()
        open(d + '/demo.rs', 'w').write(sys.stdin.read())
        open(d + '/demo.sh', 'w').write(WASM if prop == 'W01' else NODE if prop == 'N01' else DEMO)
        if prop == 'N01':
            open(d + '/neon.rs', 'w').write(open(ROOT + '/tools/neon/neon.rs').read())
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        c, ids = 'check', [i]
    else:
        ids = sys.argv[2:]
    if c == 'check':
        for i in ids or sorted(os.listdir(ROOT + '/seeded')):
            prop = json.load(open('%s/seeded/%s/meta.json' % (ROOT, i)))['property']
            r0, o0 = demo(i)
            apply(i)
            try:
                miss = tests()
                r1, o1 = demo(i)
                rc, out = check(prop)
            finally:
                undo()
            ok = r0 == 0 and not miss and r1 not in (0, 3)
            print('%s %s: %s; tests missing %s; demo clean=%d bug=%d; check rc=%d %s' % (i, prop, 'VALID' if ok else 'INVALID', sorted(miss)[:5], r0, r1, rc, 'CAUGHT' if rc == 1 else 'missed'))
            if r0:
                print(o0[-600:])
            if r1 == 0 or r1 == 3:
                print(o1[-600:])
            print('\n'.join(l[:220] for l in out.splitlines()[:9]))
            sys.stdout.flush()
    elif c == 'props':
        apply(ids[0])
        try:
            for p in ids[1:]:
                rc, out = check(p)
                print('%s %s rc=%d\n%s' % (ids[0], p, rc, '\n'.join(l[:220] for l in out.splitlines()[:12])))
        finally:
            undo()


main()
