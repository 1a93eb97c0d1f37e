#!/usr/bin/env python3
"""Authoring aid: writes /verif/seeded/<id>/ from the bug descriptions in tools/bugs/*.py.

Each bug: (id, property, [(file, old, new), ...], needs, what_it_breaks, demo main body).
Patches are made against /repo's HEAD in a scratch copy. No check reads any of this."""
import json, os, subprocess, sys, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(HERE, '..', 'seeded')
SH = '''#!/bin/bash
# Run in the repository: builds demo.rs against it in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -r -- "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/" || exit 3
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
ebur128 = { path = "$repo", features = ["capi", "internal-tests"] }
[workspace]
END
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo run --offline -q
'''


def main():
    want = set(sys.argv[1:])
    bugs = []
    for f in sorted(os.listdir(os.path.join(HERE, 'bugs'))):
        if f.endswith('.py'):
            g = {}
            exec(open(os.path.join(HERE, 'bugs', f)).read(), g)
            bugs += g['BUGS']
    for b in bugs:
        bid, prop, edits, needs, breaks, demo = b[:6]
        if want and bid not in want:
            continue
        t = tempfile.mkdtemp(prefix='seed', dir='/tmp')
        try:
            subprocess.run(['git', 'clone', '-q', '--shared', '/repo', t + '/r'], check=True)
            for f, old, new in edits:
                p = os.path.join(t, 'r', f)
                s = open(p).read()
                n = s.count(old)
                if n != 1:
                    raise SystemExit('%s: %d matches in %s of %r' % (bid, n, f, old))
                open(p, 'w').write(s.replace(old, new))
            d = subprocess.run(['git', 'diff'], cwd=t + '/r', stdout=subprocess.PIPE, text=True, check=True).stdout
            o = os.path.join(SEED, bid)
            os.makedirs(o, exist_ok=True)
            open(o + '/patch.diff', 'w').write(d)
            open(o + '/demo.rs', 'w').write(demo.strip('\n') + '\n')
            open(o + '/demo.sh', 'w').write(SH)
            os.chmod(o + '/demo.sh', 0o755)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
        finally:
            shutil.rmtree(t)


main()
