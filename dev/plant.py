#!/usr/bin/env python3
"""Writes the planted bugs into /verif/seeded from a list of textual edits (development only; no check uses it).

plant.py FILE.py [ID...]: FILE.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)],
demo='rs'|'c', code=..., features=..., profile=..., lib=...)].
"""
import json, os, subprocess, sys, tempfile, shutil

SEEDED = '/verif/seeded'
RS = r'''#!/bin/bash
# Run with cwd = the repository.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$HERE/demo.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
shogi_core = { path = "$PWD/shogi_core", default-features = false, features = [@FEATURES@] }
[workspace]
END
export CARGO_TARGET_DIR="$D/target" RUSTUP_TOOLCHAIN=@TOOLCHAIN@ CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
cd "$D"
timeout 250 cargo run -q --offline @PROFILE@
'''
C = r'''#!/bin/bash
# Run with cwd = the repository.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
# The sources are copied so that nothing is written into the repository.
cp -r "$REPO/Cargo.toml" "$REPO/Cargo.lock" "$REPO/shogi_core" "$REPO/shogi_core_c" "$D/"
cd "$D"
cargo @TOOLCHAIN@ build -q --offline --release -p shogi_core_c @FLAGS@ || exit 3
gcc @CFLAGS@ -I"$REPO/include" "$HERE/demo.c" -o "$D/demo" -L"$D/target/release" -lshogi_core_c -Wl,-rpath,"$D/target/release" -lpthread -ldl || exit 4
timeout 250 @WRAP@"$D/demo"
'''

def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:]
    for b in spec['BUGS']:
        if only and b['id'] not in only:
            continue
        t = tempfile.mkdtemp(prefix='plant.')
        try:
            subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
            subprocess.run(f'git -C /repo archive HEAD | tar -x -C {t}', shell=True, check=True)
            subprocess.run(f'cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm base',
                           shell=True, check=True)
            for f, old, new in b['edits']:
                s = open(f'{t}/{f}').read()
                if s.count(old) < 1:
                    raise SystemExit(f"{b['id']}: {f}: text not found: {old!r}")
                nth = b.get('nth', {}).get(old, 0)
                if nth == 0 and s.count(old) > 1:
                    raise SystemExit(f"{b['id']}: {f}: {s.count(old)} occurrences of {old!r}")
                if nth:
                    parts = s.split(old)
                    s = old.join(parts[:nth]) + new + old.join(parts[nth:])
                else:
                    s = s.replace(old, new)
                open(f'{t}/{f}', 'w').write(s)
            diff = subprocess.run(['git', '-C', t, 'diff'], stdout=subprocess.PIPE, text=True, check=True).stdout
        finally:
            shutil.rmtree(t)
        d = f"{SEEDED}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(f'{d}/meta.json', 'w'), indent=1)
        open(f'{d}/meta.json', 'a').write('\n')
        if b.get('demo', 'rs') in ('rs', 'miri'):
            feats = b.get('features', ['std', 'alloc', 'ord', 'hash'])
            sh = RS.replace('@FEATURES@', ', '.join(f'"{x}"' for x in feats))
            sh = sh.replace('@PROFILE@', '--release' if b.get('profile') == 'release' else '')
            sh = sh.replace('@TOOLCHAIN@', b.get('toolchain', 'stable'))
            if b.get('demo') == 'miri':
                sh = sh.replace('RUSTUP_TOOLCHAIN=stable', 'RUSTUP_TOOLCHAIN=nightly').replace('cargo run -q', 'cargo miri run -q')
                if 'target' in b:
                    sh = sh.replace('cargo miri run -q', 'cargo miri run -q --target ' + b['target'])
            open(f'{d}/demo.rs', 'w').write(b['code'].strip() + '\n')
        else:
            nostd = b.get('lib') == 'nostd'
            sh = C.replace('@TOOLCHAIN@', '+nightly-2023-03-15' if nostd else '+stable')
            sh = sh.replace('@FLAGS@', '--no-default-features --features alloc' if nostd else '')
            sh = sh.replace('@WRAP@', b['wrap'] + ' ' if 'wrap' in b else '')
            sh = sh.replace('@CFLAGS@', b.get('cflags', '-O1 -g'))
            open(f'{d}/demo.c', 'w').write(b['code'].strip() + '\n')
        open(f'{d}/demo.sh', 'w').write(sh)
        os.chmod(f'{d}/demo.sh', 0o755)
        print('wrote', d)

main()
