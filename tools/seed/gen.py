#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the entries in bugs.py (patch made against /repo's HEAD)."""
import os, sys, subprocess, json, shutil, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs import BUGS, MANIFESTS
OUT = os.path.join(here, '..', '..', 'seeded')
SH = '''#!/bin/bash
# Builds the program beside this file against /repo and runs it in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d /tmp/vdemo.XXXXXX)
trap 'rm -rf -- "$d"' EXIT
cp -r "$here/demo/." "$d/"
[ -e "$d/Cargo.lock" ] || cp /repo/Cargo.lock "$d/Cargo.lock"
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" cargo build -q --offline --bin %(bin)s || exit 3
timeout 120 "$d/target/debug/%(bin)s"
'''
only = sys.argv[1:]
for b in BUGS:
    if only and b['id'] not in only: continue
    dst = os.path.abspath(os.path.join(OUT, b['id']))
    if os.path.isdir(dst): shutil.rmtree(dst)
    os.makedirs(dst + '/demo/src')
    diff = ''
    edits = {}
    for path, old, new in b['edits']:
        src = edits.get(path) or open('/repo/' + path).read()
        assert src.count(old) == 1, (b['id'], path, src.count(old), old[:60])
        edits[path] = src.replace(old, new)
    for path, new in edits.items():
        with tempfile.TemporaryDirectory() as t:
            os.makedirs(os.path.dirname(t + '/a/' + path)); os.makedirs(os.path.dirname(t + '/b/' + path))
            shutil.copy('/repo/' + path, t + '/a/' + path)
            open(t + '/b/' + path, 'w').write(new)
            diff += subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + path, 'b/' + path], cwd=t, capture_output=True, text=True).stdout
    open(dst + '/patch.diff', 'w').write(diff)
    binname = 'vdemo-' + b['id'].lower()
    if b.get('sh'):
        open(dst + '/demo.sh', 'w').write(b['sh'] % dict(bin=binname))
    else:
        open(dst + '/demo.sh', 'w').write(SH % dict(bin=binname))
    os.chmod(dst + '/demo.sh', 0o755)
    if b.get('main'):
        open(dst + '/demo/Cargo.toml', 'w').write(MANIFESTS[b.get('kind', 'program')] % dict(bin=binname))
        open(dst + '/demo/src/main.rs', 'w').write(b['main'])
    for name, text in b.get('files', {}).items():
        p = dst + '/' + name
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(text)
    if b.get('kind', 'program') == 'program' and b.get('main'):
        shutil.copy(here + '/world.rs', dst + '/demo/src/world.rs')
    if not os.listdir(dst + '/demo/src'): shutil.rmtree(dst + '/demo')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
    print('wrote', b['id'])
