#!/usr/bin/env python3
"""mkseed.py <id> <property> <template check package> : packs what demo.sh needs beside it.
The folder must already hold patch.diff, demo.rs (main program) and notes in meta.json."""
import os, sys, subprocess, shutil, tempfile, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, pkg = sys.argv[1], sys.argv[2]
D = f'{R}/seeded/{sid}'
toml = open(f'{R}/ws/checks/{pkg}/Cargo.toml').read()
deps = re.findall(r'path = "\.\./\.\./((?:shim|repo)/[^"]+)"', toml)
need, todo = set(), list(deps)
while todo:
    d = os.path.normpath(todo.pop())
    if d in need: continue
    need.add(d)
    t = open(f'{R}/ws/{d}/Cargo.toml').read()
    for p in re.findall(r'path = "(\.\.?/[^"]+)"', t):
        q = os.path.normpath(os.path.join(d, p))
        if os.path.exists(f'{R}/ws/{q}/Cargo.toml'): todo.append(q)
tmp = tempfile.mkdtemp()
for d in sorted(need):
    shutil.copytree(f'{R}/ws/{d}', f'{tmp}/ws/{d}')
os.makedirs(f'{tmp}/ws/demo/src')
t = re.sub(r'^(hx|vh) = .*\n', '', toml, flags=re.M)
t = t.replace('../../', '../').replace(f'name = "{pkg}"', 'name = "demo"')
open(f'{tmp}/ws/demo/Cargo.toml', 'w').write(t)
shutil.copy(f'{D}/demo.rs', f'{tmp}/ws/demo/src/main.rs')
ws = open(f'{R}/ws/Cargo.toml').read()
prof = ws[ws.index('[profile.dev]'):]
open(f'{tmp}/ws/Cargo.toml', 'w').write('[workspace]\nresolver = "2"\nmembers = [' + ', '.join(f'"{d}"' for d in sorted(need) + ['demo']) + ']\n' + prof)
shutil.copy(f'{R}/ws/Cargo.lock', f'{tmp}/ws/Cargo.lock')
subprocess.check_call(['tar', '--sort=name', '--mtime=2026-01-01', '--owner=0', '--group=0', '-czf', f'{D}/ws.tgz', '-C', tmp, 'ws'])
shutil.rmtree(tmp)
open(f'{D}/demo.sh', 'w').write('''#!/bin/bash
# Compiles the repository's sources with the stand-in crates packed in ws.tgz and runs demo.rs against them.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
tar -xzf "$here/ws.tgz" -C "$tmp" || exit 2
cd "$tmp/ws" || exit 2
export CARGO_TARGET_DIR="$tmp/target"
cargo build --offline -p demo >"$tmp/log" 2>&1 || { tail -40 "$tmp/log"; exit 2; }
"$CARGO_TARGET_DIR/debug/demo"
''')
os.chmod(f'{D}/demo.sh', 0o755)
