#!/usr/bin/env python3
"""seedrun.py SPEC.py [ids…] [-k]: tries planted bugs. SPEC.py defines SEEDS, a list of dicts {id, prop, file(s), edits: [(file, old, new)], needs, breaks}.
Works on a copy of the repository and of ws in /tmp/seedwd. For each: applies the edits, builds the property's check, runs it quickly; a
bug that is caught is written to /verif/seeded/<id> with a demonstration that replays the shrunken case (checked clean and patched)."""
import os, re, shutil, subprocess, sys, json, tempfile
R = '/verif'; M = '/tmp/seedwd'
spec = {}; exec(open(sys.argv[1]).read(), spec)
only = [a for a in sys.argv[2:] if not a.startswith('-')]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
os.makedirs(f'{M}/build', exist_ok=True)
if not os.path.exists(f'{M}/repo/.git'):
    sh(f'rm -rf {M}/repo; git clone -q /repo {M}/repo')
sh(f'cd {M}/repo && git checkout -q -- . && git pull -q')
sh(f"rsync -a --delete --exclude target {R}/ws/ {M}/ws.new/ 2>/dev/null || (rm -rf {M}/ws.new; mkdir {M}/ws.new; tar -C {R}/ws --exclude=./target -cf - . | tar -C {M}/ws.new -xf -)")
sh(f"grep -rlZ '/repo/' {M}/ws.new --include=Cargo.toml --include='*.rs' --include='*.py' | xargs -0 sed -i 's#\"/repo/#\"{M}/repo/#g'")
os.makedirs(f'{M}/ws', exist_ok=True)
# only what changed, so that builds stay incremental
for dp, dn, fn in os.walk(f'{M}/ws.new'):
    q = dp.replace(f'{M}/ws.new', f'{M}/ws', 1); os.makedirs(q, exist_ok=True)
    for f in fn:
        a, b = f'{dp}/{f}', f'{q}/{f}'
        d = open(a, 'rb').read()
        if not os.path.exists(b) or open(b, 'rb').read() != d: open(b, 'wb').write(d)
shutil.rmtree(f'{M}/ws.new')
shutil.copy(f'{R}/checks.txt', M); shutil.copy(f'{R}/known-findings.jsonl', M)
pk = dict(l.split() for l in open(f'{R}/checks.txt') if l.strip())
env = dict(os.environ, VERIF_ROOT=M, VERIF_SEED='1', VERIF_TIER='quick')
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    if not only and os.path.exists(f"{R}/seeded/{s['id']}/demo.sh"): continue
    sh(f'cd {M}/repo && git checkout -q -- .')
    bad = None
    for f, old, new in s['edits']:
        p = f'{M}/repo/{f}'; t = open(p).read()
        # comments between or after the lines named are passed over
        ms = list(re.finditer(r'[ \t]*(?://[^\n]*)?\n(?:[ \t]*//[^\n]*\n)*'.join(re.escape(l) for l in old.split('\n')), t))
        if len(ms) != 1: bad = f'{f}: {len(ms)} matches of {old[:60]!r}'; break
        open(p, 'w').write(t[:ms[0].start()] + new + t[ms[0].end():])
    if bad: print(s['id'], 'SPEC', bad, flush=True); continue
    ids = s['prop'] if isinstance(s['prop'], list) else [s['prop']]
    c = ids[0]; pkg = pk[c]
    r = sh(f'cd {M}/ws && cargo build --offline -p {pkg}')
    if r.returncode:
        print(s['id'], 'NOBUILD', '\n'.join(l for l in r.stderr.split('\n') if l.startswith('error'))[:300], flush=True); continue
    sh(f'rm -rf {M}/build/replay')
    try: r = subprocess.run([f'{M}/ws/target/debug/{pkg}', c], capture_output=True, text=True, timeout=800, env=env)
    except subprocess.TimeoutExpired: print(s['id'], 'TIMEOUT', flush=True); continue
    m = re.search(r'VIOLATION property=\S+ replay=(\S+)', r.stdout)
    if not m: print(s['id'], c, 'MISSED', r.stdout[-200:], flush=True); continue
    first = r.stdout.split('\n')[0][:160]
    D = f"{R}/seeded/{s['id']}"; os.makedirs(D, exist_ok=True)
    shutil.copy(m.group(1), f'{D}/case.json')
    open(f'{D}/patch.diff', 'w').write(sh(f'cd {M}/repo && git diff').stdout)
    json.dump({'property': c, 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{D}/meta.json', 'w'), indent=1)
    # the demonstration: the check's program packed, replaying the case
    need, todo = set(), [f'checks/{pkg}']
    while todo:
        d = os.path.normpath(todo.pop())
        if d in need: continue
        need.add(d)
        for p in re.findall(r'path = "(\.\.?/[^"]+)"', open(f'{R}/ws/{d}/Cargo.toml').read()):
            q = os.path.normpath(os.path.join(d, p))
            if os.path.exists(f'{R}/ws/{q}/Cargo.toml'): todo.append(q)
    tmp = tempfile.mkdtemp()
    for d in sorted(need): shutil.copytree(f'{R}/ws/{d}', f'{tmp}/ws/{d}')
    ws = open(f'{R}/ws/Cargo.toml').read()
    open(f'{tmp}/ws/Cargo.toml', 'w').write('[workspace]\nresolver = "2"\nmembers = [' + ', '.join(f'"{d}"' for d in sorted(need)) + ']\n' + ws[ws.index('[profile.dev]'):])
    shutil.copy(f'{R}/ws/Cargo.lock', f'{tmp}/ws/Cargo.lock')
    sh(f"tar --sort=name --mtime=2026-01-01 --owner=0 --group=0 -czf {D}/ws.tgz -C {tmp} ws"); shutil.rmtree(tmp)
    open(f'{D}/demo.sh', 'w').write(f'''#!/bin/bash
# Compiles the repository's sources with the stand-in crates packed in ws.tgz and runs the history in case.json against them, comparing
# every step with what it should do. Exit 0: as it should.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
tar -xzf "$here/ws.tgz" -C "$tmp" || exit 2
mkdir -p "$tmp/build" "$tmp/evidence"
cd "$tmp/ws" || exit 2
export CARGO_TARGET_DIR="$tmp/target" VERIF_ROOT="$tmp" VERIF_SEED=1 VERIF_TIER=quick
cargo build --offline -p {pkg} >"$tmp/log" 2>&1 || {{ tail -40 "$tmp/log"; exit 2; }}
"$CARGO_TARGET_DIR/debug/{pkg}" {c} --replay "$here/case.json"
''')
    os.chmod(f'{D}/demo.sh', 0o755)
    # replays in the working copy: patched, then clean
    a = subprocess.run([f'{M}/ws/target/debug/{pkg}', c, '--replay', f'{D}/case.json'], capture_output=True, text=True, env=env).returncode
    sh(f'cd {M}/repo && git checkout -q -- . && cd {M}/ws && cargo build --offline -p {pkg}')
    b = subprocess.run([f'{M}/ws/target/debug/{pkg}', c, '--replay', f'{D}/case.json'], capture_output=True, text=True, env=env).returncode
    print(s['id'], c, 'CAUGHT' if (a, b) == (1, 0) else f'REPLAY patched {a} clean {b}', first, flush=True)
sh(f'cd {M}/repo && git checkout -q -- .')
