#!/usr/bin/env python3
"""repack.py [ids…]: packs the current stand-ins and checks into the demonstrations of /verif/seeded that seedrun.py wrote, after trying
each on a copy (in /tmp/repackwd): its case passes on the repository as it is and fails with the patch."""
import os, re, shutil, subprocess, sys, tempfile
R = '/verif'; M = '/tmp/repackwd'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
os.makedirs(f'{M}/build', exist_ok=True)
if not os.path.exists(f'{M}/repo/.git'): sh(f'git clone -q /repo {M}/repo')
sh(f'cd {M}/repo && git checkout -q -- . && git pull -q')
os.makedirs(f'{M}/ws', exist_ok=True)
sh(f'rm -rf {M}/src; mkdir {M}/src; tar -C {R} --exclude=ws/target -cf - ws | tar -C {M}/src -xf -')  # (as it is now, whatever is edited meanwhile)
for dp, dn, fn in os.walk(f'{R}/ws'):
    if 'target' in dn: dn.remove('target')
    q = dp.replace(f'{R}/ws', f'{M}/ws', 1); os.makedirs(q, exist_ok=True)
    for f in fn:
        a, b = f'{dp}/{f}', f'{q}/{f}'
        d = open(a, 'rb').read()
        if f == 'Cargo.toml' or f.endswith(('.rs', '.py')): d = d.replace(b'"/repo/', f'"{M}/repo/'.encode())
        if not os.path.exists(b) or open(b, 'rb').read() != d: open(b, 'wb').write(d)
shutil.copy(f'{R}/checks.txt', M); shutil.copy(f'{R}/known-findings.jsonl', M)
env = dict(os.environ, VERIF_ROOT=M, VERIF_SEED='1', VERIF_TIER='quick')
def replay(b, c, f):
    r = subprocess.run([b, c, '--replay', f], capture_output=True, text=True, env=env, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-200:].replace('\n', ' ')
clean = set()
for i in sys.argv[1:] or sorted(os.listdir(f'{R}/seeded')):
    D = f'{R}/seeded/{i}'
    if not os.path.exists(f'{D}/case.json'): print(i, 'other'); continue
    m = re.search(r'debug/(\S+)" (C\d+) --replay', open(f'{D}/demo.sh').read()); pkg, c = m.groups()
    if pkg not in clean:
        r = sh(f'cd {M}/repo && git checkout -q -- . && cd ../ws && cargo build --offline -p {pkg}')
        if r.returncode: print(i, 'NOBUILD', r.stderr[-300:]); continue
        os.makedirs(f'{M}/clean', exist_ok=True); shutil.copy(f'{M}/ws/target/debug/{pkg}', f'{M}/clean/{pkg}'); clean.add(pkg)
    a, o = replay(f'{M}/clean/{pkg}', c, f'{D}/case.json')
    if a: print(i, 'CLEAN', a, o, flush=True); continue
    r = sh(f'cd {M}/repo && git apply {D}/patch.diff')
    if r.returncode: print(i, 'APPLY', r.stderr[-200:], flush=True); continue
    r = sh(f'cd {M}/ws && cargo build --offline -p {pkg}')
    if r.returncode: print(i, 'PATCHED NOBUILD', r.stderr[-300:], flush=True)
    else:
        b, o = replay(f'{M}/ws/target/debug/{pkg}', c, f'{D}/case.json')
        if b != 1: print(i, 'PATCHED', b, o, flush=True)
        else:
            need, todo = set(), [f'checks/{pkg}']
            while todo:
                d = os.path.normpath(todo.pop())
                if d in need: continue
                need.add(d)
                for p in re.findall(r'path = "(\.\.?/[^"]+)"', open(f'{M}/src/ws/{d}/Cargo.toml').read()):
                    q = os.path.normpath(os.path.join(d, p))
                    if os.path.exists(f'{M}/src/ws/{q}/Cargo.toml'): todo.append(q)
            tmp = tempfile.mkdtemp()
            for d in sorted(need): shutil.copytree(f'{M}/src/ws/{d}', f'{tmp}/ws/{d}')
            ws = open(f'{M}/src/ws/Cargo.toml').read()
            open(f'{tmp}/ws/Cargo.toml', 'w').write('[workspace]\nresolver = "2"\nmembers = [' + ', '.join(f'"{d}"' for d in sorted(need)) + ']\n' + ws[ws.index('[profile.dev]'):])
            shutil.copy(f'{M}/src/ws/Cargo.lock', f'{tmp}/ws/Cargo.lock')
            sh(f"tar --sort=name --mtime=2026-01-01 --owner=0 --group=0 --use-compress-program='gzip -n' -cf {D}/ws.tgz -C {tmp} ws"); shutil.rmtree(tmp)
    sh(f'cd {M}/repo && git checkout -q -- .')
print('done')
