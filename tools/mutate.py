#!/usr/bin/env python3
"""mutate.py FILE... [-k substring]: applies each small change listed in FILE to a copy of the repository under /tmp/mut,
rebuilds the named checks against the copy and says which reported it. Format of FILE:
## C04,C05 path/of/file.rs  name of the change
<<<<
old text (must occur once; a second number N after the path as path#N picks the N-th occurrence)
====
new text
>>>>
"""
import os, re, subprocess, sys, shutil
R = '/verif'; M = '/tmp/mut'
args = [a for a in sys.argv[1:]]
only = None
if '-k' in args:
    i = args.index('-k'); only = args[i + 1]; del args[i:i + 2]
def sh(c, **k): return subprocess.run(c, shell=True, **k)
os.makedirs(M, exist_ok=True)
sh(f"rsync -a --delete --exclude target --exclude .git /repo/ {M}/repo/ 2>/dev/null || (mkdir -p {M}/repo && cd /repo && git ls-files -z | xargs -0 cp --parents -t {M}/repo)")
sh(f"mkdir -p {M}/build && cd {R} && tar --exclude=ws/target -cf - ws checks.txt known-findings.jsonl | tar -xf - -C {M}")
sh(f"grep -rlZ '/repo/' {M}/ws --include=Cargo.toml --include='*.rs' --include='*.py' --exclude-dir=target | xargs -0 sed -i 's#\"/repo/#\"{M}/repo/#g'")
pk = dict(l.split() for l in open(f'{R}/checks.txt') if l.strip())
pat = re.compile(r'^## (\S+) (\S+?)(?:#(\d+))?(?: +([^\n]*))?\n<<<<\n(.*?)\n?====\n(.*?)\n?>>>>', re.S | re.M)
tot = miss = 0
for f in args:
    for ids, path, nth, name, old, new in pat.findall(open(f).read()):
        if only and only not in name and only not in ids: continue
        p = f'{M}/repo/{path}'; src = open(p).read()
        # compare regardless of indentation at line starts
        rx = r'\n'.join(r'[ \t]*' + re.escape(l.strip()) + r'[ \t]*' for l in old.split('\n'))
        ms = list(re.finditer(rx, src))
        n = int(nth) if nth else 1
        if (not nth and len(ms) != 1) or len(ms) < n:
            print(f'?? {ids} {name}: found {len(ms)} times', flush=True); continue
        m = ms[n - 1]
        open(p, 'w').write(src[:m.start()] + new + src[m.end():])
        os.utime(p)
        res = []
        for i in ids.split(','):
            b = sh(f'cd {M}/ws && cargo build --offline -p {pk[i]}', capture_output=True, text=True)
            if b.returncode: res.append(f'{i} DOES NOT BUILD ' + ' | '.join(re.findall(r'^error.*(?:\n.*){3}', b.stderr, re.M)[:1])); continue
            try:
                r = subprocess.run([f'{M}/ws/target/debug/{pk[i]}', i], capture_output=True, text=True, timeout=700, env=dict(os.environ, VERIF_ROOT=M, VERIF_SEED='1', VERIF_TIER='quick'))
                s = next((l for l in (r.stdout + r.stderr).split('\n') if re.search(r'FAILED|failed|violat', l)), '')
                res.append(f'{i} ' + ('caught' if r.returncode == 1 and 'VIOLATION' in r.stdout else f'MISSED rc={r.returncode}') + ' ' + s[:110])
            except subprocess.TimeoutExpired: res.append(f'{i} TIMEOUT')
        tot += 1; miss += not any('caught' in x for x in res)
        print(('ok   ' if any('caught' in x for x in res) else 'MISS ') + f'{name}: ' + '; '.join(res), flush=True)
        open(p, 'w').write(src); os.utime(p)
print(f'{tot} changes, {miss} missed')
