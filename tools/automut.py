#!/usr/bin/env python3
"""automut.py IDS FILE... [-n N] [-s SEED] [-w DIR]: generates small changes of the given repository files (conditions removed or flipped,
statements dropped, arithmetic swapped), builds the checks named in IDS against a copy of the repository in DIR and lists the
changes none of them reported. Used to find gaps; a survivor is often a change of no consequence."""
import os, random, re, subprocess, sys
R = '/verif'
def opt(f, d):
    if f in sys.argv:
        i = sys.argv.index(f); v = sys.argv[i + 1]; del sys.argv[i:i + 2]; return v
    return d
N = int(opt('-n', 60)); SEED = int(opt('-s', 1)); M = opt('-w', '/tmp/automut'); L0 = opt('-l', '')
ids, files = sys.argv[1].split(','), sys.argv[2:]
def sh(c, **k): return subprocess.run(c, shell=True, **k)
os.makedirs(M, exist_ok=True)
sh(f"mkdir -p {M}/repo {M}/build && cd /repo && git ls-files -z | xargs -0 cp --parents -t {M}/repo")
sh(f"git -C {R} archive HEAD ws checks.txt known-findings.jsonl | tar -xf - -C {M}")
sh(f"grep -rlZ '/repo/' {M}/ws --include=Cargo.toml --include='*.rs' --include='*.py' --exclude-dir=target | xargs -0 sed -i 's#\"/repo/#\"{M}/repo/#g'")
pk = dict(l.split() for l in open(f'{R}/checks.txt') if l.strip())
def balanced(s, i):
    d = 0
    while i < len(s):
        if s[i] in '([{': d += 1
        elif s[i] in ')]}':
            d -= 1
            if d == 0: return i + 1
        i += 1
    return len(s)
def mutants(path):
    s = open(f'{M}/repo/{path}').read()
    cut = re.search(r'#\[cfg\(test\)\]\s*mod \w+ \{', s)
    end = cut.start() if cut else len(s)
    # what not to touch
    skip = [(m.start(), m.end()) for m in re.finditer(r'//[^\n]*', s)]
    for m in re.finditer(r'deposit_event\(|log!\(|#\[|Event::<?|debug_assert|expect\(|#!\[', s):
        j = s.find('(' if s[m.start()] != '#' else '[', m.start())
        if j >= 0: skip.append((m.start(), balanced(s, j)))
    ok = lambda i: i < end and not any(a <= i < b for a, b in skip)
    out = []
    for m in re.finditer(r'ensure!\(', s):
        e = balanced(s, m.end() - 1)
        if ok(m.start()): out.append((m.start(), e, '()' if s[e:e+1] != ';' else '()', 'ensure removed'))
    for a, bs in [(' < ', [' <= ']), (' <= ', [' < ']), (' > ', [' >= ']), (' >= ', [' > ']), (' == ', [' != ']), (' != ', [' == ']), (' && ', [' || ']), (' || ', [' && ']), (' + ', [' - ']), (' - ', [' + ']), (' * ', [' / ']), (' += ', [' -= ', ' = ']), (' -= ', [' += ', ' = ']), ('saturating_add(', ['saturating_sub(']), ('saturating_sub(', ['saturating_add(']), ('checked_add(', ['checked_sub(']), ('checked_sub(', ['checked_add(']), ('saturating_mul(', ['saturating_add(']), ('.min(', ['.max(']), ('.max(', ['.min(']), ('false', ['true']), ('true', ['false']), ('is_some()', ['is_none()']), ('is_none()', ['is_some()']), ('Expendable', ['Preserve']), ('.any(', ['.all(']), ('.all(', ['.any(']), ('if !', ['if ']), ('::one()', ['::zero()']), ('.first(', ['.last(']), ('.last(', ['.first('])]:
        i = s.find(a)
        while i >= 0:
            if ok(i):
                for b in bs: out.append((i, i + len(a), b, f'{a.strip()} -> {b.strip()}'))
            i = s.find(a, i + 1)
    # statements: a line at statement position that is a call or assignment
    for m in re.finditer(r'(?<=[;{}]\n)([ \t]+)((?:Self|T|<T|<Self|[A-Z]\w*(?:::)?<T|[a-z_]\w*)[\w:<>. ]*(?:\(|\.|= )[^\n]*)', s):
        st = m.start(2)
        if not ok(st) or re.match(r'(let|return|pub|fn|use|match|if|for|impl|type|where|while|loop|const|static|mod|else|ensure)\b', m.group(2)): continue
        # find the end of the statement
        i, d = st, 0
        while i < len(s):
            c = s[i]
            if c in '([{': d += 1
            elif c in ')]}':
                d -= 1
                if d < 0: break
            elif c == ';' and d == 0: break
            i += 1
        if i < len(s) and s[i] == ';' and i - st < 600 and 'deposit_event' not in s[st:i] and 'log!' not in s[st:i]:
            out.append((st, i + 1, '', 'statement dropped'))
    # integer constants
    for m in re.finditer(r'(?<![\w.\[#"\'])([0-9][0-9_]*)(u\d+|usize|i\d+)?(?![\w.\]"\'])', s):
        if ok(m.start()) and 'call_index' not in s[max(0, m.start()-30):m.start()]:
            v = int(m.group(1).replace('_', '')); out.append((m.start(), m.end(), f'{v+1}{m.group(2) or ""}', f'{v} -> {v+1}'))
    return s, out
al = []
for f in files:
    s, o = mutants(f); al += [(f, s, x) for x in o]
random.Random(SEED).shuffle(al)
print(len(al), 'candidates', flush=True)
n = caught = nb = 0; surv = []
for f, s, (a, b, new, what) in al:
    if n >= N: break
    p = f'{M}/repo/{f}'
    open(p, 'w').write(s[:a] + new + s[b:])
    line = s.count('\n', 0, a) + 1
    res = None
    for pkg in dict.fromkeys(pk[i] for i in ids):
        r = sh(f'cd {M}/ws && cargo build --offline -p {pkg}', capture_output=True, text=True)
        if r.returncode: res = 'nb'; break
    if res != 'nb':
        n += 1
        for i in ids:
            try:
                r = subprocess.run([f'{M}/ws/target/debug/{pk[i]}', i], capture_output=True, text=True, timeout=400, env=dict(os.environ, VERIF_ROOT=M, VERIF_SEED='1', VERIF_TIER='quick'))
                if r.returncode: res = i; break
            except subprocess.TimeoutExpired: res = i + ' timeout'; break
        if res is None:
            surv.append(1); print(f'SURVIVED {f}:{line} [{what}] {s[a:b].strip()[:150]!r} in: {s[s.rfind(chr(10),0,a)+1:s.find(chr(10),b)].strip()[:160]!r}', flush=True)
        else: caught += 1
    else: nb += 1
    open(p, 'w').write(s)
print(f'{n} changes built, {caught} caught, {len(surv)} survived, {nb} did not build')
