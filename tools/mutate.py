#!/usr/bin/env python3
"""Mutation sweep over /repo/lib: mutate.py list FILE... | run OUT N SEED [FILE...] | one FILE LINE OP
Every mutant is built from a copy below /tmp and judged by the quick checks with
fewer programs (FLV_DIV); the survivors are printed for a look by hand."""
import os, random, re, shutil, subprocess, sys, time
LIB = '/repo/lib'
FILES = '''flcklistfilelock.cc flcklistlocker.cc flcklistncond.cc flcklistnmtx.cc flcklistofflock.cc flcklistwaiter.cc flckshm.cc
flckshminit.cc flckthread.cc flckutil.cc fullock.cc rwlockrcsv.cc flcklistfilelock.h flcklistlocker.h flcklistncond.h flcklistnmtx.h
flcklistofflock.h flcklistwaiter.h flckpidcache.h flckshm.h flckutil.h flckbaselist.tcc flcklocktype.h'''.split()
OPS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+\+', '--'), (r'--(?=\w)', '++'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1000\b', '1001'),
       (r'^(\s*(?:\}else )?(?:if|while))\((.*)\)\{\s*$', r'\1(!(\2)){'), (r'^(\s*)(?!return|goto|break|continue|case|using|typedef|static|extern|const|bool|int|size_t|time_t|char|string|struct|class|pid_t|tid_t|off_t|dev_t|ino_t|delete\b)([\w>\-\.\[\]\(\)\*&:, ]+(?:\s*=[^=].*|\(.*\)|\+\+|--)?);\s*$', r'\1;'),
       (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'return (\w+);', 'return 0;'), (r'\bEBUSY\b', 'EINVAL'), (r'\bETIMEDOUT\b', 'EBUSY'), (r'\bEINVAL\b', 'ENOENT')]
SKIP = re.compile(r'PRN\(|^\s*//|^\s*\*|^\s*#|assert|Dump|^\s*"')
def mutants(files):
    for f in files:
        if not os.path.exists(LIB + '/' + f): continue
        ls = open(LIB + '/' + f).read().split('\n'); com = False
        for n, l in enumerate(ls):
            if '/*' in l: com = True
            if '*/' in l: com = False; continue
            if com or SKIP.search(l) or 'operator' in l: continue
            code = l.split('//')[0] if '//' in l else l
            for k, (a, b) in enumerate(OPS):
                for m in re.finditer(a, code):
                    new = code[:m.start()] + m.expand(b) + code[m.end():]
                    if new != code: yield (f, n, k, m.start(), l, new)
def apply(mt, w):
    f, n, k, s, old, new = mt
    p = w + '/lib/' + f; ls = open(p).read().split('\n'); assert ls[n] == old; ls[n] = new; open(p, 'w').write('\n'.join(ls))
ORDER = {'flcklistncond.cc': 'C07', 'flcklistwaiter.cc': 'C07', 'flcklistncond.h': 'C07', 'flcklistwaiter.h': 'C07', 'rwlockrcsv.cc': 'C18', 'flckutil.cc': 'C16', 'flckshminit.cc': 'C15', 'flckshm.cc': 'C16', 'flckthread.cc': 'C19', 'fullock.cc': 'C17', 'flcklistnmtx.cc': 'C03', 'flcklistlocker.cc': 'C10', 'flckpidcache.h': 'C08'}
ALL = 'C05 C01 C07 C12 C08 C11 C13 C02 C10 C15 C17 C09 C14 C16 C18 C04 C03 C06 C19'.split()
def judge(mt, w, div, only=None):
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w); shutil.copytree(LIB, w + '/lib', ignore=shutil.ignore_patterns('*.o', '*.lo', '.libs', '*.la'))
    apply(mt, w)
    first = ORDER.get(mt[0]); order = only or ([first] if first else []) + [c for c in ALL if c != first]
    env = dict(os.environ, FLV_REPO=w, FLV_DIV=str(div)); odd = ''
    for c in order:
        try: r = subprocess.run(['./check.sh', 'check', c], cwd=os.environ.get('MU_VERIF', '/verif'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=600)
        except subprocess.TimeoutExpired: odd += ' %s:timeout' % c; continue
        if r.returncode == 1 and 'VIOLATION' in r.stdout: return c + odd
        if r.returncode == 3 and 'error:' in r.stdout: return 'BUILD'
        if r.returncode: odd += ' %s:rc%d' % (c, r.returncode)
    return 'SURVIVED' + odd
if __name__ == '__main__':
    if sys.argv[1] == 'list':
        for m in mutants(sys.argv[2:] or FILES): print(m[0], m[1] + 1, m[2], m[5].strip())
    elif sys.argv[1] == 'run':
        out, n, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]); fs = sys.argv[5:] or FILES
        ms = list(mutants(fs)); random.Random(seed).shuffle(ms)
        for m in ms[:n]:
            t = time.time(); v = judge(m, '/tmp/mu/w', int(os.environ.get('MU_DIV', '15')))
            with open(out, 'a') as o: o.write('%s | %s:%d | %s  =>  %s | %d s\n' % (v, m[0], m[1] + 1, m[4].strip(), m[5].strip(), time.time() - t))
