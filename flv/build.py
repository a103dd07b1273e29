#!/usr/bin/env python3
# Builds the checking binaries from /repo's working tree.
#   build.py VARIANT...   (variants: sched, asan, real)   prints the path of each binary
# Objects are cached under /verif/.build by the hash of everything that goes
# into them, so that an edit of any library source or header leads to a rebuild.
import fcntl, glob, hashlib, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
HOME = os.path.dirname(HERE)
REPO = os.environ.get('FLV_REPO', '/repo')
LIB = os.path.join(REPO, 'lib')
OUT = os.environ.get('FLV_BUILD', os.path.join(HOME, '.build'))

WRAPS = ('sched_yield clock_gettime nanosleep usleep pthread_mutex_lock mmap munmap '
         'open fcntl ftruncate pwrite close stat fstat lstat mkdir').split()
COMMON = ['-std=c++17', '-g', '-fno-lto', '-pthread', '-DHAVE_CONFIG_H', '-I' + os.path.join(HERE, 'conf'), '-I' + LIB, '-I' + os.path.join(HERE, 'core')]
V = {
    'sched': dict(lib=['-O1', '-fsanitize=thread', '-fno-omit-frame-pointer'], har=['-O1', '-Wall', '-Wextra'],
                  src=['rt/vsched.cc', 'core/core.cc', 'core/exec.cc', 'core/stub.cc'], props='props/*.cc',
                  link=['-static-libstdc++', '-static-libgcc'] + ['-Wl,--wrap=' + w for w in WRAPS]),
    'asan': dict(lib=['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
                 har=['-O1', '-Wall', '-Wextra', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'],
                 src=['core/core.cc', 'core/stub.cc'], props='aprops/*.cc',
                 link=['-fsanitize=address,undefined'] + ['-Wl,--wrap=' + w for w in
                       'open stat lstat access mkdir unlink rename fopen inotify_add_watch get_current_dir_name getcwd realpath'.split()]),
    'real': dict(lib=['-O2'], har=['-O1', '-Wall', '-Wextra'],
                 src=['core/core.cc', 'core/stub.cc'], props='rprops/*.cc',
                 link=[]),
}

CXX = next((c for c in ('/usr/bin/clang++', '/usr/bin/clang++-18', 'clang++') if not c.startswith('/') or os.path.exists(c)))

def rd(p):
    with open(p, 'rb') as f:
        return f.read()

def digest(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def build(variant):
    v = V[variant]
    libh = [rd(p) for p in sorted(glob.glob(LIB + '/*.h') + glob.glob(LIB + '/*.tcc'))]
    ownh = [rd(p) for p in sorted(glob.glob(HERE + '/*/*.h'))]
    odir = os.path.join(OUT, 'obj'); os.makedirs(odir, exist_ok=True)
    jobs, objs = [], []
    def add(src, flags, extra):
        key = digest([src, variant, ' '.join(flags), rd(src)] + extra)
        o = os.path.join(odir, '%s-%s-%s.o' % (variant, os.path.basename(src), key))
        objs.append(o)
        if os.path.exists(o):
            os.utime(o)
        else:
            jobs.append((src, flags, o))
    for s in sorted(glob.glob(LIB + '/*.cc')):
        if os.path.basename(s) != 'fullockversion.cc':
            add(s, COMMON + ['-w'] + v['lib'], libh)
    for s in [os.path.join(HERE, x) for x in v['src']] + sorted(glob.glob(os.path.join(HERE, v['props']))):
        add(s, COMMON + v['har'], libh + ownh)
    def cc(j):
        src, flags, o = j
        fd, tmp = tempfile.mkstemp(dir=odir, suffix='.tmp'); os.close(fd)
        r = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            if os.path.exists(tmp): os.unlink(tmp)
            return r.stdout or 'compiler failed'
        if r.stdout and '/verif/' in src:
            sys.stderr.write(r.stdout)
        os.rename(tmp, o); return ''
    with ThreadPoolExecutor(8) as ex:
        for e in ex.map(cc, jobs):
            if e:
                sys.stderr.write(e); sys.exit(3)
    key = digest(objs + v['link'])
    exe = os.path.join(OUT, 'flv-%s-%s' % (variant, key))
    if not os.path.exists(exe):
        tmp = exe + '.tmp%d' % os.getpid()
        r = subprocess.run([CXX, '-g', '-pthread'] + objs + v['link'] + ['-o', tmp])
        if r.returncode:
            sys.exit(3)
        os.rename(tmp, exe)
    else:
        os.utime(exe)
    return exe

def prune():
    for pat, keep in ((OUT + '/obj/*.o', 600), (OUT + '/flv-*', 12)):
        fs = sorted(glob.glob(pat), key=os.path.getmtime)
        for f in fs[:-keep] if len(fs) > keep else []:
            try: os.unlink(f)
            except OSError: pass

if __name__ == '__main__':
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for a in sys.argv[1:]:
            print(build(a))
        prune()
