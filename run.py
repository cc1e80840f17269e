#!/usr/bin/env python3
"""run.py P01 [--thorough] [--only SPACE] [--replay FILE]: builds the library from /repo's working
tree with sanitizers and runs the check of one property against it.   run.py --setup builds everything."""
import glob, hashlib, json, os, re, subprocess, sys, shutil, fcntl

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
DIRS = ['FCollada', 'FCollada/FCDocument', 'FCollada/FMath', 'FCollada/FUtils', 'FColladaPlugins/FArchiveXML']
SAN = '-fsanitize=address,array-bounds,integer-divide-by-zero,return,unreachable,vla-bound,null -fno-sanitize-recover=all -fno-omit-frame-pointer'
CXXFLAGS = '-O1 -g1 -w -std=c++17 -fPIC %s -DFMT_SHARED -DLINUX -D_DEBUG -I%s/FCollada -I%s/FColladaPlugins -I%s/lib/inc -isystem /usr/include/libxml2' % (SAN, REPO, REPO, V)
WRAPS = '-Wl,--wrap=_ZN11FUAssertion17OnAssertionFailedEPKcj'
LIBS = '-lxml2 -lfmt -ldl -lpthread'

def sources():
    out = []
    for d in DIRS:
        cm = open('%s/%s/CMakeLists.txt' % (REPO, d)).read()
        for f in sorted(glob.glob('%s/%s/*.cpp' % (REPO, d))):
            if re.search(r'(?<![\w/])' + re.escape(os.path.basename(f)) + r'\b', cm):
                out.append(f)
    return out

def sha(f):
    return hashlib.sha256(open(f, 'rb').read()).hexdigest()

def build(props):
    B = V + '/build'
    os.makedirs(B + '/obj', exist_ok=True)
    lock = open(B + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    srcs = sources()
    # Content, not time stamps, decides what is stale.
    cur = {f: sha(f) for d in DIRS for f in glob.glob('%s/%s/*' % (REPO, d)) if os.path.isfile(f)}
    cur['flags'] = CXXFLAGS
    man = B + '/manifest.json'
    old = json.load(open(man)) if os.path.exists(man) else {}
    hdr = lambda m: {k: v for k, v in m.items() if not k.endswith('.cpp')}
    obj = lambda f: B + '/obj/' + os.path.relpath(f, REPO).replace('/', '_') + '.o'
    if hdr(old) != hdr(cur):
        # ninja's depfiles catch newer headers; restored (older) ones need a clean start
        for f in glob.glob(B + '/obj/*') + glob.glob(B + '/chk_*.o'):
            os.unlink(f)
        for f in ('.ninja_deps', '.ninja_log'):
            if os.path.exists(B + '/' + f): os.unlink(B + '/' + f)
    else:
        for f, h in cur.items():
            if f.endswith('.cpp') and old.get(f) != h and os.path.exists(obj(f)):
                os.unlink(obj(f))
    if os.path.exists(man): os.unlink(man)
    with open(B + '/build.ninja', 'w') as o:
        o.write('rule cc\n  command = clang++ %s -MD -MF $out.d $x -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n' % CXXFLAGS)
        o.write('rule ar\n  command = rm -f $out && ar qc $out $in && ranlib $out\n')
        o.write('rule ld\n  command = clang++ %s %s $in -o $out %s $x\n' % (SAN, WRAPS, LIBS))
        objs = []
        for s in srcs:
            objs.append(obj(s)); o.write('build %s: cc %s\n' % (objs[-1], s))
        o.write('build %s/libfc.a: ar %s\n' % (B, ' '.join(objs)))
        for f in ('mc', 'wrap_assert'):
            o.write('build %s/%s.o: cc %s/lib/%s.cpp\n' % (B, f, V, f))
        for c in sorted(glob.glob(V + '/checks/P*.cpp')):
            n = os.path.basename(c)[:-4]
            x = ''
            for l in open(c):
                if l.startswith('// LINK:'): x = l[8:].strip()
            o.write('build %s/chk_%s.o: cc %s\n  x = -I%s/lib\n' % (B, n, c, V))
            o.write('build %s/%s: ld %s/chk_%s.o %s/mc.o %s/wrap_assert.o %s/libfc.a\n  x = %s\n' % (B, n, B, n, B, B, B, x))
    tg = [B + '/' + p for p in props]
    r = subprocess.run(['ninja', '-C', B] + tg, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write('\n'.join(l for l in r.stdout.split('\n') if 'error' in l or 'undefined' in l or 'FAILED' in l)[:4000] or r.stdout[-3000:]); print('BUILD FAILED'); sys.exit(3)
    json.dump(cur, open(man, 'w'))

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        build([os.path.basename(c)[:-4] for c in glob.glob(V + '/checks/P*.cpp')]); return 0
    p = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in a: tier = 'thorough'
    if '--quick' in a: tier = 'quick'
    extra = []
    for o in ('--only', '--replay', '--par'):
        if o in a: extra += [o, a[a.index(o) + 1]]
    build([p])
    os.makedirs(V + '/evidence', exist_ok=True)
    ev = [] if '--only' in a or '--replay' in a else ['--evidence', V + '/evidence/%s.json' % p]
    env = dict(os.environ, LANG='C.UTF-8', LC_ALL='C.UTF-8')
    r = subprocess.run([V + '/build/' + p, '--tier', tier, '--seed', os.environ.get('VERIF_SEED', '1'), '--known', V + '/known_findings.txt',
                        '--replay-dir', V + '/replays'] + ev + extra, env=env)
    return r.returncode
sys.exit(main())
