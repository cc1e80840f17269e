#!/usr/bin/env python3
"""Planted-bug workbench.  mk() writes seeded/<id>/ from a source edit; verify(id...) applies each patch to /repo, builds,
runs the stable tests, the demo and the check of its property, and always undoes the patch."""
import json, os, re, subprocess, sys
V = '/verif'; R = '/repo'
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -g -w -std=gnu++17 -DFMT_SHARED -DLINUX -D_DEBUG -I/repo/FCollada -I/repo/FColladaPlugins -I/repo/_build -isystem /usr/include/libxml2 \\
    %s "$D/demo.cpp" -o "$T/demo" /repo/_build/libFColladaSD.a -lxml2 -lfmt -ldl -lpthread || exit 0
cd "$T" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def mk(id, prop, edits, needs, breaks, demo, flags=''):
    assert sh('git -C /repo status --short').stdout == '', 'dirty /repo'
    try:
        for f, old, new, *nth in edits:
            p = R + '/' + f; s = open(p, encoding='latin-1', newline='').read(); crlf = '\r\n' in s; s = s.replace('\r\n', '\n')
            # blank lines and white space at the ends of lines do not matter
            m = list(re.finditer(r'(?:[ \t]*\n)+'.join(re.escape(l) for l in old.split('\n') if l.strip()), s))
            assert len(m) == 1 or nth, (f, len(m), old)
            m = m[nth[0] if nth else 0]; s = s[:m.start()] + new + s[m.end():]
            open(p, 'w', encoding='latin-1', newline='').write(s.replace('\n', '\r\n') if crlf else s)
        d = subprocess.run('git -C /repo diff --binary', shell=True, stdout=subprocess.PIPE).stdout
    finally: sh('git -C /repo checkout -- .')
    o = '%s/seeded/%s' % (V, id); os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'wb').write(d); open(o + '/demo.cpp', 'w').write(demo); open(o + '/demo.sh', 'w').write(DEMO % flags); os.chmod(o + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
def build(): return sh('bash /opt/vp/build.sh')
def tests():
    sh('bash /opt/vp/test.sh /tmp/seed_t.json'); r = json.load(open('/tmp/seed_t.json')); b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [t for t in b if t not in r['passed']]
def demo(id): return sh('bash %s/seeded/%s/demo.sh' % (V, id), cwd=R)
def verify(*ids):
    for id in ids:
        assert sh('git -C /repo status --short').stdout == '', 'dirty /repo'
        m = json.load(open('%s/seeded/%s/meta.json' % (V, id))); out = []
        a = sh('git -C /repo apply %s/seeded/%s/patch.diff' % (V, id))
        if a.returncode: print(id, 'DOES NOT APPLY', a.stdout); continue
        try:
            b = build(); out.append('builds' if b.returncode == 0 else 'BUILD FAILS')
            if b.returncode: print(b.stdout[-1500:])
            t = tests(); out.append('tests pass' if not t else 'TESTS FAIL %s' % t[:4])
            d = demo(id); out.append('demo fails(%d)' % d.returncode if d.returncode else 'DEMO PASSES WITH BUG')
            c = sh('python3 %s/run.py %s' % (V, m['property'])); v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
            out.append('caught %d' % len(v) if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode)
            k = [l.strip()[:150] for l in c.stdout.split('\n') if l.startswith('  ') and '|' in l][:2]
        finally: sh('git -C /repo checkout -- .')
        build(); d2 = demo(id); out.append('demo ok clean' if d2.returncode == 0 else 'DEMO FAILS CLEAN: ' + d2.stdout[-300:])
        print(id, m['property'], '; '.join(out)); print('   ', '\n    '.join(k)); 
        if d.returncode == 0 or d2.returncode: print('    demo:', d.stdout[-300:])
        sys.stdout.flush()
if __name__ == '__main__': verify(*(sys.argv[1:] or sorted(os.listdir(V + '/seeded'))))
