#!/usr/bin/env python3
"""seed.py FILE...: each FILE (python) defines a list SEEDS of dicts
   id, property, needs, breaks, edits=[(file, old, new)], main=rust source.  Creates and confirms
   seeded/<id> in scratch copies; an entry that fails any requirement is removed again."""
import sys, os, subprocess, shutil, json, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)
def scratch():
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    sh('git -C /repo archive HEAD | tar x -C %s/ && cp -a /repo/Cargo.lock %s/ 2>/dev/null; cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (d, d, d), '/tmp')
    return d
def do(s, keep=False):
    out = os.path.join(V, 'seeded', s['id'])
    d = scratch()
    try:
        for f, old, new in s['edits']:
            p = os.path.join(d, f); t = open(p).read()
            if t.count(old) != 1: return s['id'], 'edit matches %d times in %s: %r' % (t.count(old), f, old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', d).stdout
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        main = s['main']
        open(out + '/main.rs', 'w').write(main)
        shutil.copy(V + '/seedtools/mock.rs', out)
        demo = open(V + '/seedtools/' + s.get('demo', 'demo.sh')).read()
        if s.get('features') is not None: demo = demo.replace('FEAT=${DEMO_FEATURES-\'"caching-sha2-password"\'}', "FEAT='%s'" % s['features'])
        open(out + '/demo.sh', 'w').write(demo); os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
        t = sh('(cargo test --offline --all-features --lib; cargo test --offline --no-default-features --lib) 2>&1 | grep -E "test result|^error" | head -5', d, env=dict(os.environ, CARGO_TARGET_DIR=d + '/tgt'))
        if 'ok. ' not in t.stdout or ' 0 failed' not in t.stdout: return s['id'], 'tests: ' + t.stdout + t.stderr[-500:]
        b = sh('bash %s/demo.sh' % out, d)
        if b.returncode == 0: return s['id'], 'demo passes with the bug'
        sh('git checkout -q -- .', d)
        g = sh('bash %s/demo.sh' % out, d)
        if g.returncode != 0: return s['id'], 'demo fails on the unchanged tree: ' + g.stdout[-600:]
        return s['id'], 'CONFIRMED (with bug: rc %d %s)' % (b.returncode, ' '.join(b.stdout.strip().splitlines()[-3:])[-160:])
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    seeds = []
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), g); seeds += g['SEEDS']
    with cf.ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(do, seeds):
            print(i, r); sys.stdout.flush()
            if not r.startswith('CONF'): shutil.rmtree(os.path.join(V, 'seeded', i), ignore_errors=True)
main()
