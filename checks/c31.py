import os, re, json, shutil, subprocess, fcntl, glob
from .common import HERE, BUILD, REPO
LEVEL = 'bounded'
TECHNIQUE = 'compile-fail witnesses with compiling twins, judged by rustc\'s borrow checker against the current public API'
EXPLANATION = ('Pairs of programs over the public API (every kind of live result, statement or unfinished command × every way of using the connection, keeping a row source beyond its connection or the pool\'s, using a connection after disconnecting) '
  'that differ only in the order of their statements: the ordered one must compile, the other must be refused by the borrow checker (E0382, E0499, E0505, E0506, E0597 …) inside that very function. A trait-coherence witness shows that a connection cannot be duplicated.')
CODES = {'E0499', 'E0502', 'E0503', 'E0505', 'E0506', 'E0382', 'E0597', 'E0515', 'E0716', 'E0521', 'E0373', 'E0713', 'E0596', 'E0594', 'E0507'}

def run(c):
    c.rules.append('no misusing program compiles; each of their twins does')
    w = os.path.join(HERE, 'witness')
    idx = json.load(open(os.path.join(w, 'index.json')))
    tgt = os.path.join(BUILD, 'witness')
    os.makedirs(tgt, exist_ok=True)
    with open(os.path.join(BUILD, 'lock-witness'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for base in ('.fingerprint', 'incremental', 'build'):
            for d in glob.glob(os.path.join(tgt, 'debug', base, '*')):
                if os.path.basename(d).startswith(('mysql-connector', 'mysql_connector', 'verif')): shutil.rmtree(d, ignore_errors=True)
        r = subprocess.run(['cargo', 'check', '--offline', '--keep-going', '--bins', '--message-format=json'], cwd=w,
                           env=dict(os.environ, CARGO_TARGET_DIR=tgt, RUSTFLAGS='-Awarnings'), capture_output=True, text=True)
    errs, done, lib = {}, set(), None
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('reason') == 'compiler-artifact': done.add(d['target']['name'])
        if d.get('reason') != 'compiler-message' or d['message']['level'] != 'error': continue
        m = d['message']
        t = d['target']['name']
        sp = [s for s in m['spans'] if s['is_primary']]
        if t not in ('good', 'bad', 'notclone') and 'bin' not in d['target']['kind']: lib = m['message']
        errs.setdefault(t, []).append(((m.get('code') or {}).get('code'), sp[0]['line_start'] if sp else 0, m['message']))
    if lib is not None or 'mysql_connector' not in done:
        c.undec('the subject does not build: %s' % (lib or r.stderr[-300:]))
        return
    def at(kind, name):
        a, b = idx[name][kind]
        return [e for e in errs.get(kind, []) if a <= e[1] <= b]
    # an error that keeps the borrow checker from running at all
    early = [e for e in errs.get('bad', []) if e[0] not in CODES and e[0] is not None]
    n = 0
    for name, x in sorted(idx.items()):
        c.oblig += 1
        g, b = at('good', name), at('bad', name)
        if g:
            c.undec('%s: the correct program does not compile (%s)' % (name, g[0][2]))
            continue
        n += 1
        if any(e[0] in CODES for e in b): c.disch += 1; continue
        if b or early or 'bad' not in errs and 'bad' not in done:
            c.undec('%s: refused for another reason (%s)' % (name, (b or early or [(0, 0, 'build failed')])[0][2]))
            continue
        c.violation('compiles:' + name, 'a program compiles in which %s' % x['what'], where(name), ['witness/src/bad.rs: ' + name])
    c.oblig += 1
    if 'notclone' in done: c.disch += 1
    elif any(e[0] in ('E0283', 'E0790', 'E0282') for e in errs.get('notclone', [])):
        c.violation('clone', 'a connection can be cloned', where('clone'), ['witness/src/notclone.rs'])
    else: c.undec('notclone: %s' % errs.get('notclone'))
    c.floor('pairs of programs', n, 60)
    c.samples.append(dict(pairs=len(idx), refused=sum(1 for k in idx if at('bad', k)), codes=sorted({e[0] or '' for e in errs.get('bad', [])})))
    c.funcs |= set(idx)
    c.assumptions.append('the borrow checker is right (trusted base); misuse through unsafe code of the caller is out of scope')

def where(name):
    """the declaration of the API function the witness turns on"""
    fn = re.split('_then_|_outlives', name)[-1] or 'query'
    fn = fn.replace('statement_', '') if 'statement_result_then' in name else fn
    for want in (fn, 'query'):
        for f in sorted(glob.glob(REPO + '/src/**/*.rs', recursive=True)):
            for k, l in enumerate(open(f), 1):
                if re.search(r'pub (async )?fn %s\b' % re.escape(want), l): return '%s:%d' % (os.path.relpath(f, REPO), k)
    return 'src/connection/mod.rs'
