#!/usr/bin/env python3
"""One property: extract /repo's current functions, splice the contracts, let Verus discharge every
obligation, cross-check the real crate with a bounded search, decide, write evidence.
usage: check.py PROP | --setup | --baseline"""
import os, sys, json, time, subprocess, tempfile, shutil, re, hashlib, threading
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import assemble as ASM
import props as P
REPO = os.environ.get('PGN_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
T0 = time.time()
HARD = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'possible arithmetic', 'possible division by zero',
        'possible bit shift', 'decreases not satisfied', 'constructed value may fail', 'unreachable', 'split assertion failure', 'split postcondition failure', 'split precondition failure')

def log(*a): print(*a, file=sys.stderr, flush=True)

class Work:
    def __init__(s):
        s.dir = tempfile.mkdtemp(prefix='pgnv.'); s.extdir = os.environ.get('PGN_EXT') or s.dir + '/ext'; s.drvdir = os.environ.get('PGN_DRV') or s.dir + '/drv'
        s.err = {}
    def build(s):
        def ext():
            r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=ROOT + '/extract', env=dict(os.environ, CARGO_TARGET_DIR=s.extdir), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: s.err['ext'] = r.stdout[-3000:]
        def drv():
            r = subprocess.run(['bash', ROOT + '/driver/build.sh', s.drvdir], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: s.err['drv'] = r.stdout[-3000:]
        ts = [threading.Thread(target=f) for f in (ext, drv)]
        for t in ts: t.start()
        for t in ts: t.join()
    @property
    def exe(s): return s.drvdir + '/debug/pgn_driver'
    def extract(s):
        r = subprocess.run([s.extdir + '/debug/pgn_extract', REPO + '/src'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode: s.err['extract'] = r.stderr[-2000:]; return None
        return json.loads(r.stdout)
    def close(s): shutil.rmtree(s.dir, ignore_errors=True)

def toks(t): return re.findall(r'[A-Za-z_0-9]+|[^\sA-Za-z_0-9]', t)
def difflen(a, b):
    """tokens not common to a and b (longest common subsequence by difflib)"""
    import difflib
    m = difflib.SequenceMatcher(None, a, b, autojunk=False)
    same = sum(x.size for x in m.get_matching_blocks())
    return max(len(a), len(b)) - same

LAYER = {'binary': 0, 'data': 0, 'error': 1, 'var': 1, 'typmod': 1, 'num': 2, 'parse': 3, 'convert': 3, 'ops': 4}
def names(cs):
    byname = {}
    for k, c in cs.items():
        if 'off' in c.opts: continue
        byname.setdefault(c.opts.get('as') or c.path.rsplit('::', 1)[-1], []).append(k)
    return byname
def callees(ext, cs, k, byname):
    c = cs[k]; out = []
    if 'deps' in c.opts: out += [x.replace('~', ' ') for x in c.opts['deps'].split(';')]
    try: f = ASM.find(ext, c)
    except ASM.Lost: return out
    body = f['body'] + ' '.join(c.parts.values()) + ' '.join(x for x in c.parts if x.startswith('sub '))
    for n in sorted(set(re.findall(r'\b([A-Za-z_][A-Za-z0-9_]*)\s*\(', body))):
        for k2 in byname.get(n, ()):
            if LAYER.get(cs[k2].modname, 4) <= LAYER.get(c.modname, 4): out.append(k2)
    return out
def groupmates(cs, k):
    g = cs[k].opts.get('group')
    return [k2 for k2 in cs if g and cs[k2].opts.get('group') == g and 'asimpl' in cs[k2].opts and 'off' not in cs[k2].opts]

def closure(ext, cs, roots, stop=None):
    """contract keys reachable from the roots through calls (by name; never up from var.rs to num.rs)"""
    byname = names(cs)
    done = []; todo = [r for r in roots if r in cs]
    while todo:
        k = todo.pop(0)
        if k in done: continue
        done.append(k); c = cs[k]
        todo += [x for x in groupmates(cs, k) if x not in done]
        if 'trusted' in c.opts or (stop and re.search(stop, k) and k not in roots):
            if 'deps' in c.opts: todo += [x.replace('~', ' ') for x in c.opts['deps'].split(';')]
            continue
        todo += [x for x in callees(ext, cs, k, byname) if x not in done]
    return done

def verus(path, threads=4, timeout=600, extra=()):
    cmd = ['verus', path, '--output-json', '--time', '--multiple-errors', '5', '--num-threads', str(threads), '--triggers-mode', 'silent'] + list(extra)
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired: return None, 'timeout', cmd
    try: j = json.loads(r.stdout)
    except ValueError: j = None
    return j, r.stderr, cmd

def parse_errors(err, asm):
    """-> list of dict(kind hard|soft|front, msg, line, key, text)"""
    out = []
    for blk in re.split(r'\n(?=error|warning|note)', '\n' + err):
        blk = blk.strip('\n')
        if not blk.startswith('error'): continue
        head = blk.split('\n')[0]; msg = re.sub(r'^error(\[\w+\])?:\s*', '', head)
        if msg.startswith('aborting due to'): continue
        m = re.search(r'--> [^\n]*?/\w+\.rs:(\d+):', blk) or re.search(r'\n\s*(\d+)\s*[|/]', blk)
        line = int(m.group(1)) if m else 0
        # the primary span is the one marked with ^ ; the header location points at it
        key = asm.owner_of_line(line)
        if key in ('ghost', None):   # the failed clause is declared on a trait: the function is where the block points
            for n in re.findall(r'\n\s*(\d+)\s*[|/]', blk):
                k2 = asm.owner_of_line(int(n))
                if k2 not in ('ghost', None): key = k2; line = int(n)
        kind = 'soft' if 'rlimit' in msg.lower() or 'resource limit' in msg.lower() or 'timed out' in msg.lower() else 'hard' if any(msg.startswith(h) for h in HARD) or any(h in msg for h in HARD[:4]) else 'front'
        out.append(dict(kind=kind, msg=msg, line=line, key=key, text=blk[:1500]))
    return out

def prove1(ext, cs, real, stubbed, wd, path, threads, lemmas, mode):
    """-> dict with per-function status"""
    res = dict(proved=[], failed={}, soft={}, front={}, lost={}, verified=0, errors=0, smt_ms=0, times={}, cmd='', ran=False)
    for attempt in range(6):
        a = ASM.Assembly(ext, cs, real, stubbed, mode=mode, lemmas=lemmas)
        for k, e in a.lost:
            if k in real: res['lost'].setdefault(k, e)
        open(path, 'w').write(a.text)
        j, err, cmd = verus(path, threads)
        res['cmd'] = ' '.join(cmd)
        if j is None or 'verification-results' not in j or (j.get('times-ms') or {}).get('smt') is None and not j['verification-results'].get('success'):
            errs = parse_errors(err, a)
            bad = set(e['key'] for e in errs if e['key'] and e['key'] in real)
            for e in errs: 
                if e['key'] in bad: res['front'].setdefault(e['key'], []).append(e['text'][:600])
            if not bad:
                res['front']['*'] = [err[-1500:]]; return res
            real = [k for k in real if k not in bad]; stubbed += list(bad)
            continue
        errs = parse_errors(err, a)
        res['ran'] = True
        vr = j['verification-results']; res['verified'] = vr.get('verified', 0); res['errors'] = vr.get('errors', 0)
        t = j['times-ms'].get('smt', {}); res['smt_ms'] = t.get('smt-run', 0)
        for m in t.get('smt-run-module-times', []):
            for fb in m.get('function-breakdown', []): res['times'][fb['function']] = fb.get('time', 0)
        front = [e for e in errs if e['kind'] == 'front']
        if front and not vr.get('success') and res['verified'] == 0 and not any(e['kind'] == 'hard' for e in errs):
            bad = set(e['key'] for e in front if e['key'] in real)
            for e in front: res['front'].setdefault(e['key'] or '*', []).append(e['text'][:600])
            if not bad: res['ran'] = False; return res
            real = [k for k in real if k not in bad]; stubbed += list(bad); res['ran'] = False
            continue
        for e in errs:
            d = res['failed'] if e['kind'] == 'hard' else res['soft'] if e['kind'] == 'soft' else res['front']
            d.setdefault(e['key'] or '*', []).append(e if e['kind'] == 'hard' else e['text'][:600])
        badk = set(res['failed']) | set(res['soft']) | set(res['front']) | set(k for k in res['lost'])
        res['proved'] = [k for k in real if k not in badk]
        if res['errors'] and not (res['failed'] or res['soft']): res['soft']['*'] = [err[-800:]]
        return res
    return res

# what the ghost code of store_def.rs calls
DEFNEED = ['data NumericDigits::as_slice', 'data NumericDigits::to_owned ToOwned', 'data NumericData::borrow Borrow<NumericDigits>']
def DEFLEM(): return set(n for n, t in ASM.gh_items(open(ROOT + '/contracts/store_def.rs').read()) if n)
def prove(ext, cs, keys, wd, threads, stop=()):
    """The obligations of all functions in keys, split into chunks that Verus checks in parallel. A chunk holds the bodies of its
    functions and the contracts of what they call; every lemma is proved in exactly one chunk and stated in the others."""
    real = [k for k in keys if 'trusted' not in cs[k].opts and k not in stop]
    # storage functions are proved where the memory is defined ('def'), the layers above where it is uninterpreted ('abs')
    part = {'abs': [k for k in real if not ASM.is_store(cs[k])], 'def': [k for k in real if ASM.is_store(cs[k])]}
    text = {}; lem = {}
    byname = names(cs); keyset = set(keys)
    def stubs_of(fns, mode):
        stub = [k for k in DEFNEED if k not in fns] if mode == 'def' else []
        for k in fns:
            for x in callees(ext, cs, k, byname) + groupmates(cs, k):
                if (x in keyset or x in DEFNEED) and x not in fns and x not in stub: stub.append(x)
        for k in list(stub):      # the other members of a trait group, so that the impls are there
            for x in groupmates(cs, k):
                if x in keyset and x not in fns and x not in stub: stub.append(x)
        return [k for k in list(cs) if k in stub]
    for m in ('abs', 'def'):
        if not part[m]: lem[m] = set(); continue
        full = ASM.Assembly(ext, cs, part[m], stubs_of(part[m], m), mode=m)
        text.update(full.lemma_text); lem[m] = set(full.lemmas)
    lem['abs'] |= set(l for l in lem['def'] if l not in DEFLEM()) if part['abs'] else set()
    lem['def'] -= lem['abs']
    all_lemmas = lem['abs'] | lem['def']
    # stating a lemma elsewhere than it is proved is sound because the mentions between lemmas have no cycle
    seen = {}
    def visit(l):
        if seen.get(l) == 1: raise SystemExit('lemmas are mutually recursive: ' + l)
        if l in seen: return
        seen[l] = 1
        for x in set(re.findall(r'\w+', text[l])):
            if x != l and x in text: visit(x)
        seen[l] = 2
    for l in all_lemmas: visit(l)
    try: W = json.load(open(ROOT + '/contracts/weights.json'))
    except OSError: W = {}
    w = lambda k: W.get(k, 0.3 if k in keyset else 0.15)
    chunks = []
    budget = max(1, min(threads, (len(real) + 11) // 12 + len(all_lemmas) // 60)); tot = sum(map(w, real + sorted(all_lemmas))) or 1
    for m in ('def', 'abs'):
        if not part[m] and not lem[m]: continue
        mine = sum(map(w, part[m] + sorted(lem[m])))
        nm = max(1, int(budget * mine / tot + 0.5)) if m == 'def' else max(1, budget - len(chunks))
        cl = [dict(fns=[], lem=set(), w=0.0, mode=m) for _ in range(nm)]
        jobs = [(w(k), 'f', k) for k in part[m]] + [(w(l), 'l', l) for l in sorted(lem[m])]
        for x, t, k in sorted(jobs, key=lambda x: (-x[0], x[2])):
            c = min(cl, key=lambda c: c['w']); c['w'] += x
            if t == 'f': c['fns'].append(k)
            else: c['lem'].add(k)
        chunks += cl
    n = len(chunks)
    outs = [None] * n
    def run(i):
        c = chunks[i]
        fns = [k for k in keys if k in c['fns']]
        outs[i] = prove1(ext, cs, fns, stubs_of(fns, c['mode']), wd, '%s/c%d.rs' % (wd, i), 1, c['lem'], c['mode'])
    ts = [threading.Thread(target=run, args=(i,)) for i in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    res = dict(proved=[], failed={}, soft={}, front={}, lost={}, verified=0, errors=0, smt_ms=0, times={}, cmd='', ran=True, chunks=n, lemmas=len(all_lemmas))
    for o in outs:
        if o is None: res['ran'] = False; res['front'].setdefault('*', []).append('a chunk was not checked'); continue
        res['proved'] += o['proved']
        for d in ('failed', 'soft', 'front', 'lost'):
            for k, e in o[d].items():
                if d == 'lost': res[d].setdefault(k, e)
                else: res[d].setdefault(k, []).extend(e)
        res['verified'] += o['verified']; res['errors'] += o['errors']; res['smt_ms'] += o['smt_ms']; res['times'].update({re.sub(r'^\w+::', '', a): b for a, b in o['times'].items()}); res['ran'] &= o['ran']
        res['cmd'] = o['cmd']
    res['proved'] = [k for k in real if k in res['proved']]
    return res

def search(prop, exe, seconds, seed, workers):
    ps = [subprocess.Popen([sys.executable, HERE + '/search.py', '--json', exe, prop, str(seconds), str(seed * 1000 + i)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for i in range(workers)]
    tot = dict(evaluations=0, distinct=0, failures=[], samples=[], errors=[])
    for p in ps:
        try: o, e = p.communicate(timeout=seconds * 3 + 240)
        except subprocess.TimeoutExpired: p.kill(); o, e = p.communicate(); tot['errors'].append('search timed out'); continue
        try: r = json.loads(o)
        except ValueError: tot['errors'].append((e or o)[-800:]); continue
        tot['evaluations'] += r['evaluations']; tot['distinct'] += r['distinct']; tot['failures'] += r['failures']
        if len(tot['samples']) < 3: tot['samples'] += r['samples'][:1]
    return tot

def baseline(): 
    try: return json.load(open(ROOT + '/contracts/baseline.json'))
    except OSError: return {'fns': {}, 'consts': {}}

def fnkey(f): return '%s|%s|%s|%s|%s' % (f['file'], f['owner'], f['trait'], f['name'], f['inst'])
def make_baseline(ext):
    return {'fns': {fnkey(f): f['orig'] for f in ext['fns']}, 'consts': {k: v.get('expr') for k, v in ext['consts'].items()}}

def known(prop):
    out = []
    for l in open(ROOT + '/KNOWN_FINDINGS.txt'):
        m = re.match(r'finding:\s+property=(\S+)\s+input=(\S+)\s+(.*)', l)
        if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def main(prop):
    spec = P.PROPS[prop]; ASM.KEEP[:] = spec.get('lemmas', []); cs = ASM.load_contracts(); w = Work()
    os.makedirs(ROOT + '/evidence/replay', exist_ok=True)
    ev_path = ROOT + '/evidence/%s.json' % prop
    try: return decide(prop, spec, cs, w, ev_path)
    finally: w.close()

def write_ev(path, prop, spec, cov, assumptions, violations):
    json.dump(dict(property=prop, tier=TIER, seed=SEED, level=spec['level'], coverage=cov, assumptions=assumptions, wall_s=round(time.time() - T0, 2), violations=violations), open(path, 'w'), indent=1)

def decide(prop, spec, cs, w, ev_path):
    w.build()
    cov = {}; notes = []
    if 'drv' in w.err:
        # the tree itself does not build with the driver: nothing can be said
        notes.append('driver build failed: ' + w.err['drv'][-600:])
    box = {}
    secs = spec.get('seconds', 10) if TIER == 'quick' else spec.get('seconds', 10) * 15
    workers = 4 if TIER == 'quick' else 6
    def srch(): box['s'] = search(prop, w.exe, secs, SEED, workers) if 'drv' not in w.err else None
    st = threading.Thread(target=srch); st.start()
    ext = w.extract() if 'ext' not in w.err else None
    roots = spec.get('roots', [])
    res = None
    if ext and roots:
        stop = spec.get('stop'); keys = closure(ext, cs, roots, stop)
        assumed = [k for k in keys if stop and re.search(stop, k) and k not in roots and 'trusted' not in cs[k].opts]
        for r in roots:
            if r not in cs: raise SystemExit('no contract ' + r)
        res = prove(ext, cs, keys, w.dir, 6, assumed)
    elif roots: notes.append('extraction failed: ' + str(w.err))
    st.join(); s = box.get('s')
    viol = []
    known_in = {k: t for k, t in known(prop)}
    def cut(x): return hashlib.sha1(x.encode()).hexdigest()[:12]
    if s:
        for c, e, r in s['failures']:
            if cut(c) in known_in: print('KNOWN-FINDING: property=%s %s' % (prop, known_in[cut(c)])); continue
            viol.append((c, e, r))
        for c in s['errors']: notes.append('search worker: ' + c[-300:])
    undecided = {}; hard = {}; extra = None
    if res is not None:
        base = baseline(); changed = {}
        cons_changed = [k for k in set(base['consts']) | set(ext['consts']) if base['consts'].get(k) != (ext['consts'].get(k) or {}).get('expr')]
        for k in keys:
            try: f = ASM.find(ext, cs[k])
            except ASM.Lost: changed[k] = 9999; continue
            b = base['fns'].get(fnkey(f))
            changed[k] = 9999 if b is None else 0 if b == f['orig'] else difflen(toks(b), toks(f['orig']))
        for k, e in res['lost'].items(): undecided[k] = 'anchor lost: ' + str(e)
        for k, e in res['front'].items(): undecided[k] = 'outside the accepted subset: ' + e[0][:300]
        for k, e in res['soft'].items(): undecided[k] = 'solver limit: ' + e[0][:200]
        for k, e in res['failed'].items():
            d = changed.get(k, 0) + (3 * len(cons_changed))
            if k in ('*', 'ghost') : undecided[k] = 'ghost obligation failed: ' + str(e[0])[:400]; 
            elif spec.get('only') and not any(re.search(spec['only'], x['msg']) and not re.search(r'\blemma_\w+\(', x['text']) for x in e): undecided[k] = 'an obligation of another kind failed here: ' + e[0]['msg']
            elif (ASM.is_store(cs[k]) and not spec.get('storage')) or (spec.get('foreign') and re.search(spec['foreign'], k)): undecided[k] = 'obligation failed in a function whose contract another property states: ' + e[0]['msg']
            elif d == 0: undecided[k] = 'obligation failed on unchanged text: ' + e[0]['msg'] + ' line %d' % e[0]['line']
            elif d <= spec.get('maxdiff', 12): hard[k] = e
            else: undecided[k] = 'obligation failed after a restructuring (%d tokens): %s' % (d, e[0]['msg'])
        if (hard or undecided) and not viol and s is not None:
            extra = search(prop, w.exe, 45 if TIER == 'quick' else 150, SEED + 77, 7)
            for c, e, r in extra['failures']:
                if cut(c) not in known_in: viol.append((c, e, r))
    rc = 0
    if viol:
        c, e, r = viol[0]
        rp = ROOT + '/evidence/replay/%s.txt' % prop
        with open(rp, 'w') as f:
            f.write('property: %s\ncommand for the driver (driver/build.sh DIR; echo COMMAND | DIR/debug/pgn_driver): \n%s\n\nresult: %s\nwhy it is wrong: %s\n' % (prop, c, str(r)[:4000], str(e)[:4000]))
            for k, es in hard.items():
                for x in es: f.write('\nfailed obligation in %s:\n%s\n' % (k, x['text']))
        print('VIOLATION property=%s replay=%s' % (prop, rp)); rc = 1
    elif hard:
        rp = ROOT + '/evidence/replay/%s.txt' % prop
        with open(rp, 'w') as f:
            f.write('property: %s\nThe verifier rejects obligations that it accepted on the unchanged tree; no failing input was found (%d evaluations).\n' % (prop, (s or {}).get('evaluations', 0) + (extra or {}).get('evaluations', 0)))
            for k, es in hard.items():
                for x in es: f.write('\nfailed obligation in %s:\n%s\n' % (k, x['text']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)); rc = 1
    vac = None
    if TIER == 'thorough' and res is not None and res['ran'] and rc == 0: vac = vacuity(ext, cs, keys, w.dir, assumed)
    # ---- evidence
    if res is not None:
        real = [k for k in keys if 'trusted' not in cs[k].opts and k not in assumed]
        if assumed: cov['contracts_assumed_here_and_proved_elsewhere'] = assumed
        cov.update(obligations=len(res['times']), discharged=max(0, len(res['times']) - res['errors']), obligation_unit='one verification condition bundle per distinct function, lemma or recursive specification (a bundle holds every obligation Verus generates for that item)', lemmas_proved=res['lemmas'], chunks=res['chunks'], checker_cmd=res['cmd'], back_end='Verus 0.2026.09.13 / Z3',
                   functions_under_contract=len(real), functions_proved=len(res['proved']), proved=res['proved'], solver_ms=res['smt_ms'],
                   slowest=sorted(res['times'].items(), key=lambda x: -x[1])[:5], undecided=undecided,
                   trusted_base=P.trusted(cs, keys), primary=roots)
        if spec.get('lemmas'): cov['property_lemmas'] = spec['lemmas']
        if vac is not None: cov['vacuity'] = vac
        if undecided: notes.append('undecided by proof on this tree: ' + ', '.join(undecided) + '; the bounded search below stood in for them')
    if s:
        n = s['evaluations'] + (extra or {}).get('evaluations', 0)
        cov.update(evaluations=n, distinct_nontrivial=s['distinct'] + (extra or {}).get('distinct', 0),
                   rule='bounded cross-check of the real crate (debug build, overflow checks on): directed random inputs judged by lib/oracle.py; distinct = different driver commands', samples=s['samples'])
    if spec.get('bounded'): cov['bounded_not_proved'] = spec['bounded']
    if spec['level'] == 'other' or not cov: cov['explanation'] = spec['note']
    cov['notes'] = notes
    write_ev(ev_path, prop, spec, cov, spec.get('extra', []) + P.ASSUME, 1 if rc else 0)
    if rc == 0: print('OK property=%s proved=%s/%s obligations=%s search=%s%s' % (prop, len(res['proved']) if res else '-', cov.get('functions_under_contract', '-'), cov.get('discharged', '-'), cov.get('evaluations', 0), (' undecided: ' + ', '.join(undecided)) if undecided else ''))
    return rc

def vacuity(ext, cs, keys, wd, stop=()):
    """assert(false) at the entry of every function under contract must be rejected (contradictory preconditions would accept it)"""
    import copy
    cs2 = copy.deepcopy(cs)
    real = [k for k in keys if 'trusted' not in cs[k].opts and k not in stop]
    for k in real: cs2[k].parts['at begin'] = '    proof { assert(false); }\n'
    for k in real:
        for p in list(cs2[k].parts):
            if p.startswith('at ') and p != 'at begin' and not p.startswith('at inv'): cs2[k].parts[p] = ''
    hit = set(); ran = True
    for m in ('abs', 'def'):
        part = [k for k in real if ASM.is_store(cs[k]) == (m == 'def')]
        if not part: continue
        a = ASM.Assembly(ext, cs2, part, [k for k in keys if k not in part and (m == 'abs' or ASM.is_store(cs[k]) or cs[k].modname == 'var')] + [k for k in DEFNEED if m == 'def' and k not in keys], mode=m)
        # only entry matters: later obligations may fail or not
        path = wd + '/vac.rs'; open(path, 'w').write(a.text)
        j, err, cmd = verus(path, 6); ran &= j is not None
        for e in parse_errors(err, a):
            if e['key'] and 'assert(false)' in e['text']: hit.add(e['key'])
    miss = [k for k in real if k not in hit]
    if not ran or not hit: return {'status': 'not run', 'detail': err[-400:]}
    return {'checked': len(real), 'reachable': len(hit), 'not_shown_reachable': miss}

if __name__ == '__main__':
    if sys.argv[1] == '--setup':
        w = Work(); w.build(); e = w.extract() if 'ext' not in w.err else None; n = len(e['fns']) if e else 0; w.close()
        print('extractor and driver build: %s; %d functions extracted' % (w.err or 'ok', n)); sys.exit(0 if not w.err else 1)
    if sys.argv[1] == '--baseline':
        w = Work(); w.build(); e = w.extract(); w.close()
        json.dump(make_baseline(e), open(ROOT + '/contracts/baseline.json', 'w'), indent=0, sort_keys=True); sys.exit(0)
    try: rc = main(sys.argv[1])
    except Exception:
        import traceback; traceback.print_exc(); rc = 2
    sys.exit(rc)
