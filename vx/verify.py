"""Runs the verifier over one unit and says, function by function, which
obligations it discharged."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
from extract import Unit

VERUS = shutil.which('verus') or '/opt/veriftools/verus/verus'

def run_verus(text, name, work, multi=2, air=False, timeout=600):
    d = os.path.join(work, f'{name}-{time.monotonic_ns()}')
    os.makedirs(d)
    src = os.path.join(d, re.sub(r'\W', '_', name) + '.rs')
    open(src, 'w').write(text)
    cmd = [VERUS, src, '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--error-format=json',
           '--multiple-errors', str(multi), '--no-report-long-running']
    if air: cmd += ['--log', 'air', '--log-dir', os.path.join(d, 'log')]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        out, err, rc = p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace'), p.returncode
    except subprocess.TimeoutExpired:
        return dict(ok=False, timeout=True, diags=[], json=None, wall=time.time() - t0, dir=d, raw='timeout', src=src)
    diags = []
    for l in err.split('\n'):
        if l.startswith('{'):
            try: m = json.loads(l)
            except ValueError: continue
            if m.get('level') == 'error':
                # where a macro was used counts too
                for s in list(m.get('spans', [])):
                    while s.get('expansion'):
                        s = dict(s['expansion']['span'], is_primary=s.get('is_primary'), label='')
                        m['spans'].append(s)
                diags.append(m)
    try: js = json.loads(out[out.index('{'):])
    except ValueError: js = None
    return dict(ok=rc == 0, timeout=False, diags=diags, json=js, wall=time.time() - t0, dir=d, raw=err, src=src)

# errors that come from a discharged-or-not obligation; anything else is the tool refusing the text
OBL = re.compile(r'postcondition|precondition|invariant|assertion|overflow|underflow|decreases|recommend|'
                 r'index|bounds|division by zero|shift|unreachable|termination|not satisfied|may panic', re.I)
UNK = re.compile(r'rlimit|resource limit|timed? ?out|unknown', re.I)

def obligation_name(m):
    """the message and the contract line it is about"""
    lab = []
    for s in m.get('spans', []):
        t = ' '.join(x['text'].strip() for x in s.get('text', [])[:2])
        if not s.get('is_primary') and 'failed' in (s.get('label') or '') or s.get('is_primary'):
            lab.append(t)
    return m['message'] + (': ' + ' / '.join(lab) if lab else '')

def count_obligations(d):
    n = {}
    log = os.path.join(d, 'log')
    if not os.path.isdir(log): return n
    for f in os.listdir(log):
        if not f.endswith('.air'): continue
        cur = None
        for l in open(os.path.join(log, f), errors='replace'):
            if l.startswith(';; Function-Def '):
                cur = l.split(' ', 2)[2].strip().split('::', 1)[-1]
            elif l.startswith(';; Function-') or l.startswith(';; Broadcast'): cur = None
            elif cur and '(assert' in l: n[cur] = n.get(cur, 0) + l.count('(assert')
    return n

def ran(v):
    """the text was accepted and verification was done"""
    vr = (v['json'] or {}).get('verification-results', {})
    if 'verified' not in vr or vr.get('encountered-vir-error') or not vr['verified'] + vr.get('errors', 0): return False
    return not any(m.get('code') for m in v['diags'])

class Result:
    pass

def verify(name, work, vacuity=True, timeout=600, log=None):
    """-> Result: fns {name: {status, errors, src..}} with status proved | failed | unknown | lost"""
    stub, drop = {}, {}
    r = Result()
    r.unit, r.rounds = name, 0
    t00 = time.time()
    while True:
        u = Unit(name, stub=stub, drop=drop)
        text = u.build()
        v = run_verus(text, name, work, air=True, timeout=timeout)
        r.rounds += 1
        compiled = ran(v)
        if v['ok'] or compiled and not v['timeout'] or r.rounds >= 8: break
        # the tool refused the text: stub the functions it points at
        bad = {}
        for m in v['diags']:
            for f in u.fns:
                for s in m.get('spans', []):
                    if s['file_name'].endswith('.rs') and f['a'] <= s['line_start'] <= f['b']:
                        bad.setdefault(f['name'], m['message'])
        bad = {k: x for k, x in bad.items() if k not in drop}
        if not bad: break
        for k, x in bad.items():
            if k in stub: drop[k] = x
            else: stub[k] = x
    r.text, r.u, r.v = text, u, v
    r.compiled = v['ok'] or compiled
    fns = {}
    for f in u.fns:
        fns[f['name']] = dict(status='lost' if f['stub'] or not r.compiled else 'proved', errors=[], **f)
    for n, why in u.lost:
        fns.setdefault(n, dict(name=n, errors=[], file='', src_line=0, stub=True))
        fns[n]['status'] = 'lost'; fns[n]['why'] = why
    r.model = []     # failures in lemmas of ours
    if not r.compiled:
        for f in fns.values():
            if f['status'] == 'lost': f.setdefault('why', 'the unit was not accepted: ' + (v['diags'][0]['message'] if v['diags'] else v['raw'][-300:]))
    else:
        for m in v['diags']:
            if not m.get('spans'): continue
            prim = [s for s in m['spans'] if s.get('is_primary')] or m['spans']
            hit = None
            for f in u.fns:
                if any(f['a'] <= s['line_start'] <= f['b'] for s in prim): hit = f['name']
            if hit is None:
                for f in u.fns:
                    if any(f['a'] <= s['line_start'] <= f['b'] for s in m['spans']): hit = f['name']
            st = 'unknown' if UNK.search(m['message']) else 'failed'
            e = dict(kind=st, obligation=obligation_name(m), text=m.get('rendered') or m['message'])
            if hit is None: r.model.append(e); continue
            fns[hit]['errors'].append(e)
            if st == 'failed' or fns[hit]['status'] != 'failed': fns[hit]['status'] = st
    lh = {}
    for n, pat in u.losthints: lh.setdefault(n, []).append(pat)
    for n, ps in lh.items():
        if n in fns and fns[n]['status'] in ('failed', 'unknown'):
            fns[n]['status'] = 'lost'
            fns[n]['why'] = 'proof hint has no place any more: ' + '; '.join(ps)
    r.fns = fns
    # obligations, time
    obl = count_obligations(v['dir'])
    r.obligations = obl
    r.smt_ms, r.fn_ms = 0, {}
    try:
        for m in v['json']['times-ms']['smt']['smt-run-module-times']:
            for f in m.get('function-breakdown', []):
                r.fn_ms[f['function'].split('::', 1)[-1]] = f['time']
        r.smt_ms = v['json']['times-ms']['smt']['smt-run']
    except (KeyError, TypeError): pass
    # vacuity: `assert(false)` behind every precondition and in every loop has to fail
    r.vacuous, r.vacuity = [], 'not run'
    if vacuity and r.compiled:
        r.vacuity = 'run'
        def one(variant):
            uu = Unit(name, variant=variant, stub=stub, drop=drop)
            return variant, uu, run_verus(uu.build(), f'{name}-{variant}', work, multi=0, timeout=timeout)
        with concurrent.futures.ThreadPoolExecutor(2) as ex: runs = list(ex.map(one, ('vac-fn', 'vac-loop')))
        for variant, uu, vv in runs:
            shutil.rmtree(vv['dir'], ignore_errors=True)
            if not ran(vv):
                r.vacuity = 'not run'; continue
            hits = set()
            for m in vv['diags']:
                for s in m.get('spans', []):
                    for f in uu.fns:
                        if f['a'] <= s['line_start'] <= f['b']: hits.add(f['name'])
            for f in uu.fns:
                if f['stub']: continue
                if (variant == 'vac-fn' or f['loops']) and f['name'] not in hits and fns[f['name']]['status'] == 'proved':
                    r.vacuous.append((variant, f['name']))
                    fns[f['name']]['status'] = 'unknown'
                    fns[f['name']]['why'] = 'the contract is vacuous'
    r.assumptions = scan(text)
    r.rewrites = dict(u.rwlog)
    r.used = {k: sorted(set(v)) for k, v in u.used.items()}
    r.wall = time.time() - t00
    shutil.rmtree(v['dir'], ignore_errors=True)
    return r

def scan(text):
    """mechanical scan for whatever is assumed rather than proved"""
    out = []
    lines = text.split('\n')
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('//') or '// proved in ' in s: continue
        if 'external_body' in s or re.search(r'\bassume_specification\b|\baxiom fn\b|\bassume\s*\(|\badmit\s*\(|verifier::external\b', s):
            j = i
            while j < len(lines) and not re.search(r'\b(fn|struct|impl|enum|assume_specification)\b', lines[j]): j += 1
            m = re.search(r'(assume_specification.*?\]|(?:axiom |proof )?fn\s+\w+|struct\s+\w+|impl\b[^{]*)', lines[j] if j < len(lines) else s)
            what = (m.group(1) if m else s).strip()
            kind = 'axiom' if 'axiom' in s else 'assumed contract' if 'external_body' in s or 'assume_spec' in s else 'external' if 'external' in s else 'assume'
            out.append(f'{kind}: {what}')
        elif re.search(r'\buninterp spec fn\b', s):
            out.append('uninterpreted: ' + re.search(r'fn\s+(\w+)', s).group(1))
    return sorted(set(out))

if __name__ == '__main__':
    work = tempfile.mkdtemp(prefix='vx')
    try:
        for n in sys.argv[1:]:
            r = verify(n, work)
            print(n, 'compiled' if r.compiled else 'NOT COMPILED', 'rounds', r.rounds, f'{r.wall:.1f}s smt {r.smt_ms}ms obligations', sum(r.obligations.values()))
            for f in r.fns.values():
                if f['status'] != 'proved':
                    print(' ', f['name'], f['status'], f.get('why', ''))
                    for e in f['errors']: print('     ', e['kind'], e['obligation'][:300])
            for e in r.model: print('  MODEL', e['text'][:600])
            print('  vacuous', r.vacuous)
            if not r.compiled: print('\n'.join(m.get('rendered', '') for m in r.v['diags'])[:3000] or r.v['raw'][-2000:])
    finally: shutil.rmtree(work, ignore_errors=True)
