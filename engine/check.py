"""Decides one property: check.py <ID> [--tier quick|thorough].  Nothing of /repo is executed."""
import sys, os, re, json, time, tempfile, signal, multiprocessing as mp, traceback, collections, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import units, spec, anchors
from props import PROPS
from boundary import opaque
from interp import Prog, Interp
import classify

EVID = os.environ.get('PDAAAL_EVID', os.path.join(units.VERIF, 'evidence'))
LIMIT = 60      # seconds per function
def _alarm(*a): raise TimeoutError('analysis time limit')

def summarize(p, i, through=()):
    it = Interp(p, (lambda f: opaque(f) and it.fname(f) not in through) if through else opaque)
    if p.fn(i)['qn'].startswith('pdaaal::fut::'): it.own_container = True
    return it.summarize(i)

def called(s):
    """names of the repository functions a summary refers to"""
    out = set(); seen = set()
    for r in spec.summary_roots(s):
        for x in spec.walk(r, seen):
            if x.op in ('do', 'out', 'call', 'res', 'iter_of', 'fresh') and x.a and isinstance(x.a[0], str) and x.a[0].startswith('pdaaal::'): out.add(x.a[0])
    return out

def select(unit, pats, tier):
    """[(key, meta, lines)] of the tables of this property"""
    allspecs = spec.read_file(os.path.join(units.VERIF, 'specs', unit + '.spec'))
    text = {m['id']: l for _, m, l in allspecs if 'id' in m}
    rx = [re.compile(x) for x in pats]
    out = []
    taken = set()
    for k, m, l in allspecs:
        if not any(r.search(k) for r in rx): continue
        n = m.get('id', m.get('same'))
        if tier == 'quick' and n in taken: continue
        taken.add(n); out.append((k, m, text[n]))
    return out, {k for k, _, _ in allspecs}

def decide_unit(unit, pats, tier, path):
    """-> list of result records"""
    signal.signal(signal.SIGALRM, _alarm)
    res = []
    data = json.load(open(path)); p = Prog(data)
    sel, allkeys = select(unit, pats, tier)
    byk = {}; byqc = {}
    for i, f in p.fns.items():
        if not anchors.candidate(f): continue
        k = spec.fkey(f); byk.setdefault(k, []).append(i)
        byqc.setdefault(tuple(k.split(' | ')[:2]), []).append((k, i))
    voc = classify.vocabulary(unit)
    spk = {}
    for k, m, l in sel: spk.setdefault(k, []).append((m, l))
    for k, alts in spk.items():
        ids = byk.get(k)
        r = {'unit': unit, 'key': k}
        if not ids:
            c = [(kk, i) for kk, i in byqc.get(tuple(k.split(' | ')[:2]), []) if kk not in allkeys]
            c = [(kk, i) for kk, i in c if len(p.fn(i).get('params', [])) == k.split(' | ')[2].count(',') + (0 if k.split(' | ')[2].startswith('()') else 1)] or c
            if len(c) == 1: ids = [c[0][1]]
        if not ids:
            r['status'] = 'absent'; res.append(r); continue
        for i in ids:
            f = p.fn(i); r = {'unit': unit, 'key': k, 'file': f.get('file'), 'line': f.get('line'), 'fn': f['qn']}
            signal.alarm(LIMIT)
            try:
                act = summarize(p, i)
                best = None
                for m, l in alts:
                    exp = spec.load(l)
                    ds = spec.compare(exp, act)
                    if best is None or len(ds) < len(best[1]): best = (exp, ds)
                    if not ds: break
                if best[1]:
                    # calls that the table does not know are looked through
                    new = called(act) - set().union(*[called(spec.load(l)) for m, l in alts])
                    if new:
                        act2 = summarize(p, i, new)
                        for m, l in alts:
                            exp = spec.load(l); ds = spec.compare(exp, act2)
                            if len(ds) < len(best[1]): best = (exp, ds); act = act2
                r['effects'] = len(act['effects']) + len(act['ret'])
                if not best[1]: r['status'] = 'ok'
                else:
                    v, why, ds = classify.judge(best[0], act, best[1], voc, p)
                    r['status'] = v; r['why'] = why
                    r['diffs'] = [(d.kind, d.file, d.line, d.text()) for d in ds[:12]]
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt): raise
                r['status'] = 'undecided'; r['why'] = 'analysis: ' + repr(e)[:200]
                if os.environ.get('DEBUG'): traceback.print_exc()
            finally: signal.alarm(0)
            res.append(r)
    return res

def worker(a):
    unit, pats, tier, path = a
    try: return decide_unit(*a)
    except BaseException as e: return [{'unit': unit, 'key': '*', 'status': 'undecided', 'why': 'unit: ' + repr(e)[:300]}]

def known(pid):
    """signatures listed as known findings: {signature: text}"""
    out = {}
    try:
        for ln in open(os.path.join(units.VERIF, 'known-findings.txt')):
            m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', ln)
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    except OSError: pass
    return out

def main():
    pid = sys.argv[1]; tier = 'thorough' if 'thorough' in sys.argv[2:] else 'quick'
    t0 = time.time()
    units.build_frontend()
    d = tempfile.mkdtemp(prefix='pdaaal-check-')
    try: rc = run(pid, tier, d, t0)
    finally: shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)

def run(pid, tier, d, t0):
    sel = PROPS[pid]
    ps = {u: units.start_frontend(u, d) for u in sel}
    jobs = []
    errs = {}
    with mp.Pool(min(8, len(sel) + 1)) as pool:
        futs = []
        for u, (pr, out) in sorted(ps.items(), key=lambda x: x[0] == 'bin'):
            pr.wait(); errs[u] = units.errors(d, u)
            futs.append(pool.apply_async(worker, ((u, sel[u], tier, out),)))
        res = [r for f in futs for r in f.get()]
    import bespoke
    extra = bespoke.run(pid, ps, d)
    st = collections.Counter(r['status'] for r in res)
    kn = known(pid)
    viol = [r for r in res if r['status'] == 'violation'] + extra['violations']
    os.makedirs(EVID, exist_ok=True)
    print('property %s (%s): %d functions compared with their effect tables, %d equal, %d absent, %d undecided, %d differing; %d further obligations' % (pid, tier, len(res), st['ok'], st['absent'], st['undecided'], st['violation'], extra['obligations']))
    for u in errs:
        if errs[u]: print('note: unit %s has compile errors: %s' % (u, errs[u][0].strip()[:200]))
    for r in res:
        if r['status'] == 'undecided': print('undecided: %s: %s' % (r['key'][:160], r.get('why', '')[:300]))
        elif r['status'] == 'absent': print('absent: %s' % r['key'][:160])
    rep = os.path.join(EVID, pid + '.violation.txt')
    if os.path.exists(rep): os.remove(rep)
    new = []
    for r in viol:
        if r.get('sig') in kn: print('KNOWN-FINDING: property=%s %s' % (pid, kn[r['sig']]))
        else: new.append(r)
    if new:
        with open(rep, 'w') as o:
            for r in new:
                o.write('%s (%s:%s)\n   table: %s [%s]\n' % (r.get('fn'), r.get('file'), r.get('line'), r['key'], r['unit']))
                for dd in r.get('diffs', []): o.write('   %s:%s %s\n' % (dd[1], dd[2], dd[3]))
                o.write('\n')
        for r in new[:6]:
            print('  %s:%s %s' % (r.get('file'), r.get('line'), r.get('fn')))
            for dd in r.get('diffs', [])[:2]: print('     ' + dd[3][:400])
    ok = st['ok']
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
          'coverage': {'explanation': 'Static: every function listed was summarised from the type-checked AST of the current source (guarded effects per loop context, guarded return values) and compared, effect by effect and condition by condition (BDD equality), with its committed effect table; plus the listed structural obligations.',
                       'functions_compared': len(res), 'functions_equal': ok, 'functions_absent': st['absent'], 'functions_undecided': st['undecided'], 'effects_compared': sum(r.get('effects', 0) for r in res), 'further_obligations': extra['obligations'], 'further_rules': extra['rules'],
                       'units': sorted(sel), 'compile_errors': {u: len(e) for u, e in errs.items()},
                       'anchors': sorted({r['key'].split(' | ')[0] for r in res}),
                       'undecided': [{'key': r['key'][:200], 'why': r.get('why', '')[:200]} for r in res if r['status'] in ('undecided', 'absent')],
                       'samples': [{'fn': r['key'][:200], 'effects': r.get('effects')} for r in res[:5]]},
          'assumptions': ['standard-library and third-party calls behave as their modelled vocabulary', 'compiled with the options of the units (NDEBUG, C++20) and the functional ptrie stand-in', 'distinct access paths do not alias unless one is a prefix of the other'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rep)); return 1
    if not ok:
        print('analysis broken: no table of this property could be compared'); return 2
    return 0

if __name__ == '__main__': main()
