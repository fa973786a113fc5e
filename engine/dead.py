"""Development aid: statements of analysed functions that no summary ever reaches (holes in the analysis).  dead.py [unit...]"""
import sys, json, signal, tempfile, collections
import units, anchors, spec
from interp import Prog, Interp
from boundary import opaque
def stmts(s, out):
    if isinstance(s, list):
        if s and isinstance(s[0], str) and s[0] in ('expr','decl','if','ret','rfor','while','for','do','switch','break','cont','try') and len(s) > 1 and isinstance(s[1], int): out.append(s)
        for x in s: stmts(x, out)
    elif isinstance(s, dict):
        for x in s.values(): stmts(x, out)
def h(*a): raise TimeoutError()
signal.signal(signal.SIGALRM, h)
seen = collections.defaultdict(set)   # (file,line,kind) -> {0,1}
with tempfile.TemporaryDirectory() as d:
    us = sys.argv[1:] or units.UNITS
    ps = {u: units.start_frontend(u, d) for u in us}
    for u in us:
        ps[u][0].wait(); p = Prog(json.load(open(ps[u][1])))
        cov = set(); ln = {}
        done = set()
        for i, f in p.fns.items():
            if not anchors.anchored(f, u): continue
            k = spec.fkey(f)
            it = Interp(p, opaque); it.cover = cov
            if f['qn'].startswith('pdaaal::fut::'): it.own_container = True
            signal.alarm(60)
            try: it.summarize(i)
            except BaseException as e: print('ERR', f['qn'], repr(e)[:80])
            finally: signal.alarm(0)
        for i, f in p.fns.items():
            if 'body' not in f or not f.get('file') or f['file'].startswith('/'): continue
            l = []; stmts(f['body'], l)
            for s in l: seen[(f['file'], s[1], s[0], f['qn'])].add(id(s) in cov)
bad = sorted(k for k, v in seen.items() if v == {False})
for k in bad: print('%s:%d %s  %s' % k)
print(len(bad), 'of', len(seen))
