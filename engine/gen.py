"""Writes specs/<unit>.spec from the current tree.  Run by hand after reviewing a change; never run by a check."""
import sys, os, json, tempfile, signal, time
from interp import Prog, Interp
import spec, units, anchors
from boundary import opaque

def gen(unit, data, seen):
    p = Prog(data); out = []; byq = {}; byid = {}
    for i, f in p.fns.items():
        if not anchors.anchored(f, unit): continue
        k = spec.fkey(f)
        if (k in seen and seen[k] != unit): continue
        seen[k] = unit
        signal.alarm(60)
        try: s = summarize(p, i)
        except BaseException as e:
            print('skip', f['qn'], repr(e)[:100], flush=True); continue
        finally: signal.alarm(0)
        if s['unknown']: print('unknown in', k[:120], s['unknown'][:2])
        txt = '\n'.join(spec.dump(s))
        g = byq.setdefault((f['qn'], txt), [])
        if k in g: continue
        g.append(k); out.append((k, byid.setdefault((f['qn'], txt), len(byid)) , len(g) > 1, txt, f['file']))
    with open(os.path.join(units.VERIF, 'specs', unit + '.spec'), 'w') as o:
        for k, n, same, txt, fl in out:
            o.write('== %s\n-- file: %s\n' % (k, fl))
            if same: o.write('-- same: %d\n' % n)
            else: o.write('-- id: %d\n' % n + (txt + '\n' if txt else ''))
    print(unit, len(out), 'tables', len(byq), 'distinct', flush=True)

def summarize(p, i):
    f = p.fn(i)
    it = Interp(p, opaque)
    if f['qn'].startswith('pdaaal::fut::'): it.own_container = True
    return it.summarize(i)

if __name__ == '__main__':
    def h(*a): raise TimeoutError()
    signal.signal(signal.SIGALRM, h)
    us = sys.argv[1:] or units.UNITS
    units.build_frontend()
    with tempfile.TemporaryDirectory() as d:
        ps = {u: units.start_frontend(u, d) for u in units.UNITS}
        for u in units.UNITS: ps[u][0].wait()
        seen = {}
        for u in units.UNITS:
            e = units.errors(d, u)
            if e: print('COMPILE', u, e[:3])
            data = json.load(open(ps[u][1]))
            if u in us: gen(u, data, seen)
            else:
                for f in data['fns'].values():
                    if anchors.anchored(f, u): seen.setdefault(spec.fkey(f), u)
        import grammar
        grammar.dump({u: json.load(open(ps[u][1])) for u in ('nfaparser', 'bin')})
