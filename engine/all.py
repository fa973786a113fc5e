"""Development aid: run every table on a tree (PDAAAL_REPO) and print what is not equal, with the properties concerned.  all.py [unit...]"""
import sys, os, tempfile, re, time, multiprocessing as mp
import units, check
from props import PROPS
def one(a):
    u, path = a
    return check.worker((u, ['.'], 'quick', path))
if __name__ == '__main__':
    us = [x for x in sys.argv[1:] if x in units.UNITS] or units.UNITS
    verbose = '-v' in sys.argv
    t = time.time()
    with tempfile.TemporaryDirectory() as d:
        ps = {u: units.start_frontend(u, d) for u in us}
        with mp.Pool(6) as pool:
            fs = []
            for u in sorted(us, key=lambda x: x == 'bin'):
                ps[u][0].wait()
                e = units.errors(d, u)
                if e: print('COMPILE', u, e[0].strip()[:200])
                fs.append((u, pool.apply_async(one, ((u, ps[u][1]),))))
            for u, f in fs:
                for r in f.get():
                    if r['status'] == 'ok': continue
                    pr = [p for p, s in PROPS.items() if any(re.search(x, r['key']) for x in s.get(u, []))]
                    print(r['status'].upper(), u, r['key'][:110], ' '.join(pr), r.get('why', '')[:150])
                    if verbose:
                        for dd in r.get('diffs', [])[:4]: print('     %s:%s %s' % (dd[1], dd[2], dd[3][:int(os.environ.get('W', '700'))]))
    print('%.0fs' % (time.time() - t))
