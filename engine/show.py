import sys, json, re, time
from interp import *
from boundary import opaque
def load(unit): return Prog(json.load(open('/tmp/%s.json' % unit)))
if __name__ == '__main__':
    p = load(sys.argv[1]); pat = sys.argv[2]; lim = int(sys.argv[3]) if len(sys.argv) > 3 else 99
    opq = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
    n = 0
    for i, f in p.fns.items():
        if re.search(pat, f['qn'] + ' ' + (f.get('cls') or '')) and 'body' in f:
            n += 1
            if n > lim: break
            it = Interp(p, (lambda g: bool(opq.search(g['qn']))) if opq else opaque)
            print('=== %s %s %s %s:%s' % (i, f['qn'], f.get('cls', ''), f.get('file'), f.get('line')))
            t = time.time()
            try: print(show(it.summarize(i)))
            except Exception as e:
                import traceback; traceback.print_exc()
            print('   -- %.2fs steps=%d' % (time.time() - t, it.steps))
