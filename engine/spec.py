"""Effect tables: the committed specification of what each anchored function does (specs/<unit>.spec), its text form,
and the comparison of a summary computed from the current source with its table."""
import re, hashlib
from logic import *
from interp import lin, mkeq, summary_roots, proj

LAMBDA = re.compile(r'\(lambda at [^)]*\)')
SHORT = [('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string'), ('pdaaal::TraceInfoType::', 'TI::'), ('pdaaal::Trace_Type::', 'TT::'), ('pdaaal::fut::type::', 'fut::'),
         ('pdaaal::parsing::', 'p::'), ('pdaaal::internal::', 'i::'), ('pdaaal::', ''), ('unsigned long', 'u64'), ('unsigned int', 'u32')]
ALLOC = re.compile(r', std::allocator<(?:[^<>]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)*>')
def norm_type(t):
    t = LAMBDA.sub('lambda', t)
    for a, b in SHORT[:1]: t = t.replace(a, b)
    t = ALLOC.sub('', t)
    for a, b in SHORT[1:]: t = t.replace(a, b)
    return t.replace('weight<void, void>', 'W0').replace('weight<u32, void>', 'Wu').replace('weight<int, void>', 'Wi')

def fkey(f):
    """identity of a function instantiation (independent of source positions)"""
    return norm_type('%s | %s | (%s)%s | %s | %s' % (f['qn'], f.get('cls') or '', ', '.join(p['t'] for p in f.get('params', [])), ' const' if f.get('const') else '', ', '.join(f.get('targs') or []), f.get('ret') or ''))

def dump(summary):
    """text lines of a summary"""
    names, defs = abbreviate(summary_roots(summary))
    out = ['let\t%s\t%s' % (n, d) for n, d in defs]
    eff = []
    for (ctx, t), v in summary['effects'].items():
        eff.append(('dom' if v[3] else 'do') + '\t%s\t%s\t%s' % (' ; '.join(render(c, names) for c in ctx), render(t, names), render_bdd(v[0], names)))
    out += eff
    for c, t in summary['ret']: out.append('ret\t%s\t%s' % (render(t, names), render_bdd(c, names)))
    return out

def canon(t):
    """canonical argument order after parsing"""
    return t

def parse_ctx(s, names):
    if not s: return ()
    p = Parser(s, names); l = [p.term()]
    while p.peek() == ';': p.i += 1; l.append(p.term())
    return tuple(l)

def load(lines):
    names = {}; eff = {}; ret = []
    for ln in lines:
        a = ln.split('\t')
        if a[0] == 'let': names[a[1]] = parse_term(a[2], names)
        elif a[0] in ('do', 'dom'): eff[(parse_ctx(a[1], names), parse_term(a[2], names))] = (parse_bdd(a[3], names), '', 0, a[0] == 'dom')
        elif a[0] == 'ret': ret.append((parse_bdd(a[2], names), parse_term(a[1], names)))
    return {'effects': eff, 'ret': ret, 'unknown': []}

def read_file(path):
    """[(key, meta, lines)]"""
    out = []
    for ln in open(path):
        ln = ln.rstrip('\n')
        if ln.startswith('== '): out.append((ln[3:], {}, []))
        elif ln.startswith('-- '): k, v = ln[3:].split(': ', 1); out[-1][1][k] = v
        elif ln: out[-1][2].append(ln)
    return out

# ------------------------------------------------------------------ comparison
class Diff:
    def __init__(self, kind, ctx, term, gexp, gact, file='', line=0):
        self.kind, self.ctx, self.term, self.gexp, self.gact, self.file, self.line = kind, ctx, term, gexp, gact, file, line
    def text(self):
        c = ''.join('for each iteration of [%s]: ' % short(render(x), 90) for x in self.ctx)
        what = {'missing': 'required effect is gone', 'extra': 'effect that the table does not allow', 'guard': 'condition of effect changed', 'ret': 'returned value changed', 'order': 'order of two operations on the same object changed: before'}[self.kind]
        s = '%s: %s%s' % (what, c, short(render(self.term), 400))
        if self.kind in ('guard', 'ret'): s += '\n      required when: %s\n      now happens when: %s' % (short(render_bdd(self.gexp), SW), short(render_bdd(self.gact), SW))
        elif self.kind == 'order': s += '\n      must come after: %s' % short(render(self.gexp), 400)
        elif self.kind == 'missing': s += '\n      required when: %s' % short(render_bdd(self.gexp), SW)
        else: s += '\n      now happens when: %s' % short(render_bdd(self.gact), SW)
        return s

import os as _os
SW = int(_os.environ.get('SW', 500))
def short(s, n): return s if len(s) <= n else s[:n] + '...'

BOOLOPS = ('B', 'eq', 'lt', 'empty', 'contains', 'exists', 'has')
def isbool(r): return any(t.op in BOOLOPS or t is TRUE_T or t is FALSE_T for c, t in r)

def retmap(r, bools):
    d = {}
    for c, t in r:
        if bools and t.op not in ('undef', 'indet', 'unk', 'none'):
            b = cond(t)
            d[TRUE_T] = OR(d.get(TRUE_T, 0), AND(c, b)); d[FALSE_T] = OR(d.get(FALSE_T, 0), AND(c, NOT(b)))
        else: d[t] = OR(d.get(t, 0), c)
    return d

def normalise(s):
    memo = {}
    f = lambda t: B(canonb(t.a[0])) if t.op == 'B' else CANON[t.op](list(t.a)) if t.op in CANON else t
    N = lambda t: subst(t, f, memo)
    G = lambda n: map_atoms(n, lambda a: cond(N(a)))
    eff = {}
    for (ctx, t), v in s['effects'].items():
        k = (tuple(N(c) for c in ctx), N(t)); o = eff.get(k)
        eff[k] = (OR(G(v[0]), o[0] if o else 0), v[1], v[2], bool(o) or v[3])
    return {'effects': eff, 'ret': [(G(c), N(t)) for c, t in s['ret']], 'unknown': s['unknown']}

def compare(exp, act):
    ds = compare1(exp, act)
    if ds:
        e, a = normalise(exp), normalise(act)
        ds = compare1(e, a)
        if ds:
            import norm
            d2 = compare1(norm.deep(e), norm.deep(a))
            if len(d2) < len(ds): ds = d2
    return ds

def expand(c, t):
    """alternatives of a conditional value"""
    if t.op != 'ite' or not isinstance(t.a[0], tuple): return [(c, t)]
    a = t.a[0]; out = []
    for i in range(0, len(a), 2): out += expand(AND(c, cond(a[i])), a[i + 1])
    return [(x, y) for x, y in out if x != 0]

def fields(exp, act):
    """returned records are compared field by field"""
    e = [x for c, t in exp for x in expand(c, t)]; a = [x for c, t in act for x in expand(c, t)]
    rs = [t for c, t in e + a if t.op == 'rec']
    if not rs: return [('', e, a)]
    fs = rs[0].a[1][0::2]
    if any(t.a[0] != rs[0].a[0] or t.a[1][0::2] != fs for t in rs): return [('', e, a)]
    out = []
    for f in fs:
        for s, x, y in fields([(c, proj(t, f)) for c, t in e], [(c, proj(t, f)) for c, t in a]): out.append(('.' + f + s, x, y))
    return out

def compare1(exp, act):
    ds = []
    E, A = exp['effects'], act['effects']
    for k in list(E) + [k for k in A if k not in E]:
        ge = E[k][0] if k in E else 0; ga = A[k][0] if k in A else 0
        if ge == ga or equal_under_care(ge, ga): continue
        f, l = (A[k][1], A[k][2]) if k in A else ('', 0)
        ds.append(Diff('missing' if k not in A else 'extra' if k not in E else 'guard', k[0], k[1], ge, ga, f, l))
    ds += order(E, A)
    for fld, re0, ra0 in fields(exp['ret'], act['ret']):
        bools = isbool(re0 + ra0)
        re_, ra = retmap(re0, bools), retmap(ra0, bools)
        for t in list(re_) + [t for t in ra if t not in re_]:
            ge, ga = re_.get(t, 0), ra.get(t, 0)
            if ge == ga or equal_under_care(ge, ga): continue
            ds.append(Diff('ret', (), t, ge, ga))
    return ds

SEQ = {'push', 'pop', '<<', 'operator<<', 'push_front', 'append', 'put', 'write', '+='}
def target(t):
    """object whose content depends on the order of such operations"""
    if t.op in ('do', 'out') and len(t.a) > 1 and t.a[0] in SEQ and isinstance(t.a[1], T): return t.a[1]
    return None

def order(E, A):
    """operations on one sequence object must keep their order"""
    by = {}
    ia = {k: i for i, k in enumerate(A)}
    for i, (k, v) in enumerate(E.items()):
        if v[3] or k not in A or A[k][3]: continue
        o = target(k[1])
        if o is not None: by.setdefault(o, []).append((i, k))
    ds = []
    for o, l in by.items():
        for n, (i, k) in enumerate(l):
            for j, k2 in l[n + 1:]:
                if ia[k] > ia[k2] and AND(E[k][0], E[k2][0]) != 0: ds.append(Diff('order', k[0], k[1], k2[1], 0, A[k][1], A[k][2]))
    return ds
