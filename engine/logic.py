"""Hash-consed terms and reduced ordered BDDs over term atoms.

A term is an interned node T(op, args).  Conditions are BDD node numbers over atoms (terms).
Nothing here is solver based: BDDs are only used as a canonical form for guard expressions.
"""
import sys
sys.setrecursionlimit(100000)

class T:
    __slots__ = ('op', 'a', 'id', '_s', 'fl', 'k')
    def __repr__(self): return render(self)

_tab = {}
_cnt = [0]

def mk(op, *args):
    key = (op,) + args
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.a = args; _cnt[0] += 1; t.id = _cnt[0]; t._s = None; t.fl = None; t.k = None
        _tab[key] = t
    return t

# T objects hash/eq by identity (default object semantics); ints/strs in args hash by value.

TRUE_T = mk('true'); FALSE_T = mk('false')

# ---------------------------------------------------------------- BDD
var_of = {}      # atom T -> var index
atoms = []       # var index -> atom T
NV = [(1 << 60), (1 << 60)]; LO = [0, 1]; HI = [0, 1]
_uniq = {}
_ite = {}
class TooLarge(Exception): pass
limit = [1 << 60]

def _node(v, lo, hi):
    if lo == hi: return lo
    k = (v, lo, hi); n = _uniq.get(k)
    if n is None:
        n = len(NV)
        if n > limit[0]: raise TooLarge()
        NV.append(v); LO.append(lo); HI.append(hi); _uniq[k] = n
    return n

def ite(f, g, h):
    if f == 1: return g
    if f == 0: return h
    if g == h: return g
    if g == 1 and h == 0: return f
    k = (f, g, h); r = _ite.get(k)
    if r is not None: return r
    v = min(NV[f], NV[g], NV[h])
    def c(n, b): return (HI[n] if b else LO[n]) if NV[n] == v else n
    r = _node(v, ite(c(f, 0), c(g, 0), c(h, 0)), ite(c(f, 1), c(g, 1), c(h, 1)))
    _ite[k] = r
    return r

def AND(a, b): return ite(a, b, 0)
def OR(a, b): return ite(a, 1, b)
def NOT(a): return ite(a, 0, 1)
def XOR(a, b): return ite(a, NOT(b), b)
def IMP(a, b): return ite(a, b, 1)

def var(atom):
    i = var_of.get(atom)
    if i is None:
        i = len(atoms); atoms.append(atom); var_of[atom] = i
    return _node(i, 0, 1)

def support(n):
    seen = set(); vs = set(); st = [n]
    while st:
        x = st.pop()
        if x < 2 or x in seen: continue
        seen.add(x); vs.add(NV[x]); st.append(LO[x]); st.append(HI[x])
    return vs

def support_atoms(n): return [atoms[v] for v in support(n)]

def cofactor(n, v, b, memo=None):
    if memo is None: memo = {}
    if n < 2 or NV[n] > v: return n
    if NV[n] == v: return HI[n] if b else LO[n]
    r = memo.get(n)
    if r is None:
        r = _node(NV[n], cofactor(LO[n], v, b, memo), cofactor(HI[n], v, b, memo)); memo[n] = r
    return r

def exists_var(n, v): return OR(cofactor(n, v, 0), cofactor(n, v, 1))

def map_atoms(n, f, memo=None):
    """rebuild BDD with every atom replaced by BDD f(atom)"""
    if memo is None: memo = {}
    if n < 2: return n
    r = memo.get(n)
    if r is None:
        r = ite(f(atoms[NV[n]]), map_atoms(HI[n], f, memo), map_atoms(LO[n], f, memo)); memo[n] = r
    return r

def isop(L, U, memo=None):
    """Minato-Morreale irredundant SOP between L and U: returns (list of cubes, bdd); cube = dict var->bool"""
    if memo is None: memo = {}
    if L == 0: return [], 0
    if U == 1: return [{}], 1
    k = (L, U)
    if k in memo: return memo[k]
    v = min(NV[L], NV[U])
    def c(n, b): return (HI[n] if b else LO[n]) if NV[n] == v else n
    L0, L1, U0, U1 = c(L, 0), c(L, 1), c(U, 0), c(U, 1)
    c0, f0 = isop(AND(L0, NOT(U1)), U0, memo)
    c1, f1 = isop(AND(L1, NOT(U0)), U1, memo)
    Ld = OR(AND(L0, NOT(f0)), AND(L1, NOT(f1)))
    cd, fd = isop(Ld, AND(U0, U1), memo)
    cubes = [dict(x, **{}) for x in cd]
    for x in c0: y = dict(x); y[v] = False; cubes.append(y)
    for x in c1: y = dict(x); y[v] = True; cubes.append(y)
    f = OR(fd, _node(v, OR(f0, 0), OR(f1, 0)) if f0 != f1 else f0)
    memo[k] = (cubes, f)
    return cubes, f

# ---------------------------------------------------------------- booleans as terms
def B(n):
    """term for a condition"""
    if n == 1: return TRUE_T
    if n == 0: return FALSE_T
    if LO[n] == 0 and HI[n] == 1: return atoms[NV[n]]
    return mk('B', n)

def cond(t):
    """condition for a (boolean) term"""
    if t is TRUE_T: return 1
    if t is FALSE_T: return 0
    if t.op == 'B': return t.a[0]
    if t.op == 'int': return 0 if t.a[0] == 0 else 1
    return var(t)

# ---------------------------------------------------------------- care set
_eqc = {}       # term x -> {const term: atom}
ENUMS = {}      # enum type -> list of enumerator names

def register_eq(atom):
    a, b = atom.a
    if a.op in ('int', 'enum', 'str', 'null'): a, b = b, a
    if b.op in ('int', 'enum', 'str', 'null'):
        _eqc.setdefault(a, {})[b] = atom

def care(*nodes):
    """constraints between the atoms occurring in the given BDDs"""
    vs = set()
    for n in nodes: vs |= support(n)
    ats = [atoms[v] for v in vs]
    r = 1
    byx = {}
    for at in ats:
        if at.op == 'eq':
            a, b = at.a
            if a.op in ('int', 'enum', 'str', 'null'): a, b = b, a
            if b.op in ('int', 'enum', 'str', 'null'): byx.setdefault(a, []).append((b, at))
    for x, l in byx.items():
        for i in range(len(l)):
            for j in range(i): r = AND(r, NOT(AND(var(l[i][1]), var(l[j][1]))))
        if l[0][0].op == 'enum':
            names = ENUMS.get(l[0][0].a[1])
            if names and set(names) <= {c.a[0] for c, _ in l}:
                o = 0
                for _, at in l: o = OR(o, var(at))
                r = AND(r, o)
    lts = {}
    for at in ats:
        if at.op in ('lt', 'eq') and not at.a[0].op == 'null':
            k = frozenset((at.a[0], at.a[1])); lts.setdefault(k, []).append(at)
    for k, l in lts.items():
        if len(l) < 2: continue
        for i in range(len(l)):
            for j in range(i): r = AND(r, NOT(AND(var(l[i]), var(l[j]))))
        if len(l) == 3:
            r = AND(r, OR(OR(var(l[0]), var(l[1])), var(l[2])))
    # transitivity-lite: lt(x,c1) -> lt(x,c2) for int consts c1<=c2 ; eq(x,c) vs lt
    ints = {}
    for at in ats:
        if at.op in ('lt', 'eq'):
            a, b = at.a
            if b.op == 'int' and a.op != 'int': ints.setdefault(a, []).append((at.op, b.a[0], at))
            elif a.op == 'int' and b.op != 'int': ints.setdefault(b, []).append(('gt' if at.op == 'lt' else 'eq', a.a[0], at))
    for x, l in ints.items():
        if len(l) < 2: continue
        def val(o, c, v): return v < c if o == 'lt' else v > c if o == 'gt' else v == c
        pts = set()
        for _, c, _ in l: pts |= {c - 1, c, c + 1}
        o = 0
        for v in pts:
            cube = 1
            for (op, c, at) in l: cube = AND(cube, var(at) if val(op, c, v) else NOT(var(at)))
            o = OR(o, cube)
        r = AND(r, o)
    return r

def equal_under_care(f, g):
    d = XOR(f, g)
    if d == 0: return True
    return AND(d, care(f, g)) == 0

_satm = {}
def sat(f):
    r = _satm.get(f)
    if r is None: r = _satm[f] = sat1(f)
    return r
def sat1(f):
    if f == 0: return False
    if f == 1: return True
    return AND(f, care(f)) != 0

# ---------------------------------------------------------------- substitution
CANON = {}   # operator -> rebuild with canonically ordered arguments

def subst(t, fn, memo=None):
    """bottom-up rewriting; fn(T)->T applied to rebuilt nodes; handles conditions embedded in terms"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    if t.op == 'B':
        r = B(map_atoms(t.a[0], lambda at: cond(subst(at, fn, memo))))
        if r.op == 'B': r = fn(r)
    else:
        args = []
        ch = False
        for x in t.a:
            if isinstance(x, T):
                y = subst(x, fn, memo); ch = ch or (y is not x); args.append(y)
            elif isinstance(x, tuple):
                y = tuple(subst(z, fn, memo) if isinstance(z, T) else z for z in x); ch = ch or y != x; args.append(y)
            else: args.append(x)
        r = (CANON[t.op](args) if t.op in CANON else mk(t.op, *args)) if ch else t
        r = fn(r)
    memo[t] = r
    return r

def subst_bdd(n, fn, memo=None):
    if memo is None: memo = {}
    return map_atoms(n, lambda at: cond(subst(at, fn, memo)))

def walk(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); yield x
        if x.op == 'B':
            st.extend(support_atoms(x.a[0]))
        else:
            for y in x.a:
                if isinstance(y, T): st.append(y)
                elif isinstance(y, tuple): st.extend(z for z in y if isinstance(z, T))

def contains(t, pred):
    return any(pred(x) for x in walk(t))

import hashlib as _hl
_P = (1 << 61) - 1
def _wmodels(n, memo):
    """order-independent fingerprint of a boolean function: its value as a multilinear polynomial at a point given by the atoms' keys"""
    if n < 2: return n
    r = memo.get(n)
    if r is None:
        w = int(skey(atoms[NV[n]])[:15], 16)
        r = memo[n] = (w * _wmodels(HI[n], memo) + (1 - w) * _wmodels(LO[n], memo)) % _P
    return r

_cb = {}
def canonb(n):
    """a representative of n modulo what the atoms' meaning excludes: the fewest atoms of each family of related atoms"""
    if n < 2: return n
    r = _cb.get(n)
    if r is None: r = _cb[n] = _canonb(n); _cb[r] = r
    return r
def _canonb(n):
    if len(support(n)) < 2 and care(n) == 1: return n
    uf = {}
    def find(x):
        while uf.get(x, x) is not x: x = uf[x]
        return x
    const = ('int', 'enum', 'str', 'null', 'bool', 'true', 'false')
    ats = [a for a in support_atoms(n) if a.op in ('eq', 'lt')]
    for a in ats:
        l = [find(x) for x in a.a if x.op not in const]
        for y in l[1:]:
            if l[0] is not y: uf[l[0]] = y; l[0] = y
    fam = {}
    for a in ats:
        l = [x for x in a.a if x.op not in const]
        if l: fam.setdefault(find(l[0]), []).append(a)
    for root_, l in sorted(fam.items(), key=lambda x: skey(x[0])):
        if len(l) < 2: continue
        extra = []
        en = {}
        for a in l:
            for i in (0, 1):
                if a.op == 'eq' and a.a[i].op == 'enum': en.setdefault(a.a[1 - i], []).append(a.a[i])
        for x, es in en.items():
            names = ENUMS.get(es[0].a[1])
            if names and len(es) == len(set(names)) - 1:
                for nm in set(names) - {e.a[0] for e in es}: extra.append(mk_eq_atom(x, mk('enum', nm, es[0].a[1])))
        prs = {}
        for a in l:
            if not (a.a[0].op in const or a.a[1].op in const): prs.setdefault(frozenset(a.a), []).append(a)
        for k, pl in prs.items():
            if len(pl) == 2 and len(k) == 2:
                x, y = pl[0].a
                if not any(a.op == 'eq' for a in pl): extra.append(mk_eq_atom(x, y))
                else: 
                    lt = [a for a in pl if a.op == 'lt'][0]; extra.append(mk('lt', lt.a[1], lt.a[0]))
        l = sorted(set(l) | set(extra), key=skey)
        vs = [NV[var(a)] for a in l]
        c = care(n, *[var(a) for a in l])
        P, N_ = AND(n, c), AND(NOT(n), c)
        if P == 0: return 0
        if N_ == 0: return 1
        best = None
        def drop(ds):
            p, q = P, N_
            for v in ds: p, q = exists_var(p, v), exists_var(q, v)
            return p if AND(p, q) == 0 else None
        if len(l) <= 6:
            import itertools
            for k in range(0, len(l)):
                for keep in itertools.combinations(range(len(l)), k):
                    p = drop([v for i, v in enumerate(vs) if i not in keep])
                    if p is not None: best = p; break
                if best is not None: break
            if best is None: best = P
        else:
            ds = []
            for v in vs:
                if drop(ds + [v]) is not None: ds.append(v)
            best = drop(ds)
        n = best
        if n < 2: return n
    return AND(n, care(n))

def mk_eq_atom(x, y):
    from interp import mkeq
    r = mkeq(x, y)
    return atoms[NV[r]] if r > 1 else mk('true')

def skey(t):
    """structural sort key, independent of creation order"""
    if t.k is not None: return t.k
    if t.op == 'B':
        n = canonb(t.a[0]); s = 'B|%d|' % _wmodels(n, {}) + '|'.join(sorted(skey(a) for a in support_atoms(n)))
    else:
        l = [t.op]
        for x in t.a:
            if isinstance(x, T): l.append(skey(x))
            elif isinstance(x, tuple): l.append('[' + ','.join(skey(y) if isinstance(y, T) else repr(y) for y in x) + ']')
            else: l.append(repr(x))
        s = '|'.join(l)
    t.k = _hl.md5(s.encode()).hexdigest()
    return t.k

# ---------------------------------------------------------------- text form
def q(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r') + '"'

def render_bdd(n, names=None):
    if n == 1: return 'true'
    if n == 0: return 'false'
    c = care(n)
    cubes, _ = isop(AND(n, c), OR(n, NOT(c)))
    cs = []
    for cu in cubes:
        lits = sorted(('' if b else '!') + render(atoms[v], names) for v, b in cu.items())
        cs.append(' & '.join(lits) if lits else 'true')
    return ' | '.join(sorted(cs)) if cs else 'false'

import re as _re
_ident = _re.compile(r'^[A-Za-z_#][A-Za-z0-9_]*$')
_recname = _re.compile(r'^[A-Za-z_][A-Za-z0-9_:]*$')

def render(t, names=None):
    """text form; parse_term is its inverse.  x.f field, x[i] element, x^ target of pointer, x' value after an earlier write,
    C@n the element visited by the n-th enclosing loop over C"""
    if names is None:
        if t._s is not None: return t._s
    else:
        if t in names: return names[t]
    R = lambda x: render(x, names)
    if t.op == 'int': s = '%d' % t.a[0]
    elif t.op == 'str': s = q(t.a[0])
    elif t.op == 'B': s = '{' + render_bdd(t.a[0], names) + '}'
    elif not t.a: s = t.op
    elif t.op == 'fld' and _ident.match(t.a[1]): s = R(t.a[0]) + '.' + t.a[1]
    elif t.op == 'at': s = R(t.a[0]) + '[' + ', '.join(R(x) for x in t.a[1:]) + ']'
    elif t.op == 'el': s = R(t.a[0]) + '@%d' % t.a[1]
    elif t.op == 'deref': s = R(t.a[0]) + '^'
    elif t.op == 'post': s = R(t.a[0]) + "'"
    elif t.op == 'rec' and _recname.match(t.a[0]) and all(_ident.match(x) for x in t.a[1][0::2]):
        s = t.a[0] + '{' + ', '.join('%s: %s' % (t.a[1][i], R(t.a[1][i + 1])) for i in range(0, len(t.a[1]), 2)) + '}'
    else:
        parts = []
        for x in t.a:
            if isinstance(x, T): parts.append(R(x))
            elif isinstance(x, str): parts.append('`' + x + '`')
            elif isinstance(x, tuple): parts.append('[' + ', '.join(R(y) if isinstance(y, T) else '`%s`' % y for y in x) + ']')
            else: parts.append('#%d' % x)
        s = t.op + '(' + ', '.join(parts) + ')'
    if names is None: t._s = s
    return s

class Parser:
    def __init__(self, s, names=None, hook=None): self.s = s; self.i = 0; self.names = names or {}; self.hook = hook
    def ws(self):
        while self.i < len(self.s) and self.s[self.i] == ' ': self.i += 1
    def eat(self, c):
        self.ws()
        if self.s[self.i] != c: raise ValueError('expected %s at %d in %s' % (c, self.i, self.s[max(0, self.i - 40):self.i + 40]))
        self.i += 1
    def peek(self):
        self.ws(); return self.s[self.i] if self.i < len(self.s) else ''
    def bdd(self):
        r = self.cube()
        while self.peek() == '|': self.i += 1; r = OR(r, self.cube())
        return r
    def cube(self):
        r = self.lit()
        while self.peek() == '&': self.i += 1; r = AND(r, self.lit())
        return r
    def lit(self):
        neg = False
        if self.peek() == '!': self.i += 1; neg = True
        t = self.term(); c = cond(t)
        return NOT(c) if neg else c
    def term(self):
        t = self.prim()
        while self.i < len(self.s):
            c = self.s[self.i]
            if c == '.':
                m = _re.compile(r'[A-Za-z_#][A-Za-z0-9_]*').match(self.s, self.i + 1); self.i = m.end(); t = mk('fld', t, m.group(0))
            elif c == '[':
                self.i += 1; l = []
                while True:
                    l.append(self.term())
                    if self.peek() == ',': self.i += 1; continue
                    self.eat(']'); break
                t = mk('at', t, *l)
            elif c == '@':
                m = _re.compile(r'[0-9]+').match(self.s, self.i + 1); self.i = m.end(); t = mk('el', t, int(m.group(0)))
            elif c == '^': self.i += 1; t = mk('deref', t)
            elif c == "'": self.i += 1; t = mk('post', t)
            else: break
        return t
    def prim(self):
        c = self.peek()
        if c == '$':
            m = _re.compile(r'[$][0-9]+').match(self.s, self.i); self.i = m.end(); return self.names[m.group(0)]
        if c == '"':
            j = self.i + 1; out = []
            while self.s[j] != '"':
                if self.s[j] == '\\': j += 1; out.append({'n': '\n', 't': '\t', 'r': '\r'}.get(self.s[j], self.s[j]))
                else: out.append(self.s[j])
                j += 1
            self.i = j + 1; return mk('str', ''.join(out))
        if c == '{':
            self.i += 1; n = self.bdd(); self.eat('}'); return B(n)
        if c.isdigit() or c == '-':
            j = self.i + 1
            while j < len(self.s) and self.s[j].isdigit(): j += 1
            v = int(self.s[self.i:j]); self.i = j; return mk('int', v)
        j = self.i
        while j < len(self.s) and self.s[j] not in "(),[]{}|& `.@^'$" : j += 1
        op = self.s[self.i:j]
        if not op: raise ValueError('term expected at %d: %s' % (self.i, self.s[self.i:self.i + 40]))
        self.i = j
        if self.i < len(self.s) and self.s[self.i] == '(':
            self.i += 1; args = []
            while True:
                args.append(self.arg())
                if self.peek() == ',': self.i += 1; continue
                self.eat(')'); break
            t = mk(op, *args)
        elif self.i < len(self.s) and self.s[self.i] == '{':
            self.i += 1; l = []
            while self.peek() != '}':
                m = _re.compile(r' *([A-Za-z_#][A-Za-z0-9_]*):').match(self.s, self.i); self.i = m.end(); l += [m.group(1), self.term()]
                if self.peek() == ',': self.i += 1
            self.eat('}'); return mk('rec', op, tuple(l))
        else: t = mk(op)
        if self.hook: t = self.hook(t)
        if t.op == 'eq': register_eq(t)
        return t
    def arg(self):
        c = self.peek()
        if c == '`':
            j = self.s.index('`', self.i + 1); r = self.s[self.i + 1:j]; self.i = j + 1; return r
        if c == '#':
            j = self.i + 1
            while self.s[j].isdigit() or self.s[j] == '-': j += 1
            r = int(self.s[self.i + 1:j]); self.i = j; return r
        if c == '[':
            self.i += 1; l = []
            if self.peek() == ']': self.i += 1; return ()
            while True:
                x = self.arg(); l.append(x)
                if self.peek() == ',': self.i += 1; continue
                self.eat(']'); break
            return tuple(l)
        return self.term()

def parse_term(s, names=None): return Parser(s, names).term()
def parse_bdd(s, names=None): return Parser(s, names).bdd()

def abbreviate(roots, minlen=24):
    """names $n for subterms shared by the given terms (list of T): returns (names T->'$n', ordered list of T)"""
    cnt = {}
    def visit(t):
        cnt[t] = cnt.get(t, 0) + 1
        if cnt[t] > 1: return
        for y in (support_atoms(t.a[0]) if t.op == 'B' else t.a):
            if isinstance(y, T): visit(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T): visit(z)
    for r in roots: visit(r)
    order = []; done = set()
    def post(t):
        if t in done: return
        done.add(t)
        ch = []
        for y in (sorted(support_atoms(t.a[0]), key=skey) if t.op == 'B' else t.a):
            if isinstance(y, T): ch.append(y)
            elif isinstance(y, tuple): ch += [z for z in y if isinstance(z, T)]
        for y in ch: post(y)
        if cnt[t] > 1 and t.op not in ('B',) and t.a: order.append(t)
    for r in roots: post(r)
    names = {}; defs = []
    for t in order:
        d = render(t, names)
        if len(d) < minlen * 0.6: continue
        nm = '$%d' % (len(defs) + 1); defs.append((nm, d)); names[t] = nm
    return names, defs
