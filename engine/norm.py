"""Second-stage normal forms, used only when two summaries differ.  Every pass is an equivalence of effect tables and is
applied to both sides, so it can only remove differences that are no differences of behaviour."""
from logic import *
import interp
from interp import Interp, canon_locals, _VID, merge, lin, root, prefixes, unpost1, ZERO, is_const

BOOLOPS = ('B', 'eq', 'lt', 'empty', 'contains', 'exists', 'has')

def thaw(s):
    memo = {}
    f = lambda t: mk('var', _VID(80000000 + t.a[0])) if t.op == 'L' and isinstance(t.a[0], int) else t
    eff = {}
    for (ctx, t), v in s['effects'].items():
        put(eff, tuple(subst(c, f, memo) for c in ctx), subst(t, f, memo), (subst_bdd(v[0], f, memo),) + tuple(v[1:]))
    return eff, [(subst_bdd(c, f, memo), subst(t, f, memo)) for c, t in s['ret']]

def put(eff, ctx, t, v):
    if v[0] == 0: return
    k = (ctx, t); o = eff.get(k)
    eff[k] = v if o is None else (OR(o[0], v[0]),) + tuple(o[1:3]) + (True,)

def eqlits(g):
    out = []
    for v in support(g):
        a = atoms[v]
        if a.op == 'eq':
            for x, k in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                if k.op in ('int', 'enum', 'str', 'null') and not is_const(x) and x.op not in ('lin',): out.append((v, x, k))
    return out

def bsub(g, rest=None):
    """under x == k, x is k"""
    for v, x, k in eqlits(g):
        hi, lo = cofactor(g, v, 1), cofactor(g, v, 0)
        if hi == lo: continue
        memo = {}
        hi2 = map_atoms(hi, lambda a: cond(subst(a, lambda t: k if t is x else t, memo)) if contains(a, lambda t: t is x) else var(a))
        if hi2 != hi: g = ite(var(atoms[v]), hi2, lo)
    return g

def tsub(t, g):
    for v, x, k in eqlits(g):
        if cofactor(g, v, 0) == 0 and contains(t, lambda y: y is x):
            if t.op in ('set', 'do', 'out', 'init') and t.a and any(y is x or (isinstance(y, T) and x in prefixes(y)) for y in t.a[:2] if isinstance(y, T)): continue   # the object itself, not its value
            t = subst(t, lambda y: k if y is x else y)
    return t

def p_eq(eff, rets):
    out = {}; memo = {}
    inner = lambda t: subst(t, lambda y: B(bsub(y.a[0])) if y.op == 'B' else y, memo)
    for (ctx, t), v in eff.items():
        g = bsub(v[0])
        put(out, ctx, tsub(inner(t), g), (g,) + tuple(v[1:]))
    r = []
    for c, t in rets:
        c = bsub(c); r.append((c, tsub(inner(t), c)))
    return out, r

def p_bool(eff, rets):
    """f(c) = if (c) f(true) else f(false)"""
    out = {}
    for (ctx, t), v in eff.items():
        todo = [(t, v[0])]
        if t.op in ('do', 'out') and v[0] != 0:
            for i in range(1, len(t.a)):
                nxt = []
                for u, g in todo:
                    x = u.a[i]
                    if isinstance(x, T) and x.op in BOOLOPS:
                        b = cond(x)
                        for y, h in ((TRUE_T, AND(g, b)), (FALSE_T, AND(g, NOT(b)))):
                            if h != 0: nxt.append((mk(u.op, *u.a[:i], y, *u.a[i + 1:]), h))
                    else: nxt.append((u, g))
                if len(nxt) > 4: nxt = todo; break
                todo = nxt
        for u, g in todo: put(out, ctx, u, (g,) + tuple(v[1:]))
    return out, rets

def at_ctx(ctx):
    it = Interp.__new__(Interp); it.ctx = ctx
    return it

def p_hoist(eff, rets):
    """what a search loop does only in the iteration that ends it happens once, to the first match"""
    for (ctx, t), v in list(eff.items()):
        if t.op != 'exit' or not ctx or ctx[-1].op != 'foreach' or len(ctx[-1].a) != 1: continue
        C = ctx[-1].a[0]; x = v[0]; it = at_ctx(ctx[:-1]); n = it.count_ctx(C)
        inl = [(k, w) for k, w in eff.items() if k[0][:len(ctx)] == ctx and k[1] is not t]
        if not inl or any(k[0] != ctx or k[1].op == 'init' or AND(w[0], NOT(x)) != 0 for k, w in inl): continue
        outer = 1; c = x
        for q in sorted(support(x)):
            if it.dep(atoms[q], ctx[-1]): continue
            if cofactor(c, q, 0) == 0: outer = AND(outer, var(atoms[q])); c = cofactor(c, q, 1)
            elif cofactor(c, q, 1) == 0: outer = AND(outer, NOT(var(atoms[q]))); c = cofactor(c, q, 0)
        if c < 2: continue
        ev = var_of.get(mk('empty', C))
        if ev is not None: c = cofactor(c, ev, 0)
        ex = AND(outer, it.exists(ctx[-1], c))
        f1 = mk('first', C, B(c)); fi = mk('firstval', C, B(c), mk('ix', C, n)); memo = {}
        F = lambda y: f1 if y.op == 'el' and y.a[0] is C and y.a[1] == n else fi if y.op == 'ix' and y.a[0] is C and y.a[1] == n else y
        rest = []
        for k, w in inl:
            g = w[0]
            extra = g
            for q in sorted(support(c) | support(outer)):
                pass
            # condition of the effect beyond being the exiting iteration
            if g == x: gg = ex
            else:
                e = interp.restrict_to(g, x)
                gg = AND(ex, subst_bdd(e, F, memo))
            rest.append((k, w, gg))
        for k, w, gg in rest: del eff[k]
        del eff[(ctx, t)]
        for k, w, gg in rest: put(eff, ctx[:-1], subst(k[1], F, memo), (gg,) + tuple(w[1:3]) + (True,))
    return eff, rets

def p_ret(eff, rets):
    """a local that nothing was done to still has its initial value"""
    init = {t.a[0]: t.a[1] for (ctx, t) in eff if t.op == 'init' and ctx == () and t.a[0].op == 'var'}
    out = []
    for c, t in rets:
        L = unpost1(t) if t.op == 'post' else None
        if L not in init: out.append((c, t)); continue
        M = 0
        for (ctx, u), w in eff.items():
            if u.op == 'init' and u.a[0] is L or not contains(u, lambda y: y is L): continue
            g = w[0]
            for q in sorted(support(g)):
                if contains(atoms[q], lambda y: y is L or y.op in ('el', 'ix', 'phi', 'res', 'fresh')): g = exists_var(g, q)
            M = OR(M, g)
        a, b = AND(c, M), AND(c, NOT(M))
        if b == 0 or not sat(b): out.append((c, t)); continue
        if a != 0: out.append((a, t))
        out.append((b, init[L]))
    return eff, merge(out) if out else out

def deep(s):
    eff, rets = thaw(s)
    for p in (p_eq, p_bool, p_hoist, p_ret): eff, rets = p(eff, rets)
    eff = {k: (canonb(v[0]),) + tuple(v[1:]) for k, v in eff.items()}
    return canon_locals(eff, [(canonb(c), t) for c, t in rets], s['unknown'])
