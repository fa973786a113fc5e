"""Grammar obligations (P19): the PEGTL rule types are expanded, from the type-checked program, into a
canonical PEG in which rules without a semantic action are inlined and library short-hands are reduced
to seq/sor/opt/star/must/until/ite/state over character sets, and compared with the committed grammar."""
import json, os, re
import units

def split(s):
    """'a::b<c, d<e>>' -> ('a::b', ['c', 'd<e>'])"""
    i = s.find('<')
    if i < 0: return s, []
    depth = 0; args = []; cur = ''; j = i + 1; e = len(s) - 1
    while j < e:
        c = s[j]
        if c == "'":                       # character literal
            k = j + 1
            while s[k] != "'" or k == j + 1: k += 2 if s[k] == '\\' else 1
            cur += s[j:k + 1]; j = k + 1; continue
        if c in '<({': depth += 1
        elif c in '>)}': depth -= 1
        if c == ',' and depth == 0: args.append(cur.strip()); cur = ''
        else: cur += c
        j += 1
    if cur.strip(): args.append(cur.strip())
    return s[:i], args

def char(s):
    s = s.strip()
    m = re.match(r"^(?:u8|u|U|L)?'(.*)'$", s, re.S)
    if m:
        b = m.group(1)
        if b.startswith('\\'):
            t = {'n': 10, 't': 9, 'r': 13, 'v': 11, 'f': 12, '0': 0, 'a': 7, 'b': 8, '\\': 92, "'": 39, '"': 34}
            if b[1] in 'xuU': return int(b[2:], 16)
            return t[b[1]]
        return ord(b)
    return int(re.sub(r'[uUlL]+$', '', s), 0)

class N:
    """one grammar node; equality ignores where it came from"""
    __slots__ = ('k', 'a', 'at')
    def __init__(self, k, a, at): self.k = k; self.a = tuple(a); self.at = at
    def key(self): return (self.k,) + tuple(x.key() if isinstance(x, N) else x for x in self.a)
    def js(self): return [self.k] + [x.js() if isinstance(x, N) else x for x in self.a]

def unjs(j): return N(j[0], [unjs(x) if isinstance(x, list) else x for x in j[1:]], None)

IDF = [(48, 57)], [(65, 90)], [(95, 95)], [(97, 122)]
def norm_set(rs):
    out = []
    for lo, hi in sorted(rs):
        if out and lo <= out[-1][1] + 1: out[-1] = (out[-1][0], max(out[-1][1], hi))
        else: out.append((lo, hi))
    return out
def compl(rs, top):
    out = []; p = 0
    for lo, hi in norm_set(rs):
        if lo > p: out.append((p, lo - 1))
        p = hi + 1
    if p <= top: out.append((p, top))
    return out
CLASSES = {'space': [(32, 32), (9, 13)], 'blank': [(32, 32), (9, 9)], 'digit': [(48, 57)], 'odigit': [(48, 55)], 'lower': [(97, 122)], 'upper': [(65, 90)], 'alpha': [(65, 90), (97, 122)],
 'alnum': [(48, 57), (65, 90), (97, 122)], 'xdigit': [(48, 57), (65, 70), (97, 102)], 'identifier_first': [(65, 90), (95, 95), (97, 122)], 'identifier_other': [(48, 57), (65, 90), (95, 95), (97, 122)],
 'print': [(32, 126)], 'seven': [(0, 127)], 'any': [(0, 255)], 'nul': [(0, 0)]}

class Grammar:
    def __init__(self, data):
        self.recs = data['recs']; self.rules = {}; self.where = {}
    def action(self, act, rule):
        """the name of the rule's semantic action, or None"""
        r = self.recs.get(act + '<' + rule + '>')
        n = 0
        while r and n < 20:
            n += 1
            if not r.get('root'): return None
            bs = r.get('bases', [])
            if not bs: break
            b = split(bs[0])[0]
            if b == 'tao::pegtl::nothing': return None
            if b.endswith('_action'): r = self.recs.get(bs[0]); continue
            x = re.sub(r'\b(tao::)?pegtl::', '', bs[0]); return self.short(rule) + '!' + re.sub(r'\bpdaaal::(parsing::)?', '', x)
        if not r: return None
        return self.short(rule)
    def short(self, t):
        b, a = split(t)
        if b.startswith('tao::pegtl::'): return t.replace('tao::pegtl::', '')
        return b.split('::')[-1]
    def mk(self, k, a, at): return N(k, a, at)
    def seq(self, xs, at):
        out = []
        for x in xs:
            if x.k == 'seq': out += x.a
            else: out.append(x)
        o2 = []
        for x in out:
            if o2 and x.k == 'star' and o2[-1].key() == x.key(): continue
            o2.append(x)
        return o2[0] if len(o2) == 1 else N('seq', o2, at)
    def sor(self, xs, at):
        out = []
        for x in xs:
            if x.k == 'sor': out += x.a
            else: out.append(x)
        o2 = []
        for x in out:
            if o2 and x.k == 'set' and o2[-1].k == 'set' and x.a[0] == o2[-1].a[0]:
                o2[-1] = self.cset([tuple(r) for r in x.a[1:]] + [tuple(r) for r in o2[-1].a[1:]], at, x.a[0]); continue
            if any(y.key() == x.key() for y in o2): continue
            o2.append(x)
        if o2 and o2[-1].k == 'seq' and not o2[-1].a: return self.opt(self.sor(o2[:-1], at), at)
        return o2[0] if len(o2) == 1 else N('sor', o2, at)
    def opt(self, x, at): return x if x.k in ('opt', 'star') else N('opt', [x], at)
    def star(self, x, at):
        if x.k in ('opt', 'star'): x = x.a[0]
        return N('star', [x], at)
    def must(self, x, at):
        if x.k in ('must', 'opt', 'star'): return x                 # cannot fail locally
        if x.k == 'seq': return self.seq([self.must(y, at) for y in x.a], at)
        return N('must', [x], at)
    def cset(self, rs, at, enc='b'): return N('set', [enc] + ['%d-%d' % r if r[0] != r[1] else '%d' % r[0] for r in norm_set([self.rng(r) for r in rs])], at)
    def rng(self, r):
        if isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, int) for x in r): return r
        s = ''.join(r) if isinstance(r, tuple) else r
        a = s.split('-'); return (int(a[0]), int(a[-1]))
    def expand(self, t, act, at, stack=()):
        """canonical node of rule type t under action template act"""
        b, a = split(t)
        r = self.recs.get(t)
        if r and r.get('root'): at = (r.get('file'), r.get('line'), b)
        nm = self.action(act, t)
        if nm is not None:
            if nm not in self.rules:
                self.rules[nm] = None; self.where[nm] = at
                self.rules[nm] = self.body(t, b, a, r, act, at, stack + (t,))
            return N('ref', [nm], at)
        if t in stack: return N('rec', [self.short(t)], at)
        return self.body(t, b, a, r, act, at, stack + (t,))
    def body(self, t, b, a, r, act, at, stack):
        if not b.startswith('tao::pegtl::'):
            if not r or not r.get('bases'): return N('unknown', [self.short(t)], at)
            return self.expand(r['bases'][0], act, at, stack)
        x = lambda i: self.expand(a[i], act, at, stack)
        xs = lambda l: self.seq([self.expand(y, act, at, stack) for y in l], at)
        k = b[len('tao::pegtl::'):]
        k = re.sub(r'^(internal|ascii)::', '', k)
        enc = 'b'
        if k.startswith('utf8::'): enc = 'u'; k = k[6:]
        S, M, T, O = self.seq, self.must, self.star, self.opt
        if k == 'seq': return xs(a)
        if k == 'sor': return self.sor([x(i) for i in range(len(a))], at)
        if k == 'opt': return O(xs(a), at)
        if k == 'star': return T(xs(a), at)
        if k == 'plus': return S([xs(a), T(xs(a), at)], at)
        if k == 'must': return S([M(x(i), at) for i in range(len(a))], at)
        if k == 'if_must': return S([x(0)] + [M(x(i), at) for i in range(1, len(a))], at)
        if k == 'opt_must': return O(S([x(0)] + [M(x(i), at) for i in range(1, len(a))], at), at)
        if k == 'star_must': return T(S([x(0)] + [M(x(i), at) for i in range(1, len(a))], at), at)
        if k == 'pad': return S([T(x(1), at), x(0), T(x(2 if len(a) > 2 else 1), at)], at)
        if k == 'pad_opt': return S([T(x(1), at), O(S([x(0), T(x(1), at)], at), at)], at)
        if k in ('list', 'list_must', 'list_tail'):
            p = len(a) > 2 and a[2] != 'void'
            sep = S([T(x(2), at), x(1), T(x(2), at)], at) if p else x(1)
            l = S([x(0), T(S([sep, M(x(0), at) if k == 'list_must' else x(0)], at), at)], at)
            if k != 'list_tail': return l
            return S([l, O(S([T(x(2), at), x(1)], at) if p else x(1), at)], at)
        if k == 'if_then_else': return N('ite', [x(0), x(1), x(2)], at)
        if k == 'if_must_else': return N('ite', [x(0), M(x(1), at), M(x(2), at)], at)
        if k == 'until': return N('until', [x(0), xs(a[1:]) if len(a) > 1 else self.cset(CLASSES['any'], at)], at)
        if k == 'state': return N('state', [self.short(a[0]), xs(a[1:])], at)
        if k in ('at', 'not_at', 'minus'): return N(k, [x(i) for i in range(len(a))], at)
        if k == 'rep': return S([xs(a[1:])] * char(a[0]), at)
        if k == 'string': return S([self.cset([(char(c), char(c))], at, enc) for c in a], at)
        if k in ('one', 'not_one'):
            rs = [(char(c), char(c)) for c in a]
            return self.cset(rs if k == 'one' else compl(rs, 0x10ffff if enc == 'u' else 255), at, enc)
        if k in ('range', 'not_range'):
            rs = [(char(a[0]), char(a[1]))]
            return self.cset(rs if k == 'range' else compl(rs, 0x10ffff if enc == 'u' else 255), at, enc)
        if k == 'ranges':
            c = [char(y) for y in a]; rs = [(c[i], c[i + 1]) for i in range(0, len(c) - 1, 2)]
            if len(c) % 2: rs.append((c[-1], c[-1]))
            return self.cset(rs, at, enc)
        if k == 'any' and enc == 'u': return self.cset([(0, 0x10ffff)], at, enc)
        if k == 'identifier': return S([self.cset(CLASSES['identifier_first'], at), T(self.cset(CLASSES['identifier_other'], at), at)], at)
        if k == 'success': return N('seq', [], at)
        if k in CLASSES and not a: return self.cset(CLASSES[k], at, enc)
        return N(k, [x(i) if self.is_rule(a[i]) else a[i] for i in range(len(a))], at)
    def is_rule(self, t): return t.startswith('tao::pegtl::') or (t in self.recs and bool(self.recs[t].get('bases')))

def grammars(data):
    """{root name: (root node, {rule: node}, {rule: where})} of every grammar the unit parses with"""
    out = {}
    for f in data['fns'].values():
        if f['qn'] == 'tao::pegtl::parse' and f.get('targs'):
            rule, act = f['targs'][0], f['targs'][1]
            g = Grammar(data); nm = g.short(rule)
            if nm in out: continue
            root = g.expand(rule, act, None)
            out[nm] = (root, g.rules, g.where)
    return out

def text(n, d=0):
    if not isinstance(n, N): return str(n)
    if d > 3: return n.k + '…'
    return n.k + '(' + ', '.join(text(x, d + 1) for x in n.a) + ')'

def diff(e, a, ren, out):
    """first differences between expected and actual; ren is the bijection of rule names"""
    if e.k == 'ref' and a.k == 'ref':
        x, y = e.a[0], a.a[0]
        if ren.get(x, y) == y and all(v != y for q, v in ren.items() if q != x): ren[x] = y; return
        out.append((e, a)); return
    if e.k == 'rec' and a.k == 'rec': return
    if e.k != a.k or len(e.a) != len(a.a): out.append((e, a)); return
    for p, q in zip(e.a, a.a):
        if isinstance(p, N) and isinstance(q, N): diff(p, q, ren, out)
        elif p != q: out.append((e, a)); return

TABLE = os.path.join(units.VERIF, 'specs', 'grammar.json')
def dump(us):
    o = {}
    for u, data in us.items():
        for nm, (root, rules, where) in grammars(data).items():
            o.setdefault(u, {})[nm] = {'root': root.js(), 'rules': {k: v.js() for k, v in sorted(rules.items())}}
    json.dump(o, open(TABLE, 'w'), indent=1, sort_keys=True)

def check(unit, data):
    exp = json.load(open(TABLE)).get(unit, {}); n = 0; viol = []
    act = grammars(data)
    left = [k for k in act if k not in exp]
    for nm, e in exp.items():
        an = nm if nm in act else (left[0] if len(left) == 1 and len(exp) == len(act) else None)
        if an is None: continue                       # not parsed with any more: the parse functions' tables speak
        root, rules, where = act[an]
        ren = {k: k for k in e['rules'] if k in rules}
        todo = [('<root>', unjs(e['root']), root)]; seen = set()
        while todo:
            q, en, ac = todo.pop(); n += 1
            out = []; diff(en, ac, ren, out)
            for de, da in out:
                at = da.at or (None, None, an)
                viol.append({'unit': unit, 'key': 'grammar of %s, rule %s' % (nm, q), 'file': at[0], 'line': at[1], 'fn': at[2], 'status': 'violation',
                             'diffs': [('grammar', at[0], at[1], 'rule %s: expected %s, found %s' % (q, text(de), text(da)))], 'sig': 'grammar:%s:%s' % (nm, q)})
            for x, y in list(ren.items()):
                if x not in seen and x in e['rules'] and y in rules:
                    seen.add(x); todo.append((x, unjs(e['rules'][x]), rules[y]))
    return n, viol
