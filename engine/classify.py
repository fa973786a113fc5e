"""Is a difference between a summary and its table a violation, or outside what the analysis can judge?"""
from logic import *
from interp import summary_roots

def vocabulary(unit): return None

BAD = {'unk', 'undef', 'indet'}

def judge(exp, act, ds, voc, prog):
    if act['unknown']: return 'undecided', 'construct outside the analysed language: %s' % (act['unknown'][0],), ds
    bad = []
    for d in ds:
        roots = list(d.ctx) + [d.term] + support_atoms(d.gact)
        if any(contains(t, lambda x: x.op in BAD) for t in roots): bad.append(d)
    if len(bad) == len(ds): return 'undecided', 'indeterminate value in every difference', ds
    return 'violation', '', ds
