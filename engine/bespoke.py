"""Structural obligations that are not per-function effect tables."""
import json
import grammar
def run(pid, ps, d):
    out = {'obligations': 0, 'violations': [], 'rules': []}
    if pid == 'P19':
        out['rules'].append('the PEG expanded from the rule types passed to pegtl::parse equals the committed grammar, rule by rule, action by action')
        for u in ('nfaparser', 'bin'):
            if u not in ps: continue
            try: data = json.load(open(ps[u][1]))
            except (OSError, ValueError): continue
            n, v = grammar.check(u, data)
            out['obligations'] += n; out['violations'] += v
    return out
