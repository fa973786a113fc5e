"""Which functions are anchored (have an effect table)."""
import re
from boundary import opaque
from units import FILES

def candidate(f):
    return 'body' in f and f.get('root') and not f.get('implicit') and not f.get('defaulted') and not f.get('deleted') and not f.get('lambdaop')

# helpers that happen to be accessible: judged through their callers
HELPER = re.compile(r'::PreStarSaturation::(insert_edge|insert_edge_bulk|add_pop|initialize|get_pautomata_edge_weight|get_weight)$|::NfaBuilder::(reduce|emplace_nfa|current_nfa)$|::(AmatchB_bucket|BmatchA)$|::equals_case_insensitive_1$')

def anchored(f, unit):
    """public interface and vocabulary functions; private helpers are judged through their callers"""
    if not candidate(f) or not re.search(FILES[unit], f.get('file') or ''): return False
    if HELPER.search(f['qn']) and not opaque(f): return False
    if unit == 'bin' and f['file'].startswith('include/pdaaal/P') and 'json' not in f['qn'] and not f['qn'].startswith('pdaaal::details::') and f['name'] not in ('add_rule_detail', 'insert_state', 'exists_state'): return False
    return f.get('acc') is None or opaque(f)
