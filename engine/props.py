"""Which effect tables decide which property: property -> {unit: regular expressions over table keys
('qualified name | class | parameters | template arguments | result', short type names as in specs/*.spec)}."""
LAB = {'automata': [r'^i::labels_t::', r'^i::PDA::states_(begin|end) '], 'nfaparser': [r'^i::labels_t::']}
EDGE = [r'^i::PAutomaton::(add_edge|add_edges|add_epsilon_edge|emplace_edge|add_state|get_edge|next_state_id|number_of_labels|new_pre_trace|new_post_trace|get_trace_label|states|pda) ', r'^i::temp_edge_t::', r'^i::edge_annotation::', r'^i::TraceInfo::']
CONT = {'values': [r'^fut::', r'^priority_set::', r'^CompFirst']}
def join(*ds):
    r = {}
    for d in ds:
        for u, l in d.items(): r.setdefault(u, []); r[u] += [x for x in l if x not in r[u]]
    return r
PROPS = {
 'P01': join({'automata': [r'^i::PostStarSaturation::', r'^i::AbslHashValue .*temp_edge'] + EDGE}, LAB),
 'P02': join({'automata': [r'^i::PreStarSaturation::(?!.*, true>)', r'^i::PreStarSaturation::.*, false> \|'] + EDGE}, LAB),
 'P03': {'automata': [r'^i::PostStarShortestSaturation::', r'^i::PreStarSaturation::.*PreStarSaturation<W[ui], \w+, true>', r'^i::PreStarSaturation::weighted', r'^i::PDA::state_t::has_negative_weight', r'^i::PAutomaton::has_negative_weights'] + EDGE, 'values': [r'^details::weight_impl::', r'^verif::consts::(zero|bottom|max) ']},
 'P04': {'automata': [r'^i::(Pre|Post)StarFixedPointSaturation::', r'^fixed_point_workset::', r'^i::PAutomatonFixedPoint::'] + EDGE, 'solver': [r'^i::(Pre|Post)StarFixedPointSaturation::'], 'values': [r'^details::weight_impl::', r'^verif::consts::(zero|bottom|max) ']},
 'P05': {'automata': [r'^i::TraceBack::', r'^i::trace_t::', r'^i::operator(==|!=|<) .*trace_t', r'^i::(Pre|Post)Star\w*Saturation::(step|step_with|Pre\w+|Post\w+) ', r'^user_rule_t::'] + EDGE, 'solver': [r'^Solver::get_trace', r'^Solver::get_trace_dual_search', r'^Solver::get_rule_trace', r'^i::TraceBack::', r'^PDA::get_symbol', r'^user_rule_t::', r'^PAutomatonProduct::(find_path|get_original)', r'^i::PAutomaton::get_trace_label', r'^i::edge_annotation::'], 'values': [r'^AutomatonPath::']},
 'P06': {'solver': [r'^PAutomatonProduct::(?!to_json)', r'^i::PAutomaton::(add_edge|add_epsilon_edge|has_accepting_state|min_accepting_weight|make_back_edge_shortest) '], 'automata': [r'^i::PAutomaton::(add_edge|add_edges|add_epsilon_edge|emplace_edge|add_state|get_edge|states) ']},
 'P07': {'solver': [r'^Solver::', r'^PAutomatonProduct::(initialize_product|add_edge_product|add_initial_edge|add_final_edge|enable_pre_star|construct_reachable|add_edge|find_path\w*) ', r'^i::PAutomaton::(has_accepting_state|min_accepting_weight|make_back_edge_shortest) '], 'automata': [r'^i::(Pre|Post)Star\w*Saturation::(workset_empty|found|run|step|PreStarSaturation|PostStarSaturation|PostStarShortestSaturation) ', r'^fixed_point_workset::']},
 'P08': {'automata': [r'^i::PAutomaton::(?!queue_elem|accept|find_path)', r'^NFA::(follow_epsilon|edge_t|state_t|initial|accepting|states|empty_accept)', r'^i::edge_annotation::', r'^i::TraceInfo::'], 'solver': [r'^i::PAutomaton::(PAutomaton|construct|add_\w+|to_dot) ', r'^PAutomaton::(?!to_json)']},
 'P09': {'automata': [r'^i::PAutomaton::(accepts|accept_path|find_path|queue_elem\w*|get_edge|states|state_t)', ], 'solver': [r'^i::PAutomaton::(get_path_shortest|find_path|make_back_edge_shortest|min_accepting_weight|has_accepting_state)'], 'values': [r'^AutomatonPath::', r'^details::weight_impl::']},
 'P10': {'automata': [r'^NFA::'], 'cegar': [r'^NFA::']},
 'P11': CONT | {'values': [r'^fut::', r'^priority_set::', r'^CompFirst', r'^CompSwapArgs', r'^is_disjoint', r'^vector_printer', r'^operator<< .*vector_printer']},
 'P12': {'values': [r'^details::weight_impl::', r'^verif::consts::', r'^weight::print', r'^linear_weight_function::', r'^ordered_weight_function::']},
 'P13': {'automata': [r'^i::PAutomatonFixedPoint::', r'^fixed_point_workset::'], 'solver': [r'^PAutomatonProduct::(find_path\w*|get_original\w*|get_initial_accepting) ', r'^i::PAutomaton::(get_path_shortest|min_accepting_weight|make_back_edge_shortest|has_accepting_state) '], 'values': [r'^details::weight_impl::', r'^AutomatonPath::', r'^verif::consts::(zero|bottom|max) ']},
 'P14': {'solver': [r'^i::Reducer::', r'^i::PDA::'], 'nfaparser': [r'^i::Reducer::', r'^i::labels_t::'], 'automata': [r'^i::labels_t::', r'^i::PDA::']},
 'P15': {'solver': [r'^PDA::(?!to_json)', r'^i::PDA::', r'^user_rule_t::', r'^state_mapping::', r'^no_state_mapping::', r'^(BasePDAFactory|PDAFactory|DFS_PDAFactory)::'], 'automata': [r'^i::PDA::', r'^i::labels_t::', r'^user_rule_t::', r'^i::pda_rule_t::'], 'nfaparser': [r'^i::labels_t::'], 'values': [r'^fut::vector_(map|set)::(vector_|emplace|contains|find|lower_bound)']},
 'P16': {'automata': [r'::operator(==|!=|<)\s', r'^i::operator(==|!=|<)', r'^i::AbslHashValue', r'_comp::operator\(\)', r'^i::pda_rule_t::', r'^i::trace_t::', r'^i::temp_edge_t::'], 'values': [r'operator(==|!=|<) ', r'AbslHashValue', r'^Comp\w+::operator', r'^fut::operator'], 'solver': [r'AbslHashValue', r'_comp::operator\(\)']},
 'P17': {'cegar': [r'^(AbstractionMapping|RefinementMapping|AbstractionPDA|AbstractionPAutomaton|Refinement|HeaderRefinement)::', r'^make_\w*refinement', r'^assign_to_bucket', r'^AmatchB', r'^BmatchA', r'^CegarPdaFactory::', r'^AbstractionSolverInstance::']},
 'P18': {'cegar': [r'^CEGAR::', r'^CegarPdaReconstruction::', r'^Header::', r'^CegarPdaFactory::', r'^NFA::'], 'automata': [r'^NFA::(successor|leads_to|intersect|has_as|follow|edge_t|state_t|empty_accept)'], 'solver': [r'^Solver::get_rule_trace_and_paths']},
 'P19': {'nfaparser': [r'^Nfa', r'^nfa_build', r'^parse '], 'bin': [r'^p::(PAutomatonBuilder|PAutomatonParser|p_automaton_build_action|string_state)::', r'^p::make_PAutomatonBuilder', r'^NfaBuilder::', r'^nfa_build_action::']},
 'P20': {'solver': [r'to_json', r'^details::'], 'bin': [r'to_json', r'^details::', r'^p::(Pda|PAutomaton|SolverInstance|PdaType)Sax(Handler|Helper)::', r'^p::\w+JsonParser::', r'^PDA::add_rule_detail', r'^(PAutomaton|PDA)::(insert_state|exists_state)', r'^p::detail::variant_index']},
 'P21': {'bin': [r'^p::(SAXHandler\w+|JsonParserContext|PdaSaxHandler|PAutomatonSaxHandler|PdaTypeSaxHandler|SolverInstanceSaxHandler|\w+SaxHelper)::', r'^p::make_context', r'^utils::flag', r'^p::\w+JsonParser::', r'^p::operator<<']},
 'P22': {'bin': [r'^Verifier::', r'^operator(>>|<<) ', r'^main', r'^run ', r'^p::Parsing::', r'^p::(parse_file|parse_stream\w*|get_format|get_weight_type|equals_case\w+|parsing_options_t\S*) ', r'^stopwatch::']},
 'P23': {'bin': [r'^json_stream::', r'^main_output::']},
 'P24': {'cegar': [r'^utils::ptrie'], 'values': [r'^utils::(ptrie|byte_vector|fixed_byte)']},
 'P25': {'solver': [r'^SolverInstance::', r'^PAutomatonProduct::(PAutomatonProduct|copy|swap\w*) ', r'^PAutomaton::PAutomaton ', r'^PDA::(PDA|move_label_map) ', r'^i::PDA::PDA '], 'cegar': [r'^AbstractionSolverInstance::', r'^AbstractionPDA::(AbstractionPDA|move)', r'^AbstractionPAutomaton::AbstractionP'], 'automata': [r'^NFA::(NFA|operator=) ', r'^i::PAutomaton::(PAutomaton|or_extend) ', r'^NFA::(concat|or_extend) '], 'bin': [r'^p::SolverInstanceSaxHandler::(get_solver_instance|callback) ', r'^p::PdaSaxHandler::get_pda ', r'^p::PAutomatonSaxHandler::get_automaton ']},
}
