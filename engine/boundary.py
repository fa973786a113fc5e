"""Vocabulary: repository functions that summaries refer to by name instead of looking inside.

Everything else is looked through, so that extracting, inlining or renaming a helper does not change a summary.
A function that is not in this table (for instance a new one) is always looked through.
"""
import re

TABLE = {
 'pdaaal::internal::labels_t': 'contains merge intersect noop_pre_filter',
 'pdaaal::details::weight_impl': 'add less',
 'pdaaal::linear_weight_function': 'operator()',
 'pdaaal::ordered_weight_function': 'operator()',
 'pdaaal::fixed_point_workset': 'emplace run step',
 'pdaaal::internal::PAutomaton': 'PAutomaton find_path find_path_shortest accepts accept_path add_state add_edges construct or_extend to_dot get_path_shortest min_accepting_weight make_back_edge_shortest make_back_edge has_negative_weights',
 'pdaaal::internal::PDA::state_t': 'has_negative_weight',
 'pdaaal::internal::PreStarSaturation': 'PreStarSaturation step',
 'pdaaal::internal::PostStarSaturation': 'PostStarSaturation step run',
 'pdaaal::internal::PostStarShortestSaturation': 'PostStarShortestSaturation step run',
 'pdaaal::internal::PreStarFixedPointSaturation': 'PreStarFixedPointSaturation step_with',
 'pdaaal::internal::PostStarFixedPointSaturation': 'PostStarFixedPointSaturation step_with',
 'pdaaal::internal::PAutomatonFixedPoint': 'PAutomatonFixedPoint get_path get_path_with_loop step_with',
 'pdaaal::internal::PAutomatonFixedPoint::AutomatonTraceBack': 'AutomatonTraceBack next get_path',
 'pdaaal::internal::TraceBack': 'next',
 'pdaaal::AutomatonPath': 'split emplace get_path_and_stack front_edge pop stack remove_epsilon',
 'pdaaal::PAutomaton': 'PAutomaton to_json get_symbol get_state_optional',
 'pdaaal::PAutomatonProduct': 'PAutomatonProduct initialize_product add_edge_product add_initial_edge add_final_edge enable_pre_star find_path find_path_shortest find_path_fixed_point construct_reachable get_original get_original_ids get_product_state add_edge copy get_initial_accepting',
 'pdaaal::PDA': 'PDA move_label_map get_symbol encode_pre to_json add_rule add_wildcard_rule exists_label exists_state insert_label insert_state all_rules find_labelid add_rule_ add_rule_detail',
 'pdaaal::state_mapping': 'get_state state_map_size', 'pdaaal::no_state_mapping': 'get_state',
 'pdaaal::internal::PDA': 'clear_state add_untyped_rule add_untyped_rule_ add_untyped_rule_impl add_rule add_wildcard_rule add_state',
 'pdaaal::BasePDAFactory': 'compile add_rule add_wildcard_rule',
 'pdaaal::Solver': 'pre_star_fixed_point post_star_fixed_point pre_star_accepts pre_star post_star pre_star_fixed_point_accepts post_star_fixed_point_accepts interleaving_fixed_point_accepts dual_search_accepts dual_short_search dual_search post_star_accepts post_star_accepts_no_ET get_trace get_trace_dual_search get_rule_trace_and_paths',
 'pdaaal::NFA': 'compile empty_accept follow_epsilon successor has_as_successor leads_to_by_epsilon concat question_extend plus_extend star_extend and_extend or_extend to_dot',
 'pdaaal::NFA::edge_t': 'follow_epsilon', 'pdaaal::NFA::state_t': 'add_epsilon_edge prelabels',
 'pdaaal::internal::Reducer': 'reduce forwards_prune backwards_prune target_tos_prune size',
 'pdaaal::internal::Reducer::tos_t': 'update_state forward_stack merge_pop merge_noop merge_swap merge_push',
 'pdaaal::AbstractionMapping': 'insert insert_abstract exists map get_abstract_value size get_concrete_values get_concrete_values_range',
 'pdaaal::RefinementMapping': 'refine exists maps_to encode_many get_concrete_values get_concrete_values_range size',
 'pdaaal::AbstractionPDA': 'move_label_map encode_labels get_concrete_labels get_concrete_labels_range maps_to refine abstract_label',
 'pdaaal::AbstractionPAutomaton': 'AbstractionPAutomaton get_nfastate',
 'pdaaal::CegarPdaReconstruction': 'reconstruct_trace initial_header update_header update_header_wildcard_pre find_wildcard_specialization pre_labels finalize_header concreterize_wildcards check_nfa_path label_maps_to get_concrete_labels get_concrete_labels_range',
 'pdaaal::CegarPdaFactory': 'reset_pda abstract_label',
 'pdaaal::Refinement': 'combine', 'pdaaal::HeaderRefinement': 'combine',
 'pdaaal': 'is_disjoint to_json to_json_impl assign_to_bucket make_pair_refinement make_simple_pair_refinement make_refinement',
 'pdaaal::priority_set': 'emplace pop pop_back',
 'pdaaal::NfaParser': 'parse_file parse_string',
 'pdaaal::NfaBuilder': 'open close set_negation add_label use_label_set push_op get_nfa',
 'pdaaal::parsing::SAXHandlerContextStack': 'handle_key element_done error_unexpected error_unexpected_key error_missing_keys',
 'pdaaal::parsing::SAXHandlerBase': 'parse_error is_errored',
 'pdaaal::parsing::PdaSaxHandler': 'get_pda null boolean number_integer number_unsigned number_float string binary key start_object end_object start_array end_array', 'pdaaal::parsing::PAutomatonSaxHandler': 'get_automaton null boolean number_integer number_unsigned number_float string binary key start_object end_object start_array end_array', 'pdaaal::parsing::PdaTypeSaxHandler': 'get_pda_sax_handler null boolean number_integer number_unsigned number_float string binary key start_object end_object start_array end_array',
 'pdaaal::parsing::SolverInstanceSaxHandler': 'get_solver_instance null boolean number_integer number_unsigned number_float string binary key start_object end_object start_array end_array', 'pdaaal::parsing::SAXHandlerDispatch': 'set_dispatch',
 'pdaaal::parsing::PdaJsonParser': 'parse', 'pdaaal::parsing::PAutomatonJsonParser': 'parse', 'pdaaal::parsing::SolverInstanceJsonParser': 'parse',
 'pdaaal::parsing::PAutomatonParser': 'parse_file parse', 'pdaaal::parsing::Parsing': 'parse_instance parse_pda parse_instance_stream',
 'pdaaal::Verifier': 'verify needs_trace_info_pair',
 'json_stream': 'begin_object end_object entry entry_object close', 'pdaaal::json_stream': 'begin_object end_object entry entry_object close', 'pdaaal::utils::json_stream': 'begin_object end_object entry entry_object close',
 'stopwatch': 'start stop duration', 'pdaaal::stopwatch': 'start stop duration',
 'pdaaal::utils::ptrie_interface': 'to_ptrie unpack', 'pdaaal::utils::ptrie_map': 'insert exists at', 'pdaaal::utils::ptrie_set': 'insert exists at',
 'pdaaal::utils::byte_vector_converter': 'size push_back_bytes from_bytes',
 'pdaaal::utils::flags': 'split_to_single_flags',
 'pdaaal::parsing': 'parse_stream_json_w parse_stream_json parse_stream parse_file make_PAutomatonBuilder get_format get_weight_type',
}
NAMES = {c + '::' + m for c, ms in TABLE.items() for m in ms.split()}
def opaque(f): return f['qn'] in NAMES
