import json
P=[]
def OV(o,id):
    r=['inputs']
    if any(w in x for x in o for w in ('order','histor','sequence')): r.append('histories')
    if id in ('P07','P22','P05'): r.append('configurations')
    return r
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=state
    if obs: a['observe_at']=obs
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':stmt,'quantifier':{'over':OV(over,id),'text':qtext},'why_tests_cant':why,'anchors':a})
I='src/include/pdaaal/'; B='src/pdaaal-bin/'
p('P01','Post* adds exactly the transitions the post* rules derive',
  'Starting from any P-automaton, post* saturation (Any trace) adds an edge exactly when a PDA rule and edges already present derive it by the pop/swap/noop/push and epsilon-composition rules, queues every newly added edge once, and never drops or invents one. The mid-state used for a push rule is the one reserved for that (target state, pushed label) pair, and label wildcards and the label filter of each rule are respected.',
  ['PDAs','P-automata','order of workset processing'],'for every PDA, initial P-automaton and processing order','the derived language is infinite and depends on rule/edge combinations; a test only samples a few small automata',
  [I+'internal/PdaSaturation.h',I+'internal/PDA.h',I+'internal/PAutomaton.h'],[('saturation step','internal::PostStarSaturation::step'),('initialisation and mid-states','internal::PostStarSaturation::initialize'),('rule label sets','internal::labels_t::contains')],obs=['edges of the saturated automaton'])
p('P02','Pre* adds exactly the transitions the pre* rules derive',
  'Starting from any P-automaton, pre* saturation adds an edge (p, label, q) exactly when some rule of the PDA from p on that label leads, via its pop, swap, noop or push operation, along edges already present to q, including pairs of edges that appear in either order for push rules. Every edge that is new is queued for processing once and the relation between rules and waiting edges is complete for wildcards and filtered labels.',
  ['PDAs','P-automata','order of workset processing'],'for every PDA, target P-automaton and processing order','the order in which the two edges matched by a push rule appear is schedule dependent and not sampled by tests',
  [I+'internal/PdaSaturation.h',I+'internal/PDA.h',I+'internal/PAutomaton.h'],[('saturation step','internal::PreStarSaturation::step'),('pop rules and initial edges','internal::PreStarSaturation::PreStarSaturation')],obs=['edges of the saturated automaton'])
p('P03','Shortest saturation keeps minimal weights and never loses an improvement',
  'In Shortest mode, the weight stored on every edge of the saturated automaton is the sum of the rule weight and the weights of the edges it was derived from, replaced only by a strictly smaller one. Whenever a weight improves, the edge (and what depends on it) is queued again with the new weight, work items are processed in order of increasing weight, and outdated work items are skipped.',
  ['weighted PDAs','P-automata','weight types'],'for every weighted PDA, automaton and weight domain','minimality is over all runs; only particular weights and orders expose a lost update',
  [I+'internal/PdaSaturation.h',I+'Weight.h'],[('weighted post* step','internal::PostStarShortestSaturation::step'),('weighted pre* step','internal::PreStarSaturation<W,ET,SHORTEST>::step'),('queue order','weight_edge_trace_comp, weighted_edge_t_comp')])
p('P04','Fixed-point saturation computes best weights, with infinity for cycles',
  'In Longest and ShortestFixedPoint mode the saturation keeps, for every derivable edge, the best (maximal respectively minimal) weight, re-queues an edge exactly when its weight changed, and marks an edge as unbounded when it still changes after the round limit. The work set processes rounds in order, stops exactly when nothing is pending, and the loop annotation of an edge is only replaced for a strictly better weight.',
  ['weighted PDAs','cyclic automata','weight domains'],'for every weighted PDA and automaton, including ones with improving cycles','improving cycles need an unbounded number of iterations; tests fix a few',
  [I+'internal/PdaSaturation.h',I+'utils/workset.h',I+'internal/PAutomatonAlgorithms.h'],[('fixed point loop','fixed_point_workset::step/run/finalize'),('pre* step','internal::PreStarFixedPointSaturation::step_with'),('post* step','internal::PostStarFixedPointSaturation::step_with')])
p('P05','A reported trace is a real run of the PDA for the recorded annotations',
  'Every edge added by saturation carries an annotation naming the rule and the intermediate state or label that derived it, and unwinding these annotations from an accepting path undoes exactly one derivation step at a time. The reported trace therefore consists of consecutive PDA configurations, each obtained from the previous by one existing rule, starting and ending in configurations accepted by the initial and final automata; decoding keeps state, stack order and labels.',
  ['PDAs','automata','trace modes'],'for every PDA, query and trace mode','traces of any length and any mix of rule kinds have to be unwound; tests replay a few short ones',
  [I+'internal/PdaSaturation.h',I+'Solver.h',I+'AutomatonPath.h',I+'internal/PAutomaton.h'],[('one-step undo','internal::TraceBack::next'),('trace assembly','Solver::_get_trace, Solver::get_trace*'),('annotations','internal::trace_t, TraceInfo, edge_annotation')])
p('P06','The product automaton accepts exactly the intersection',
  'Incrementally building the product of the initial and final automaton yields a state pair and an edge on a label exactly when both automata have matching edges on that label (epsilon edges of either side moving that side alone), and a product state is accepting exactly when both components are. Each reachable pair gets one stable product id that maps back to its two components, also for edges added after construction and in the dual search.',
  ['pairs of automata','order in which edges are added'],'for every pair of automata and every order of edge insertion during saturation','edges arrive in saturation order, interleaved with product exploration',
  [I+'PAutomatonProduct.h'],[('exploration','PAutomatonProduct::construct_reachable'),('incremental edges','PAutomatonProduct::add_edge'),('state ids','PAutomatonProduct::get_product_state / get_original_ids')])
p('P07','Every solver entry point decides reachability for its mode',
  'pre_star_accepts, post_star_accepts, dual_search_accepts, the fixed-point and the interleaving variants report true exactly when an accepting product state is reachable after the relevant saturation(s): the search stops early only when such a state was found (and, in Shortest mode, nothing cheaper is pending), and otherwise runs until the work is exhausted. Each variant saturates the automaton it documents, with the trace mode and early-termination hooks it was asked for.',
  ['PDAs','queries','engines','trace modes'],'for every PDA, query, engine and trace mode','agreement of all engines on all inputs cannot be sampled exhaustively',
  [I+'Solver.h',I+'internal/PdaSaturation.h'],[('drivers','Solver::*_accepts, dual_search, dual_short_search'),('saturation entry points','Solver::pre_star/post_star/*_fixed_point')])
p('P08','P-automata are built to accept exactly the described configurations',
  'A P-automaton built from an NFA and a set of states accepts (state, stack) exactly when the state is in the set and the NFA accepts the stack (wildcards, negated label sets and epsilon edges included); one built from a single configuration accepts just it. Adding states/edges, copying, moving and or-extending keep every edge, accepting flag and state link of the sources.',
  ['NFAs','state sets','label counts'],'for every NFA, set of states and alphabet size','the automata families are unbounded; the boundary cases (negation, wildcard, empty word) combine',
  [I+'internal/PAutomaton.h',I+'PAutomaton.h'],[('construction','internal::PAutomaton::construct / PAutomaton constructors'),('edges','add_edge, add_edges, add_epsilon_edge, add_state, or_extend')])
p('P09','Acceptance queries and path searches on P-automata are exact',
  'accepts and accept_path return a result exactly when some path from the given state reads the given stack into an accepting state (the epsilon edges that post* adds included, so an emptied stack is accepted too), and the returned path reads it and, in Shortest mode, has minimal weight. find_path and get_path_shortest return a path exactly when some PDA state can reach an accepting state, following existing edges only and with the weight they report.',
  ['automata','stacks'],'for every automaton, state and stack','search order, cycles and ties make sampled tests unrepresentative',
  [I+'internal/PAutomaton.h',I+'AutomatonPath.h'],[('membership','internal::PAutomaton::accepts, accept_path'),('search','internal::PAutomaton::find_path, get_path_shortest, make_back_edge_shortest')])
p('P10','NFA combinators implement their language operations',
  'concat, or_extend, star_extend, plus_extend, question_extend and the single-symbol constructors produce an NFA for exactly the corresponding language operation, leaving the result well formed (initial, accepting and state lists consistent). compile, follow_epsilon, successor and the acceptance of the empty word agree with that language, and copying or moving an NFA preserves it without sharing states.',
  ['NFAs','words'],'for every pair of NFAs and every word','language equality quantifies over all words and nestings of operators',
  [I+'NFA.h'],[('combinators','NFA::concat, or_extend, star_extend, plus_extend, question_extend'),('simulation','NFA::follow_epsilon, successor, compile, empty_accept')])
p('P11','The set and map containers behave as sorted sets and finite maps',
  'vector_set, vector_map and fut::set keep their elements sorted and unique; emplace, try_emplace and insert_or_assign report freshness correctly and (only) the latter overwrites; find, contains, get and iteration agree with what was inserted, also after conversion from hash to vector storage. priority_set returns the smallest element first and is_disjoint is true exactly when two sorted ranges share no element.',
  ['keys','operation sequences'],'for every sequence of operations and every key','ordering mistakes only show for particular insertion orders',
  [I+'utils/vector_set.h',I+'utils/fut_set.h',I+'utils/more_algorithms.h'],[('sorted vector map','fut::vector_map::emplace, lower_bound'),('nested sets','fut::detail::fut_set::emplace, get, contains'),('priority_set, is_disjoint','utils/more_algorithms.h')])
p('P12','Weights form an ordered commutative monoid',
  'For every weight type (scalar, array, vector, void) add is element-wise addition with zero as identity and never reads or writes outside its operands, per component max (and bottom, where it is not zero) absorbs the other operand, and less is the strict lexicographic order on which minimisation relies (missing components of signed or maximised vectors count as zero). Printing lists the components in order. linear_weight_function sums factor times value without losing precision, and ordered_weight_function yields the component values in the given order.',
  ['weight values','vector lengths'],'for all weight values and all lengths','vectors of different lengths and extreme values are outside sampled tests',
  [I+'Weight.h'],[('add/less','details::weight_impl'),('weight expressions','linear_weight_function, ordered_weight_function')])
p('P13','The best accepting path and its weight are extracted correctly',
  'On a saturated weighted automaton the fixed-point path search computes the best weight over all accepting paths, reports infinity exactly when an accepting path passes an improving cycle or an unbounded edge, and returns a path (or path with loop) that realises the reported weight. The same weight and path are reported through the product automaton with states mapped back to the original ones.',
  ['weighted automata','cycles'],'for every weighted automaton, including cyclic ones','cycle structure and tie-breaking are not sampled',
  [I+'internal/PAutomatonAlgorithms.h',I+'PAutomatonProduct.h',I+'internal/PAutomaton.h'],[('fixed point','internal::PAutomatonFixedPoint'),('back-tracking','PAutomatonFixedPoint::AutomatonTraceBack')])
p('P14','Reduction removes only rules that cannot take part in a query',
  'Reducing a PDA as the PDA factory builds it (the initial state only pushes) keeps every rule that can occur on a run from the initial state to the terminal state: forward and backward pruning and top-of-stack analysis over-approximate the reachable (state, top-of-stack) pairs for pop, swap, noop and push. A rule is cleared only if its origin cannot be reached with a label in its pre-set or its target cannot reach the end, and the reported sizes count the rules before and after.',
  ['PDAs','rules'],'for every PDA and pair of initial/terminal states','over-approximation must hold for all stack contents',
  [I+'internal/Reducer.h',I+'internal/Reducer.cpp',I+'internal/PDA.cpp'],[('tops of stack','Reducer::tos_t::merge_*'),('pruning','Reducer::forwards_prune, backwards_prune, target_tos_prune')])
p('P15','The PDA stores exactly the rules, labels and states it was given',
  'Every rule added through PDA, PDAFactory or the untyped interface is stored once at its origin with its target, operation, label set and weight, and its origin is recorded as predecessor of its target; wildcard and negated pre-sets denote all (other) labels. Labels and states get dense ids that stay stable and map back to the same value, conversion between storage kinds and all_rules preserve the rule set, and merging/intersecting label sets is exact.',
  ['rules','labels','states'],'for every sequence of insertions','all combinations of pre-set kinds and operations, and id stability over any history',
  [I+'PDA.h',I+'PDAFactory.h',I+'internal/PDA.h',I+'internal/PDA.cpp'],[('rule store','internal::PDA::add_untyped_rule_impl'),('label sets','internal::labels_t'),('typed front end','PDA::add_rule, insert_label, encode_pre, all_rules'),('factory','BasePDAFactory, DFS_PDAFactory')])
p('P16','Value types have coherent equality, ordering and hashing',
  'Equality, inequality, ordering and hashing of rules, traces, temporary edges, queue elements and container elements depend on the same identifying fields: equal values hash equally, and the order is a strict weak order whose equivalence is that equality. Priority-queue comparators order by weight in the direction their queue needs.',
  ['pairs of values'],'for all pairs of values','a missing field only matters for values that differ nowhere else',
  [I+'internal/PDA.h',I+'internal/PAutomaton.h',I+'internal/PdaSaturation.h',I+'utils/vector_set.h'],[('operators','operator==, operator<, AbslHashValue'),('comparators','*_comp::operator()')])
p('P17','CEGAR abstraction and refinement map labels consistently',
  'Each concrete label belongs to exactly one abstract label; insert, refine and lookups of AbstractionMapping and RefinementMapping keep both directions in agreement and refinement splits a bucket without losing or duplicating values. The refinements computed from a spurious trace separate the offending concrete values, and the abstract PDA and automata encode pre-sets and NFAs over the abstract labels.',
  ['label maps','refinements'],'for every mapping and every sequence of refinements','bucket contents and refinement histories are unbounded',
  [I+'cegar/AbstractionMapping.h',I+'cegar/Refinement.h',I+'cegar/AbstractionPDA.h',I+'cegar/AbstractionPAutomaton.h'],[('mappings','AbstractionMapping, RefinementMapping'),('refinement','make_pair_refinement, make_simple_pair_refinement, Refinement::combine')])
p('P18','CEGAR accepts only concretely feasible traces and refines otherwise',
  'cegar_solve reports a trace only when reconstruction found a concrete run whose initial and final headers satisfy the initial and final NFA, reports no trace only when the abstraction has none, and otherwise refines and repeats. While reconstructing, the header is updated per rule as the concrete rule prescribes (pop, swap, push, wildcards), and every concrete candidate is explored before declaring the trace spurious.',
  ['abstract traces','concrete rules','NFAs'],'for every abstraction and concrete system','the search tree over concrete rules and wildcards is unbounded',
  [I+'cegar/CegarPdaFactory.h',I+'cegar/AbstractionSolverInstance.h'],[('loop','CEGAR::cegar_solve'),('reconstruction','CegarPdaReconstruction::reconstruct_trace, update_header, finalize_header'),('header','Header')])
p('P19','Regular expressions and P-automaton expressions parse to their language',
  'The NFA expression parser gives alternation, concatenation, optional, star, plus, wildcard, label sets and negation their documented meaning and precedence, resolves labels through the supplied map and rejects text outside the grammar. The P-automaton expression parser combines the listed states with the parsed NFA, or-ing alternatives, and rejects state and label names the PDA does not have.',
  ['expression texts'],'for every expression','nesting and operator combinations are unbounded',
  [I+'parsing/NfaParserGrammar.h',I+'parsing/NfaParser.cpp',B+'parsing/PAutomatonParser.h'],[('semantic actions','NfaBuilder, nfa_build_action'),('P-automaton expressions','PAutomatonBuilder, PAutomatonParser')])
p('P20','JSON written for PDAs and automata is what the JSON readers expect',
  'The JSON printed for a PDA, P-automaton or solver instance states every rule, edge, accepting and initial state, label, weight type and state-name mode under the key and operation name that the JSON reader recognises for it, so that reading it back yields an equal object. The readers map each key, operation and weight to the corresponding part of the object they build.',
  ['PDAs','automata','weight types'],'for every object of every weight and state-name kind','every combination of weight type, naming mode and rule kind has to agree between two independent pieces of code',
  [I+'PDA.h',I+'PAutomaton.h',I+'PAutomatonProduct.h',B+'parsing/PdaJsonParser.h',B+'parsing/PAutomatonJsonParser.h',B+'parsing/SolverInstanceJsonParser.h'],[('writers','to_json, to_json_impl, details::*'),('readers','PdaSaxHandler, PAutomatonSaxHandler, SolverInstanceSaxHandler')])
p('P21','JSON readers reject malformed input instead of misreading it',
  'At every position of the input each JSON reader accepts exactly the value kinds and keys its format allows there, requires every mandatory key, reports an error and stops on anything else, and only delivers an object when the whole input was consumed in a consistent nesting. Dispatching between nested readers forwards each event to the active reader unchanged and switches only when that reader finished without error.',
  ['JSON documents'],'for every JSON document','the space of malformed documents is unbounded',
  [I+'utils/SaxHandlerHelpers.h',I+'utils/flags.h',B+'parsing/PdaJsonParser.h',B+'parsing/PAutomatonJsonParser.h',B+'parsing/SolverInstanceJsonParser.h',B+'parsing/SaxHandlerDispatch.h'],[('context stack','SAXHandlerContextStack, JsonParserContext, flag_mask'),('event handlers','*SaxHandler::key/string/number_*/start_*/end_*'),('dispatch','SAXHandlerDispatch')])
p('P22','The command line runs the engine and trace mode the user asked for',
  'For every combination of engine and trace type the verifier either runs that engine with that trace mode, reports the verdict and (when asked) the trace and weight it computed, or rejects the combination; nothing is silently replaced. Option texts map to the named trace type and print back to the same text, input format and weight type selection pick the matching parser, and the result and timings are reported under their own keys.',
  ['option combinations','inputs'],'for every combination of options','the product of engines, trace types, weight types and formats is larger than any test list',
  [B+'Verifier.h',B+'main.cpp',B+'parsing/Parsing.h',B+'parsing/Parsing.cpp'],[('dispatch','Verifier::verify'),('options','operator>>/<< for Trace_Type, Parsing::parse_instance, get_format, get_weight_type')])
p('P23','The result stream is well-formed JSON',
  'Whatever sequence of entries and nested objects is written, json_stream emits one well-formed JSON object: separators only between entries, balanced braces closed on close or destruction, keys and values in order and each value serialised as JSON. Nothing is written after the stream is closed.',
  ['call sequences'],'for every sequence of entry/begin/end calls','well-formedness is over all call sequences',
  [B+'utils/json_stream.h'],[('writer','json_stream::entry, entry_object, begin_object, end_object, close')])
p('P24','Structured keys survive storage in a prefix trie unchanged',
  'Converting a key (scalar, tuple, vector, string or nested tuple/vector) to bytes for the trie and back yields the same key, distinct keys have distinct byte strings, and ptrie_set/ptrie_map insert, exists and at use the same conversion. Ids returned by insert are what at/unpack take.',
  ['keys'],'for every key of every supported shape','all lengths and nestings of keys',
  [I+'utils/ptrie_interface.h'],[('converters','ptrie_interface, byte_vector_converter'),('facade','ptrie_set, ptrie_map')])
p('P25','Moving or copying an instance never leaves links to the old object',
  'After moving or copying a solver instance, product, automaton, PDA or NFA, every internal reference (automaton to PDA, product to automata and PDA, edges to states) denotes the new object, and the data of the source is transferred completely. No component keeps hidden shared mutable state: results depend only on the arguments.',
  ['histories of moves and copies'],'for every history of moves and copies','dangling links only show under particular histories',
  [I+'SolverInstance.h',I+'cegar/AbstractionSolverInstance.h',I+'PAutomatonProduct.h',I+'internal/PAutomaton.h',I+'NFA.h',I+'PDA.h'],[('rebinding','SolverInstance, AbstractionSolverInstance, PAutomatonProduct::copy, PAutomaton/NFA copy and move')])
NA=[('P90','Verification time and memory stay within the published complexity',
  'For every PDA the saturation procedures finish within the polynomial time and memory bounds published for pre* and post*. Reduction never increases them.',
  ['PDAs','hardware'],'for every PDA','asymptotic cost cannot be sampled',[I+'Solver.h'],[('solver','Solver')]),
 ('P91','All engines return the same verdict as an independent reachability oracle',
  'For every PDA and query, the verdict and the optimal weight printed by every engine equal those of an independent exhaustive reachability computation.',
  ['PDAs','queries'],'for every PDA and query','needs the whole computation, not one step of it',[I+'Solver.h'],[('solver','Solver')])]
for n in NA: p(*n)
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
