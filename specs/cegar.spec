== assign_to_bucket |  | (Refinement<int> &, std::vector<std::vector<int>> &, std::vector<std::vector<int>> &, std::vector<int> &&, std::vector<int> &&, const int &) | int, int | u64
-- file: include/pdaaal/cegar/Refinement.h
-- id: 0
let	$1	param(#0)._partitions
let	$2	param(#2)[ix($1, #0)]
let	$3	call(`pdaaal::is_disjoint`, $2', param(#3))
let	$4	param(#1)[ix($1, #0)]
let	$5	call(`pdaaal::is_disjoint`, $4', param(#4))
let	$6	exists($1, {$3 & $5})
do	foreach($1)	do(`push`, $1@0, param(#5))	$3 & $5
do	foreach($1)	set($4, call(`std::set_union`, $4', param(#3)))	$3 & $5
do	foreach($1)	set($2, call(`std::set_union`, $2', param(#4)))	$3 & $5
do	foreach($1)	exit	$3 & $5
do		do(`push`, $1, new(`std::vector`))	!$6
do		do(`push`, back($1), param(#5))	!$6
do		do(`push`, param(#1), param(#3))	!$6
do		do(`push`, param(#2), param(#4))	!$6
ret	firstval($1, {$3 & $5}, ix($1, #0))	$6
ret	size($1)	!$6
== assign_to_bucket |  | (Refinement<int> &, std::vector<std::vector<u64>> &, std::vector<std::vector<u64>> &, std::vector<u64> &&, std::vector<u64> &&, const int &) | int, u64 | u64
-- file: include/pdaaal/cegar/Refinement.h
-- same: 0
== CegarPdaFactory::CegarPdaFactory | CegarPdaFactory<std::string, W0> | (const std::unordered_set<std::string, std::hash<std::string>, std::equal_to<std::string>> &, std::function<int (const std::string &)> &&) | std::function<int (const std::string &)> | void
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 1
let	$1	L(#0)._many_to_one_map
let	$2	L(#0)._one_to_many_ids
let	$3	new(`std::vector`)
do	foreach(param(#0))	do(`pdaaal::AbstractionMapping::insert`, L(#0), param(#0)@0, false)	true
do		set(self._temp_pda, pdaaal::AbstractionPDA{_label_abstraction: pdaaal::RefinementMapping{_many_to_one_map: $1', _one_to_many_ids: $2'}, _states: $3})	true
dom		init(L(#0)._abstract_values, pdaaal::utils::ptrie_set{})	true
dom		init($2, $3)	true
dom		init($1, pdaaal::utils::ptrie_map{})	true
== CegarPdaFactory::reset_pda | CegarPdaFactory<std::string, W0> | (RefinementMapping<std::string> &&) |  | void
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 2
do		set(self._temp_pda, pdaaal::AbstractionPDA{_label_abstraction: param(#0), _states: new(`std::vector`)})	true
== CegarPdaFactory::abstract_label | CegarPdaFactory<std::string, W0> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 3
ret	call(`pdaaal::AbstractionPDA::abstract_label`, self._temp_pda, param(#0))	true
== CegarPdaReconstruction::CegarPdaReconstruction | CegarPdaReconstruction<std::string, u64, std::vector<std::pair<u64, Header<std::string>>>, std::vector<std::pair<u64, Header<std::string>>>, W0> | (const PAutomatonProduct<AbstractionPDA<std::string, W0, fut::vector>, AbstractionPAutomaton<std::string, W0>, W0, TI::Single> &, const NFA<std::string> &, const NFA<std::string> &) |  | void
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 4
let	$1	new(`std::vector`)
do		set(self._instance, addrof(param(#0)))	true
do		set(self._initial_nfa, addrof(param(#1)))	true
do		set(self._final_nfa, addrof(param(#2)))	true
do		set(self._initial_path, $1)	true
do		set(self._final_path, $1)	true
do		set(self._initial_abstract_stack, $1)	true
do		set(self._final_abstract_stack, $1)	true
== CegarPdaReconstruction::reconstruct_trace | CegarPdaReconstruction<std::string, u64, std::vector<std::pair<u64, Header<std::string>>>, std::vector<std::pair<u64, Header<std::string>>>, W0> | () | false | std::variant<std::vector<std::pair<u64, Header<std::string>>>, std::variant<std::pair<Refinement<u64>, Refinement<std::string>>, user_rule_t<W0, void>>, HeaderRefinement<std::string>>
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 5
let	$1	call(`pdaaal::Solver::get_rule_trace_and_paths`, self._instance)
let	$2	range(1, size($1.#4))
let	$3	range(1, size($1.#5))
let	$4	res(`pdaaal::CegarPdaReconstruction::initial_concrete_rules`, self, L(#4)[0])
let	$5	call(`pdaaal::CegarPdaReconstruction::finalize_header`, self', call(`pdaaal::CegarPdaReconstruction::initial_header`, self'))
let	$6	holds($5, `pdaaal::Header`)
let	$7	back(L(#2))._it
let	$8	eq($7', back(L(#2))._end')
let	$9	lin(#1, back(L(#2))._trace_id')
let	$10	lt($9, phi(#0, 0, #0))
let	$11	lt($9, size($1.#1))
let	$12	res(`pdaaal::CegarPdaReconstruction::search_concrete_rules`, self, L(#4)[$9], $7''^')
let	$13	call(`pdaaal::CegarPdaReconstruction::finalize_header`, self'', res(`pdaaal::CegarPdaReconstruction::get_header`, self, $7''^'))
let	$14	holds($13, `pdaaal::Header`)
let	$15	lt(phi(#0, 0, #0), $9)
let	$16	ite([{!$15 | $8 | empty(L(#2)')}, phi(#0, 0, #0), {!$8 & !empty(L(#2)') & $15}, $9])
let	$17	fold(loop(#0), 0, $16, $16, {!$11 & !$8 & $14 | empty(L(#2)')})
let	$18	lt($17, size($1.#1))
let	$19	new(`std::vector`)
let	$20	phi(#0, $19, #0)
let	$21	ite([{!$10 & !$8 & !empty(L(#2)')}, L(#1)', {$10 | $8 | empty(L(#2)')}, $20])
let	$22	fold(loop(#0), $19, $21, $21, {!$11 & !$8 & $14 | empty(L(#2)')})
let	$23	exists(loop(#0), true)
let	$24	get($13, `pdaaal::Header`).concrete_part
let	$25	get($5, `pdaaal::Header`).concrete_part
let	$26	pdaaal::HeaderRefinement{_refinements: $19}
let	$27	empty(L(#0)''._refinements)
let	$28	empty(L(#0)'._refinements)
do		set(self._initial_abstract_stack, $1.#2)	true
do		set(self._final_abstract_stack, $1.#3)	true
do	foreach($2)	do(`push`, L(#8), call(`pdaaal::AbstractionPAutomaton::get_nfastate`, self._instance._initial, L(#3)[$2@0]))	true
do		set(self._initial_path, L(#8)')	true
do	foreach($3)	do(`push`, L(#6), call(`pdaaal::AbstractionPAutomaton::get_nfastate`, self._instance._final, L(#5)[$3@0]))	true
do		do(`pdaaal::CegarPdaReconstruction::initial_concrete_rules`, self, L(#4)[0])	!empty($1.#1)
do		set(self._final_path, L(#6)')	true
do		do(`push`, L(#2), pdaaal::CegarPdaReconstruction::search_state_t{_end: end($4), _it: begin($4), _trace_id: 0})	!empty($1.#1)
do		do(`pdaaal::HeaderRefinement::combine`, L(#0), get($5, `1UL`))	!$6 & empty($1.#1)
do	loop(#0)	do(`pop`, L(#2))	!empty(L(#2)') & $8
do	loop(#0)	do(`push`, L(#1), $7''^')	!$10 & !$8 & !empty(L(#2)')
do	loop(#0)	do(`pdaaal::CegarPdaReconstruction::search_concrete_rules`, self, L(#4)[$9], $7''^')	!$8 & !empty(L(#2)') & $11
do	loop(#0)	do(`push`, L(#2), pdaaal::CegarPdaReconstruction::search_state_t{_end: end($12), _it: begin($12), _trace_id: $9})	!$8 & !empty(L(#2)') & $11
do	loop(#0)	set($7, lin(#1, $7''))	!empty(L(#2)'') & !empty(L(#2)') & $8
do	loop(#0)	do(`pdaaal::CegarPdaReconstruction::get_header`, self, $7''^')	!$11 & !$8 & !empty(L(#2)')
do	loop(#0)	do(`pdaaal::HeaderRefinement::combine`, L(#0), get($13, `1UL`))	!$11 & !$14 & !$8 & !empty(L(#2)')
do	loop(#0)	set($7, lin(#1, $7'))	!$11 & !$14 & !$8 & !empty(L(#2)')
do	loop(#0)	exit	!$11 & !$8 & $14 | empty(L(#2)')
do		do(`pdaaal::CegarPdaReconstruction::find_initial_refinement`, self, L(#4)[0])	$18 & eq(0, $17)
do		do(`pdaaal::CegarPdaReconstruction::find_refinement`, self, L(#4)[$17], $22)	!eq(0, $17) & $18
do	foreach(L(#2))	do(`push`, L(#7), L(#2)@0._it''^'')	!$11 & !$18 & !$8 & $14 & $23 | !$18 & $6 & empty($1.#1)
do		do(`pdaaal::CegarPdaReconstruction::get_concrete_trace`, self, L(#7)', $24, L(#3)[0])	!$11 & !$18 & !$8 & !empty(L(#2)') & $14 & $23
do		do(`pdaaal::CegarPdaReconstruction::get_concrete_trace`, self, L(#7)', $25, L(#3)[0])	!$14 & !$18 & $6 & empty($1.#1) | !$18 & !$23 & $6 & empty($1.#1) | !$18 & $11 & $6 & empty($1.#1) | !$18 & $6 & $8 & empty($1.#1) | !$18 & $6 & empty($1.#1) & empty(L(#2)')
dom		init(L(#8), $19)	true
dom		init(L(#6), $19)	true
dom		init(L(#2), $19)	true
dom		init(L(#0), $26)	true
dom	loop(#0)	init(L(#1), ite([{!$8 & !empty(L(#2)') & $15}, $19, {!$15 | $8 | empty(L(#2)')}, $20]))	true
dom		init(L(#7), $19)	true
dom		init(L(#3), $19)	true
dom		init(L(#4), $19)	true
dom		init(L(#5), $19)	true
ret	res(`pdaaal::CegarPdaReconstruction::find_initial_refinement`, self, L(#4)[0])	$18 & eq(0, $17)
ret	res(`pdaaal::CegarPdaReconstruction::find_refinement`, self, L(#4)[$17], $22)	!eq(0, $17) & $18
ret	res(`pdaaal::CegarPdaReconstruction::get_concrete_trace`, self, L(#7)', $24, L(#3)[0])	!$11 & !$18 & !$8 & !empty(L(#2)') & $14 & $23
ret	res(`pdaaal::CegarPdaReconstruction::get_concrete_trace`, self, L(#7)', $25, L(#3)[0])	!$14 & !$18 & $6 & empty($1.#1) | !$18 & !$23 & $6 & empty($1.#1) | !$18 & $11 & $6 & empty($1.#1) | !$18 & $6 & $8 & empty($1.#1) | !$18 & $6 & empty($1.#1) & empty(L(#2)')
ret	L(#0)''	!$14 & !$18 & !$27 & !$6 & empty($1.#1) | !$18 & !$23 & !$27 & !$6 & empty($1.#1) | !$18 & !$27 & !$6 & $11 & empty($1.#1) | !$18 & !$27 & !$6 & $8 & empty($1.#1) | !$18 & !$27 & !$6 & empty($1.#1) & empty(L(#2)')
ret	L(#0)'	!$14 & !$18 & !$28 & !empty($1.#1) | !$18 & !$23 & !$28 & !empty($1.#1) | !$18 & !$28 & !empty($1.#1) & $11 | !$18 & !$28 & !empty($1.#1) & $8 | !$18 & !$28 & !empty($1.#1) & empty(L(#2)')
ret	$26	!$14 & !$18 & !$6 & $27 & empty($1.#1) | !$14 & !$18 & !empty($1.#1) & $28 | !$18 & !$23 & !$6 & $27 & empty($1.#1) | !$18 & !$23 & !empty($1.#1) & $28 | !$18 & !$6 & $11 & $27 & empty($1.#1) | !$18 & !$6 & $27 & $8 & empty($1.#1) | !$18 & !$6 & $27 & empty($1.#1) & empty(L(#2)') | !$18 & !empty($1.#1) & $11 & $28 | !$18 & !empty($1.#1) & $28 & $8 | !$18 & !empty($1.#1) & $28 & empty(L(#2)')
== CegarPdaReconstruction::search_state_t::search_state_t | search_state_t | (std::vector<std::pair<u64, Header<std::string>>> &&, u64) |  | void
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 6
do		set(self._end, end(param(#0)))	true
do		set(self._it, begin(param(#0)))	true
do		set(self._trace_id, param(#1))	true
== make_pair_refinement |  | (std::vector<std::pair<int, int>> &&, std::vector<std::pair<int, int>> &&, std::vector<int> &&, u64, u64) | int, int | std::pair<Refinement<int>, Refinement<int>>
-- file: include/pdaaal/cegar/Refinement.h
-- id: 7
let	$1	new(`std::vector`)
let	$2	foreach(param(#0))
let	$3	param(#0)@0.#0'
let	$4	18446744073709551615
let	$5	back(L(#0)).#0'
let	$6	param(#0)@0.#1'
let	$7	foreach(param(#1))
let	$8	param(#1)@0.#0'
let	$9	param(#1)@0.#1'
let	$10	new(`std::binary_function`)
let	$11	pdaaal::CompFirst{comp: rec(`std::less`, [`<base>`, $10])}
let	$12	pdaaal::EqFirst{comp: rec(`std::equal_to`, [`<base>`, $10])}
let	$13	call(`std::equal_range`, begin(param(#0)), end(param(#0)), L(#0)@0.#0', $11)
let	$14	range($13.#0, $13.#1)
let	$15	call(`std::equal_range`, begin(param(#1)), end(param(#1)), L(#0)@0.#0', $11)
let	$16	range($15.#0, $15.#1)
let	$17	pdaaal::Refinement{_partitions: L(#5)', abstract_id: param(#3)}
let	$18	phi(#1, begin(L(#0)), #0)
dom		do(`push`, L(#5), $1)	true
do		do(`push`, L(#7), $1)	true
do		do(`std::sort`, param(#0))	true
do		do(`std::sort`, param(#1))	true
do	$2	do(`push`, L(#0), tuple{#0: $3, #1: $4})	!eq($3, $5) | empty(L(#0)')
do	$2	do(`insert`, L(#9), $6)	true
do	$7	do(`push`, L(#0), tuple{#0: $8, #1: $4})	!eq($8, $5)
do	$7	do(`insert`, L(#9), $9)	true
do		do(`std::inplace_merge`, begin(L(#0)), lin(#0, size(L(#0)'), begin(L(#0))), end(L(#0)), $11)	true
do		do(`std::unique`, L(#0), $12)	true
do		do(`erase`, L(#0), res(`std::unique`, L(#0), $12), end(L(#0)))	true
do		do(`push`, L(#12), $1)	true
do		do(`push`, L(#11), $1)	true
do	foreach(L(#0)) ; foreach($14)	do(`push`, L(#8), $14@0^.#1)	!eq($14@0^.#1, back(L(#8))') | empty(L(#8)')
do	foreach(L(#0)) ; foreach($16)	do(`push`, L(#2), $16@0^.#1)	!eq(back(L(#2))', $16@0^.#1) | empty(L(#2)')
do	foreach(L(#0))	do(`pdaaal::assign_to_bucket`, $17, L(#12)', L(#11)', L(#8)', L(#2)', L(#0)@0.#0')	true
do	foreach(L(#0))	set(L(#0)@0.#1, res(`pdaaal::assign_to_bucket`, $17, L(#12)', L(#11)', L(#8)', L(#2)', L(#0)@0.#0'))	true
do		do(`push`, L(#3), $1)	true
do		do(`push`, L(#1), $1)	true
do	foreach(L(#9)) ; $2	do(`push`, L(#6), $3)	!eq($3, back(L(#6))') & eq($6, L(#9)@0'') | empty(L(#6)') & eq($6, L(#9)@0'')
do	foreach(L(#9)) ; foreach(L(#6))	do(`push`, L(#10), call(`std::lower_bound`, $18, end(L(#0)), L(#6)@0', $11)^.#1)	true
do	foreach(L(#9))	do(`std::sort`, L(#10))	true
do	foreach(L(#9))	do(`std::unique`, L(#10))	true
do	foreach(L(#9))	do(`erase`, L(#10), res(`std::unique`, L(#10)), end(L(#10)))	true
do	foreach(L(#9)) ; $7	do(`push`, L(#4), $8)	!eq($8, back(L(#4))') & eq(L(#9)@0'', $9) | empty(L(#4)') & eq(L(#9)@0'', $9)
do	foreach(L(#9)) ; foreach(L(#4))	do(`push`, L(#13), call(`std::lower_bound`, $18, end(L(#0)), L(#4)@0', $11)^.#1)	true
do	foreach(L(#9))	do(`std::sort`, L(#13))	true
do	foreach(L(#9))	do(`std::unique`, L(#13))	true
do	foreach(L(#9))	do(`erase`, L(#13), res(`std::unique`, L(#13)), end(L(#13)))	true
do	foreach(L(#9))	do(`pdaaal::assign_to_bucket`, pdaaal::Refinement{_partitions: L(#7)', abstract_id: param(#4)}, L(#3)', L(#1)', L(#10)'', L(#13)'', L(#9)@0'')	true
do	foreach(param(#2))	do(`push`, back(L(#5)), param(#2)@0)	true
dom		init(L(#5), $1)	true
dom		init(L(#7), $1)	true
dom		init(L(#9), new(`std::unordered_set`))	true
dom		init(L(#0), $1)	true
dom		init(L(#12), $1)	true
dom		init(L(#11), $1)	true
dom	foreach(L(#0))	init(L(#8), $1)	true
dom	foreach(L(#0))	init(L(#2), $1)	true
dom		init(L(#3), $1)	true
dom		init(L(#1), $1)	true
dom	foreach(L(#9))	init(L(#6), $1)	true
dom	foreach(L(#9))	init(L(#10), $1)	true
dom	foreach(L(#9))	init(L(#4), $1)	true
dom	foreach(L(#9))	init(L(#13), $1)	true
ret	tuple{#0: pdaaal::Refinement{_partitions: L(#5)'', abstract_id: param(#3)}, #1: pdaaal::Refinement{_partitions: L(#7)'', abstract_id: param(#4)}}	true
== CegarPdaReconstruction::search_state_t::end | search_state_t | () const |  | bool
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 8
ret	eq(self._end, self._it)	true
== CegarPdaReconstruction::search_state_t::operator++ | search_state_t | () |  | void
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 9
do		set(self._it, lin(#1, self._it))	true
== CegarPdaReconstruction::reconstruct_trace | CegarPdaReconstruction<std::string, u64, std::vector<std::pair<u64, Header<std::string>>>, std::vector<std::pair<u64, Header<std::string>>>, W0> | () | true | std::variant<std::vector<std::pair<u64, Header<std::string>>>, std::variant<std::pair<Refinement<u64>, Refinement<std::string>>, user_rule_t<W0, void>>, HeaderRefinement<std::string>>
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- same: 5
== CegarPdaReconstruction::initial_header | CegarPdaReconstruction<std::string, u64, std::vector<std::pair<u64, Header<std::string>>>, std::vector<std::pair<u64, Header<std::string>>>, W0> | () const |  | Header<std::string>
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 10
ret	pdaaal::Header{concrete_part: new(`std::vector`), count_wildcards: size(self._initial_path)}	true
== CegarPdaReconstruction::update_header | CegarPdaReconstruction<std::string, u64, std::vector<std::pair<u64, Header<std::string>>>, std::vector<std::pair<u64, Header<std::string>>>, W0> | (const Header<std::string> &, const std::string &, const std::vector<std::string> &, u64) const |  | std::optional<std::pair<Header<std::string>, std::vector<std::string>>>
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 11
let	$1	eq(param(#1), back(L(#0)))
let	$2	param(#0).concrete_part
let	$3	self._initial_path
let	$4	param(#0).count_wildcards
let	$5	call(`pdaaal::CegarPdaReconstruction::check_nfa_path`, self._initial_nfa, $3, param(#1), lin(#0, size($3), mul(#-1, $4)))
do		do(`pop`, L(#0))	!empty($2) & $1
dom		init(L(#0), $2)	true
ret	nullopt	!$1 & !empty($2) | !$5 & empty($2)
ret	some(call(`pdaaal::CegarPdaReconstruction::update_header_wildcard_pre`, self, upd(param(#0), `concrete_part`, L(#0)'), param(#2), param(#3)))	!empty($2) & $1
ret	some(call(`pdaaal::CegarPdaReconstruction::update_header_wildcard_pre`, self, upd(param(#0), `count_wildcards`, lin(#-1, $4)), param(#2), param(#3)))	!eq(0, $4) & $5 & empty($2)
ret	some(call(`pdaaal::CegarPdaReconstruction::update_header_wildcard_pre`, self, param(#0), param(#2), param(#3)))	$5 & empty($2) & eq(0, $4)
== CegarPdaReconstruction::update_header_wildcard_pre | CegarPdaReconstruction<std::string, u64, std::vector<std::pair<u64, Header<std::string>>>, std::vector<std::pair<u64, Header<std::string>>>, W0> | (const Header<std::string> &, const std::vector<std::string> &, u64) const |  | std::pair<Header<std::string>, std::vector<std::string>>
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 12
ret	call(`pdaaal::CegarPdaReconstruction::update_header_wildcard_pre`, self, param(#0), param(#1), param(#2))	true
== CegarPdaReconstruction::update_header_wildcard_pre | CegarPdaReconstruction<std::string, u64, std::vector<std::pair<u64, Header<std::string>>>, std::vector<std::pair<u64, Header<std::string>>>, W0> | (Header<std::string> &&, const std::vector<std::string> &, u64) const |  | std::pair<Header<std::string>, std::vector<std::string>>
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 13
let	$1	foreach(range(0, param(#2)))
let	$2	param(#0).concrete_part
let	$3	param(#0).count_wildcards
do	$1	do(`push`, L(#0), call(`pdaaal::CegarPdaReconstruction::find_wildcard_specialization`, self, param(#0)'))	empty($2')
do	$1	do(`pop`, $2)	!empty($2')
do	$1	set($3, lin(#-1, $3'))	!eq($3', 0) & empty($2')
do	foreach(param(#1))	do(`push`, $2, param(#1)@0)	true
dom		init(L(#0), new(`std::vector`))	true
ret	tuple{#0: param(#0)'', #1: L(#0)'}	true
== CegarPdaReconstruction::find_wildcard_specialization | CegarPdaReconstruction<std::string, u64, std::vector<std::pair<u64, Header<std::string>>>, std::vector<std::pair<u64, Header<std::string>>>, W0> | (const Header<std::string> &) const |  | std::string
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 14
let	$1	self._initial_path
let	$2	lin(#0, size($1), mul(#-1, param(#0).count_wildcards))
let	$3	call(`pdaaal::AbstractionPDA::get_concrete_labels_range`, self._instance._pda, self._initial_abstract_stack[$2])
let	$4	call(`pdaaal::CegarPdaReconstruction::check_nfa_path`, self._initial_nfa, $1, $3@0, $2)
ret	first($3, $4)	exists($3, $4)
ret	""	!exists($3, $4)
== CegarPdaReconstruction::pre_labels | CegarPdaReconstruction<std::string, u64, std::vector<std::pair<u64, Header<std::string>>>, std::vector<std::pair<u64, Header<std::string>>>, W0> | (const Header<std::string> &) const |  | std::vector<std::string>
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 15
let	$1	param(#0).concrete_part
let	$2	param(#0).count_wildcards
let	$3	self._initial_path
let	$4	lin(#0, size($3), mul(#-1, $2))
let	$5	new(`std::vector`)
let	$6	self._initial_nfa._initial
let	$7	call(`pdaaal::NFA::leads_to_by_epsilon`, $6@0^._edges@0._destination, $3[$4])
let	$8	$6@0^._edges@0._symbols
let	$9	phi(#0, $5, #0)
let	$10	phi(#1, $9, #0)
let	$11	call(`std::set_union`, $10, call(`std::set_difference`, L(#0)', $8))
let	$12	eq(size(L(#0)'), size($11))
let	$13	$6@0^._edges@0._negated
let	$14	call(`std::set_union`, $10, call(`std::set_intersection`, L(#0)', $8))
let	$15	eq(size(L(#0)'), size($14))
let	$16	exists($6@0^._edges, {!$13 & $15 & $7 | $12 & $13 & $7 | $13 & $7 & empty($8)})
let	$17	exists($6, $16)
let	$18	eq(size($3), $2)
let	$19	list($3[lin(#-1, size($3), mul(#-1, $2))])
let	$20	$19@0^._edges@0
let	$21	call(`pdaaal::NFA::leads_to_by_epsilon`, $20._destination, $3[$4])
let	$22	empty($20._symbols)
let	$23	call(`std::set_union`, $10, call(`std::set_difference`, L(#0)', $20._symbols))
let	$24	eq(size(L(#0)'), size($23))
let	$25	call(`std::set_union`, $10, call(`std::set_intersection`, L(#0)', $20._symbols))
let	$26	eq(size(L(#0)'), size($25))
let	$27	exists($19@0^._edges, {!$20._negated & $21 & $26 | $20._negated & $21 & $22 | $20._negated & $21 & $24})
let	$28	exists($19, $27)
do		do(`std::sort`, L(#0))	!eq(0, $2) & empty($1)
dom		init(L(#0), call(`pdaaal::CegarPdaReconstruction::get_concrete_labels`, self, self._initial_abstract_stack[$4]))	true
ret	$5	empty($1) & eq(0, $2)
ret	list(back($1))	!empty($1)
ret	firstval($6, $16, firstval($6@0^._edges, {!$13 & $15 & $7 | $12 & $13 & $7 | $13 & $7 & empty($8)}, ite([{$13 & $7 & empty($8)}, L(#0)', {!empty($8) & $12 & $13 & $7}, $11, {!$13 & $15 & $7}, $14])))	!eq(0, $2) & $17 & $18 & empty($1)
ret	fold($6, $5, fold($6@0^._edges, $9, ite([{!empty($8) & $13 & $7}, $11, {!$13 & $7}, $14, {!$7 | $13 & empty($8)}, $10]), none, false), none, false)	!$17 & !eq(0, $2) & $18 & empty($1)
ret	firstval($19, $27, firstval($19@0^._edges, {!$20._negated & $21 & $26 | $20._negated & $21 & $22 | $20._negated & $21 & $24}, ite([{!$22 & $20._negated & $21 & $24}, $23, {$20._negated & $21 & $22}, L(#0)', {!$20._negated & $21 & $26}, $25])))	!$18 & !eq(0, $2) & $28 & empty($1)
ret	fold($19, $5, fold($19@0^._edges, $9, ite([{!$22 & $20._negated & $21}, $23, {!$20._negated & $21}, $25, {!$21 | $20._negated & $22}, $10]), none, false), none, false)	!$18 & !$28 & !eq(0, $2) & empty($1)
== CegarPdaReconstruction::finalize_header | CegarPdaReconstruction<std::string, u64, std::vector<std::pair<u64, Header<std::string>>>, std::vector<std::pair<u64, Header<std::string>>>, W0> | (const Header<std::string> &) const |  | std::variant<Header<std::string>, Refinement<std::string>>
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 16
let	$1	self._final_nfa
let	$2	self._final_path
let	$3	call(`pdaaal::CegarPdaReconstruction::check_nfa_path`, $1, $2, back(L(#0))', phi(#0, 0, #0))
let	$4	param(#0).concrete_part
let	$5	call(`pdaaal::CegarPdaReconstruction::concreterize_wildcards`, self, upd(param(#0), `concrete_part`, L(#0)'))
let	$6	exists(loop(#0), {!$3})
let	$7	self._final_abstract_stack[phi(#0, 0, #0)]
let	$8	eq(phi(#0, 0, #0), 0)
let	$9	$1._initial@0^._edges
let	$10	new(`std::vector`)
let	$11	phi(#1, $10, #0)
let	$12	phi(#2, $11, #0)
let	$13	call(`std::set_union`, $12, call(`std::set_difference`, L(#1)', $9@0._symbols))
let	$14	eq(size(L(#1)'), size($13))
let	$15	$2[phi(#0, 0, #0)]
let	$16	call(`pdaaal::NFA::leads_to_by_epsilon`, $9@0._destination, $15)
let	$17	call(`std::set_union`, $12, call(`std::set_intersection`, L(#1)', $9@0._symbols))
let	$18	eq(size(L(#1)'), size($17))
let	$19	empty($9@0._symbols)
let	$20	exists($9, {!$9@0._negated & $16 & $18 | $14 & $16 & $9@0._negated | $16 & $19 & $9@0._negated})
let	$21	exists($1._initial, $20)
let	$22	list(back(L(#0))')
let	$23	list($2[lin(#-1, phi(#0, 0, #0))])
let	$24	$23@0^._edges@0
let	$25	call(`std::set_union`, $12, call(`std::set_difference`, L(#1)', $24._symbols))
let	$26	eq(size(L(#1)'), size($25))
let	$27	empty($24._symbols)
let	$28	call(`pdaaal::NFA::leads_to_by_epsilon`, $24._destination, $15)
let	$29	call(`std::set_union`, $12, call(`std::set_intersection`, L(#1)', $24._symbols))
let	$30	eq(size(L(#1)'), size($29))
let	$31	exists($23@0^._edges, {!$24._negated & $28 & $30 | $24._negated & $26 & $28 | $24._negated & $27 & $28})
let	$32	exists($23, $31)
do	loop(#0)	do(`std::sort`, L(#1))	!$3 & !empty(L(#0)')
do	loop(#0)	do(`std::sort`, L(#2)[0])	!$3 & !empty(L(#0)')
do	loop(#0)	do(`std::sort`, L(#2)[1])	!$3 & !empty(L(#0)')
do	loop(#0)	do(`pop`, L(#0))	!empty(L(#0)') & $3
do	loop(#0)	exit	!$3 | empty(L(#0)')
do	foreach($4)	do(`push`, get($5, `pdaaal::Header`).concrete_part, $4@0)	!$6 & holds($5, `pdaaal::Header`) | empty(L(#0)') & holds($5, `pdaaal::Header`)
dom		init(L(#0), $4)	true
dom	loop(#0)	init(L(#1), call(`pdaaal::AbstractionPDA::get_concrete_labels`, self._instance._pda, $7))	true
dom	loop(#0)	init(L(#2), ite([{!$21 & !$3 & !empty(L(#0)') & $8}, list($22, fold($1._initial, $10, fold($9, $11, ite([{!$16 | $19 & $9@0._negated}, $12, {!$9@0._negated & $16}, $17, {!$19 & $16 & $9@0._negated}, $13]), none, false), none, false)), {!$3 & !$32 & !$8 & !empty(L(#0)')}, list($22, fold($23, $10, fold($23@0^._edges, $11, ite([{!$28 | $24._negated & $27}, $12, {!$27 & $24._negated & $28}, $25, {!$24._negated & $28}, $29]), none, false), none, false)), {!$3 & !empty(L(#0)') & $21 & $8}, list($22, firstval($1._initial, $20, firstval($9, {!$9@0._negated & $16 & $18 | $14 & $16 & $9@0._negated | $16 & $19 & $9@0._negated}, ite([{$16 & $19 & $9@0._negated}, L(#1)', {!$9@0._negated & $16 & $18}, $17, {!$19 & $14 & $16 & $9@0._negated}, $13])))), {!$3 & !$8 & !empty(L(#0)') & $32}, list($22, firstval($23, $31, firstval($23@0^._edges, {!$24._negated & $28 & $30 | $24._negated & $26 & $28 | $24._negated & $27 & $28}, ite([{!$27 & $24._negated & $26 & $28}, $25, {$24._negated & $27 & $28}, L(#1)', {!$24._negated & $28 & $30}, $29]))))]))	true
ret	firstval(loop(#0), {!$3 & !empty(L(#0)')}, pdaaal::Refinement{_partitions: L(#2)'', abstract_id: $7})	!empty(L(#0)') & $6
ret	$5	!$6 | empty(L(#0)')
== CegarPdaReconstruction::get_concrete_labels | CegarPdaReconstruction<std::string, u64, std::vector<std::pair<u64, Header<std::string>>>, std::vector<std::pair<u64, Header<std::string>>>, W0> | (u64) const |  | std::vector<std::string>
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 17
ret	call(`pdaaal::AbstractionPDA::get_concrete_labels`, self._instance._pda, param(#0))	true
== CegarPdaReconstruction::get_concrete_labels_range | CegarPdaReconstruction<std::string, u64, std::vector<std::pair<u64, Header<std::string>>>, std::vector<std::pair<u64, Header<std::string>>>, W0> | (u64) const |  | RefinementMapping<std::string>::concrete_value_range
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 18
ret	call(`pdaaal::AbstractionPDA::get_concrete_labels_range`, self._instance._pda, param(#0))	true
== CegarPdaReconstruction::label_maps_to | CegarPdaReconstruction<std::string, u64, std::vector<std::pair<u64, Header<std::string>>>, std::vector<std::pair<u64, Header<std::string>>>, W0> | (const std::string &, u64) const |  | bool
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 19
ret	call(`pdaaal::AbstractionPDA::maps_to`, self._instance._pda, param(#0), param(#1))	true
== CegarPdaReconstruction::concreterize_wildcards | CegarPdaReconstruction<std::string, u64, std::vector<std::pair<u64, Header<std::string>>>, std::vector<std::pair<u64, Header<std::string>>>, W0> | (Header<std::string> &&) const |  | std::variant<Header<std::string>, Refinement<std::string>>
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 20
let	$1	self._initial_abstract_stack
let	$2	param(#0).count_wildcards
let	$3	$1[lin(#0, mul(#-1, $2'), size($1))]
let	$4	call(`pdaaal::AbstractionPDA::get_concrete_labels_range`, self._instance._pda, $3)
let	$5	self._initial_path
let	$6	call(`pdaaal::CegarPdaReconstruction::check_nfa_path`, self._initial_nfa, $5, $4@0, lin(#0, size($5), mul(#-1, $2')))
let	$7	self._final_path
let	$8	call(`pdaaal::CegarPdaReconstruction::check_nfa_path`, self._final_nfa, $7, $4@0, lin(#0, mul(#-1, $2'), size($7)))
let	$9	exists($4, {$6 & $8})
let	$10	new(`std::vector`)
let	$11	exists(loop(#0), true)
do	loop(#0) ; foreach($4)	do(`push`, L(#0), $4@0)	!eq($2', 0) & $6 & $8
do	loop(#0) ; foreach($4)	do(`push`, L(#2), $4@0)	!$8 & !eq($2', 0) & $6
do	loop(#0) ; foreach($4)	do(`push`, L(#3), $4@0)	!$6 & !eq($2', 0) & $8
do	loop(#0) ; foreach($4)	exit	!eq($2', 0) & $6 & $8
do	loop(#0)	do(`std::sort`, L(#1)[0])	!$9 & !eq($2', 0)
do	loop(#0)	do(`std::sort`, L(#1)[1])	!$9 & !eq($2', 0)
do	loop(#0)	set($2, lin(#-1, $2'))	!eq($2', 0) & $9
do	loop(#0)	exit	!$9 | eq($2', 0)
dom		init(L(#0), $10)	true
dom	loop(#0)	init(L(#3), $10)	true
dom	loop(#0)	init(L(#2), $10)	true
dom	loop(#0)	init(L(#1), list(L(#2)', L(#3)'))	true
ret	pdaaal::Refinement{_partitions: L(#1)'', abstract_id: $3}	!$9 & !eq($2', 0) & $11
ret	pdaaal::Header{concrete_part: ctor(`std::vector`, rbegin(L(#0)), rend(L(#0))), count_wildcards: 0}	!$11 | $9 | eq($2', 0)
== CegarPdaReconstruction::check_nfa_path | CegarPdaReconstruction<std::string, u64, std::vector<std::pair<u64, Header<std::string>>>, std::vector<std::pair<u64, Header<std::string>>>, W0> | (const NFA<std::string> &, const std::vector<const NFA<std::string>::state_t *> &, std::string, u64) |  | bool
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 21
let	$1	param(#1)[param(#3)]
ret	{!eq(param(#3), 0) & call(`pdaaal::NFA::has_as_successor`, param(#1)[lin(#-1, param(#3))], param(#2), $1) | call(`pdaaal::NFA::has_as_successor`, param(#0)._initial, param(#2), $1) & eq(param(#3), 0)}	true
== make_simple_pair_refinement |  | (std::vector<std::pair<int, int>> &&, std::vector<std::pair<int, int>> &&, std::vector<int> &&, u64, u64) | int, int | std::pair<Refinement<int>, Refinement<int>>
-- file: include/pdaaal/cegar/Refinement.h
-- id: 22
let	$1	new(`std::vector`)
let	$2	empty(param(#2))
let	$3	param(#1)[0].#0
let	$4	param(#0)[0].#0
let	$5	param(#0)[0].#1
let	$6	param(#1)[0].#1
let	$7	pdaaal::Refinement{_partitions: L(#1)'', abstract_id: param(#3)}
let	$8	pdaaal::Refinement{_partitions: L(#0)'', abstract_id: param(#4)}
let	$9	pdaaal::Refinement{_partitions: $1, abstract_id: param(#4)}
let	$10	pdaaal::Refinement{_partitions: $1, abstract_id: param(#3)}
dom		do(`push`, L(#1), $1)	!$2 | !eq($3, $4)
dom		do(`push`, back(L(#1)), $4)	!$2 | !eq($3, $4)
do		do(`push`, back(L(#1)), param(#2)[0])	!$2
do		do(`push`, back(L(#1)), $3)	!eq($3, $4) & $2
dom		do(`push`, L(#0), $1)	!eq($5, $6) & $2
do		do(`push`, back(L(#0)), $5)	!eq($5, $6) & $2
do		do(`push`, back(L(#0)), $6)	!eq($5, $6) & $2
dom		init(L(#1), $1)	true
dom		init(L(#0), $1)	true
ret	tuple{#0: $7, #1: $8}	!eq($3, $4) & !eq($5, $6) & $2
ret	tuple{#0: $7, #1: $9}	!$2 | !eq($3, $4) & eq($5, $6)
ret	tuple{#0: $10, #1: $8}	!eq($5, $6) & $2 & eq($3, $4)
ret	tuple{#0: $10, #1: $9}	$2 & eq($3, $4) & eq($5, $6)
== CEGAR::cegar_solve | CEGAR<Fac, Rec> | (Fac &&, const NFA<std::string> &, const NFA<std::string> &) | false, false | std::optional<std::vector<std::pair<u64, Header<std::string>>>>
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 23
let	$1	res(`pdaaal::BasePDAFactory::compile`, param(#0), param(#1), param(#2))._product
let	$2	res(`pdaaal::Solver::post_star_accepts`, $1)
let	$3	res(`pdaaal::CegarPdaReconstruction::reconstruct_trace`, L(#1))
let	$4	holds($3, `std::vector`)
let	$5	get($3, `std::variant`)
let	$6	holds($3, `std::variant`)
let	$7	eq(index($5), 0)
let	$8	res(`pdaaal::AbstractionPDA::move_label_map`, L(#2))
let	$9	get($3, `pdaaal::HeaderRefinement`)._refinements
let	$10	new(`std::vector`)
let	$11	exists(loop(#0), true)
do	loop(#0)	do(`pdaaal::BasePDAFactory::compile`, param(#0), param(#1), param(#2))	true
do	loop(#0)	do(`pdaaal::Solver::post_star_accepts`, $1)	true
do	loop(#0)	do(`pdaaal::CegarPdaReconstruction::reconstruct_trace`, L(#1))	$2
dom	loop(#0)	do(`pdaaal::AbstractionPDA::move_label_map`, L(#2))	!$4 & $2
do	loop(#0)	do(`pdaaal::RefinementMapping::refine`, L(#3), get($5, `0UL`).#1)	!$4 & $2 & $6 & $7
do	loop(#0)	do(`pdaaal::CegarPdaFactory::reset_pda`, param(#0), L(#3)')	!$4 & $2 & $6 & $7
do	loop(#0)	do(`pdaaal::CegarPdaFactory::reset_pda`, param(#0), $8)	!$4 & !$7 & $2 & $6
do	loop(#0) ; foreach($9)	do(`pdaaal::RefinementMapping::refine`, L(#0), $9@0)	!$4 & !$6 & $2
do	loop(#0)	do(`pdaaal::CegarPdaFactory::reset_pda`, param(#0), L(#0)')	!$4 & !$6 & $2
do	loop(#0)	exit	!$2 | $4
dom	loop(#0)	init(L(#4)._id_fast_lookup, $1._id_fast_lookup)	true
dom	loop(#0)	init(L(#4)._id_map, $1._id_map)	true
dom	loop(#0)	init(L(#4)._product._accepting, $1._product._accepting)	true
dom	loop(#0)	init(L(#4)._product._initial, $1._product._initial)	true
dom	loop(#0)	init(L(#4)._product._states, $1._product._states)	true
dom	loop(#0)	init(L(#1), Rec{_final_abstract_stack: $10, _final_nfa: addrof(param(#2)), _final_path: $10, _initial_abstract_stack: $10, _initial_nfa: addrof(param(#1)), _initial_path: $10, _instance: addrof(L(#4))})	true
dom	loop(#0)	init(L(#3), $8)	true
dom	loop(#0)	init(L(#0), $8)	true
ret	nullopt	!$2 & $11
ret	some(get($3, `std::vector`))	$11 & $2 & $4
== CEGAR::cegar_solve | CEGAR<Fac, Rec> | (Fac &&, const NFA<std::string> &, const NFA<std::string> &) | true, false | std::optional<std::vector<std::pair<u64, Header<std::string>>>>
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 24
let	$1	res(`pdaaal::BasePDAFactory::compile`, param(#0), param(#1), param(#2))._product
let	$2	res(`pdaaal::Solver::pre_star_accepts`, $1)
let	$3	res(`pdaaal::CegarPdaReconstruction::reconstruct_trace`, L(#1))
let	$4	holds($3, `std::vector`)
let	$5	get($3, `std::variant`)
let	$6	holds($3, `std::variant`)
let	$7	eq(index($5), 0)
let	$8	res(`pdaaal::AbstractionPDA::move_label_map`, L(#0))
let	$9	get($3, `pdaaal::HeaderRefinement`)._refinements
let	$10	new(`std::vector`)
let	$11	exists(loop(#0), true)
do	loop(#0)	do(`pdaaal::BasePDAFactory::compile`, param(#0), param(#1), param(#2))	true
do	loop(#0)	do(`pdaaal::Solver::pre_star_accepts`, $1)	true
do	loop(#0)	do(`pdaaal::CegarPdaReconstruction::reconstruct_trace`, L(#1))	$2
dom	loop(#0)	do(`pdaaal::AbstractionPDA::move_label_map`, L(#0))	!$4 & $2
do	loop(#0)	do(`pdaaal::RefinementMapping::refine`, L(#2), get($5, `0UL`).#1)	!$4 & $2 & $6 & $7
do	loop(#0)	do(`pdaaal::CegarPdaFactory::reset_pda`, param(#0), L(#2)')	!$4 & $2 & $6 & $7
do	loop(#0)	do(`pdaaal::CegarPdaFactory::reset_pda`, param(#0), $8)	!$4 & !$7 & $2 & $6
do	loop(#0) ; foreach($9)	do(`pdaaal::RefinementMapping::refine`, L(#3), $9@0)	!$4 & !$6 & $2
do	loop(#0)	do(`pdaaal::CegarPdaFactory::reset_pda`, param(#0), L(#3)')	!$4 & !$6 & $2
do	loop(#0)	exit	!$2 | $4
dom	loop(#0)	init(L(#4)._id_fast_lookup, $1._id_fast_lookup)	true
dom	loop(#0)	init(L(#4)._id_map, $1._id_map)	true
dom	loop(#0)	init(L(#4)._product._accepting, $1._product._accepting)	true
dom	loop(#0)	init(L(#4)._product._initial, $1._product._initial)	true
dom	loop(#0)	init(L(#4)._product._states, $1._product._states)	true
dom	loop(#0)	init(L(#4)._swap_initial_final, $1._swap_initial_final)	true
dom	loop(#0)	init(L(#1), Rec{_final_abstract_stack: $10, _final_nfa: addrof(param(#2)), _final_path: $10, _initial_abstract_stack: $10, _initial_nfa: addrof(param(#1)), _initial_path: $10, _instance: addrof(L(#4))})	true
dom	loop(#0)	init(L(#2), $8)	true
dom	loop(#0)	init(L(#3), $8)	true
ret	nullopt	!$2 & $11
ret	some(get($3, `std::vector`))	$11 & $2 & $4
== CEGAR::cegar_solve | CEGAR<Fac, Rec> | (Fac &&, const NFA<std::string> &, const NFA<std::string> &) | false, true | std::optional<std::vector<std::pair<u64, Header<std::string>>>>
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 25
let	$1	res(`pdaaal::BasePDAFactory::compile`, param(#0), param(#1), param(#2))._product
let	$2	res(`pdaaal::Solver::dual_search_accepts`, $1)
let	$3	res(`pdaaal::CegarPdaReconstruction::reconstruct_trace`, L(#2))
let	$4	holds($3, `std::vector`)
let	$5	get($3, `std::variant`)
let	$6	holds($3, `std::variant`)
let	$7	eq(0, index($5))
let	$8	res(`pdaaal::AbstractionPDA::move_label_map`, L(#1))
let	$9	get($3, `pdaaal::HeaderRefinement`)._refinements
let	$10	new(`std::vector`)
let	$11	exists(loop(#0), true)
do	loop(#0)	do(`pdaaal::BasePDAFactory::compile`, param(#0), param(#1), param(#2))	true
do	loop(#0)	do(`pdaaal::Solver::dual_search_accepts`, $1)	true
do	loop(#0)	do(`pdaaal::CegarPdaReconstruction::reconstruct_trace`, L(#2))	$2
dom	loop(#0)	do(`pdaaal::AbstractionPDA::move_label_map`, L(#1))	!$4 & $2
do	loop(#0)	do(`pdaaal::RefinementMapping::refine`, L(#3), get($5, `0UL`).#1)	!$4 & $2 & $6 & $7
do	loop(#0)	do(`pdaaal::CegarPdaFactory::reset_pda`, param(#0), L(#3)')	!$4 & $2 & $6 & $7
do	loop(#0)	do(`pdaaal::CegarPdaFactory::reset_pda`, param(#0), $8)	!$4 & !$7 & $2 & $6
do	loop(#0) ; foreach($9)	do(`pdaaal::RefinementMapping::refine`, L(#4), $9@0)	!$4 & !$6 & $2
do	loop(#0)	do(`pdaaal::CegarPdaFactory::reset_pda`, param(#0), L(#4)')	!$4 & !$6 & $2
do	loop(#0)	exit	!$2 | $4
dom	loop(#0)	init(L(#0)._id_fast_lookup, $1._id_fast_lookup)	true
dom	loop(#0)	init(L(#0)._id_fast_lookup_back, $1._id_fast_lookup_back)	true
dom	loop(#0)	init(L(#0)._id_map, $1._id_map)	true
dom	loop(#0)	init(L(#0)._product._accepting, $1._product._accepting)	true
dom	loop(#0)	init(L(#0)._product._initial, $1._product._initial)	true
dom	loop(#0)	init(L(#0)._product._states, $1._product._states)	true
dom	loop(#0)	init(L(#2), Rec{_final_abstract_stack: $10, _final_nfa: addrof(param(#2)), _final_path: $10, _initial_abstract_stack: $10, _initial_nfa: addrof(param(#1)), _initial_path: $10, _instance: addrof(L(#0))})	true
dom	loop(#0)	init(L(#3), $8)	true
dom	loop(#0)	init(L(#4), $8)	true
ret	nullopt	!$2 & $11
ret	some(get($3, `std::vector`))	$11 & $2 & $4
== RefinementMapping::RefinementMapping | RefinementMapping<std::string> | (AbstractionMapping<std::string, int> &&) | int | void
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 26
do		set(self._many_to_one_map, param(#0)._many_to_one_map)	true
do		set(self._one_to_many_ids, param(#0)._one_to_many_ids)	true
== RefinementMapping::refine | RefinementMapping<std::string> | (const Refinement<std::string> &) |  | void
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 27
let	$1	param(#0)._partitions
let	$2	self._one_to_many_ids
let	$3	new(`std::vector`)
let	$4	lt(1, size($1))
let	$5	eq(call(`std::max_element`, begin($1), end($1), fun(lt(size(lp(#0, #0)), size(lp(#0, #1))), [])), lin(#0, begin($1), ix($1, #0)))
let	$6	self._many_to_one_map
let	$7	call(`pdaaal::utils::ptrie_map::exists`, $6', $1@0@0).#1
let	$8	$2[param(#0).abstract_id]
do	foreach($1)	do(`push`, $2, $3)	!$5 & $4
do	foreach($1) ; foreach($1@0)	do(`get_data`, $6, $7)	!$5 & $4
do	foreach($1) ; foreach($1@0)	do(`push`, back($2), $7)	!$5 & $4
do	foreach($1) ; foreach($1@0)	do(`push`, L(#0), $7)	!$5 & $4
do		do(`std::sort`, L(#0))	$4
do		do(`std::sort`, $8)	$4
do		set($8, call(`std::set_difference`, $8'', L(#0)''))	$4
dom		init(L(#0), $3)	true
== RefinementMapping::exists | RefinementMapping<std::string> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 28
let	$1	self._many_to_one_map
let	$2	call(`pdaaal::utils::ptrie_map::exists`, $1, param(#0))
ret	tuple{#0: $2.#0, #1: call(`ptrie::map::get_data`, $1, $2.#1)}	$2.#0
ret	$2	!$2.#0
== RefinementMapping::maps_to | RefinementMapping<std::string> | (const std::string &, u64) const |  | bool
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 29
let	$1	call(`pdaaal::RefinementMapping::exists`, self, param(#0))
ret	{$1.#0 & eq(param(#1), $1.#1)}	true
== RefinementMapping::encode_many | RefinementMapping<std::string> | (const std::vector<std::string> &) const |  | std::vector<u64>
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 30
let	$1	self._many_to_one_map
do	foreach(param(#0))	do(`insert`, L(#0), call(`ptrie::map::get_data`, $1, call(`pdaaal::utils::ptrie_map::exists`, $1, param(#0)@0).#1))	true
do		do(`std::sort`, L(#1))	true
dom		init(L(#0), new(`std::unordered_set`))	true
dom		init(L(#1), copyof(L(#0)))	true
ret	L(#1)'	true
== RefinementMapping::get_concrete_values | RefinementMapping<std::string> | (u64) const |  | std::vector<std::string>
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 31
let	$1	self._one_to_many_ids
do	foreach($1[param(#0)])	do(`push`, L(#0), call(`pdaaal::utils::ptrie_map::at`, self._many_to_one_map, $1[param(#0)]@0))	lt(param(#0), size($1))
dom		init(L(#0), new(`std::vector`))	true
ret	L(#0)'	true
== RefinementMapping::concrete_value_range::concrete_value_range | RefinementMapping<std::string>::concrete_value_range | (const utils::ptrie_map<std::string, u64> *, const std::vector<u64> *) |  | void
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 32
do		set(self._map, param(#0))	true
do		set(self._range, param(#1))	true
== RefinementMapping::concrete_value_range::begin | RefinementMapping<std::string>::concrete_value_range | () const |  | utils::ptrie_access_iterator<utils::ptrie_map<std::string, u64>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>>
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 33
let	$1	eq(self._range, 0)
ret	pdaaal::utils::ptrie_access_iterator{_inner: begin(self._range^), _ptrie: self._map}	!$1
ret	pdaaal::utils::ptrie_access_iterator{_inner: new(`__gnu_cxx::__normal_iterator`), _ptrie: self._map}	$1
== RefinementMapping::concrete_value_range::end | RefinementMapping<std::string>::concrete_value_range | () const |  | utils::ptrie_access_iterator<utils::ptrie_map<std::string, u64>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>>
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 34
let	$1	eq(self._range, 0)
ret	pdaaal::utils::ptrie_access_iterator{_inner: end(self._range^), _ptrie: self._map}	!$1
ret	pdaaal::utils::ptrie_access_iterator{_inner: new(`__gnu_cxx::__normal_iterator`), _ptrie: self._map}	$1
== make_refinement |  | (std::vector<std::pair<int, int>> &&, std::vector<std::pair<int, int>> &&, u64, u64, std::vector<int> &&) | refinement_option_t::fast_refinement, int, int | std::pair<Refinement<int>, Refinement<int>>
-- file: include/pdaaal/cegar/Refinement.h
-- id: 35
ret	call(`pdaaal::make_simple_pair_refinement`, param(#0), param(#1), param(#4), param(#2), param(#3))	true
== RefinementMapping::get_concrete_values_range | RefinementMapping<std::string> | (u64) const |  | RefinementMapping<std::string>::concrete_value_range
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 36
let	$1	addr(self._many_to_one_map)
let	$2	self._one_to_many_ids
let	$3	lt(param(#0), size($2))
ret	pdaaal::RefinementMapping::concrete_value_range{_map: $1, _range: addr($2[param(#0)])}	$3
ret	pdaaal::RefinementMapping::concrete_value_range{_map: $1, _range: 0}	!$3
== RefinementMapping::size | RefinementMapping<std::string> | () const |  | u64
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 37
ret	size(self._one_to_many_ids)	true
== AbstractionMapping::AbstractionMapping | AbstractionMapping<std::string, int> | (std::function<int (const std::string &)> &&) |  | void
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 38
do		set(self._many_to_one_map, pdaaal::utils::ptrie_map{})	true
do		set(self._one_to_many_ids, new(`std::vector`))	true
do		set(self._map_fn, param(#0))	true
do		set(self._abstract_values, pdaaal::utils::ptrie_set{})	true
== AbstractionMapping::AbstractionMapping | AbstractionMapping<std::string, int> | (std::function<int (const std::string &)> &&, std::__detail::_Node_const_iterator<std::string, true, true>, std::__detail::_Node_const_iterator<std::string, true, true>) | std::function<int (const std::string &)>, std::__detail::_Node_const_iterator<std::string, true, true> | void
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- same: 38
== AbstractionMapping::insert | AbstractionMapping<std::string, int> | (const std::string &, bool) |  | std::pair<bool, u64>
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 39
let	$1	self._many_to_one_map
let	$2	fresh(`pdaaal::utils::ptrie_map::insert`, $1, param(#0))
let	$3	iter_of(`pdaaal::utils::ptrie_map::insert`, $1, param(#0))
let	$4	self._abstract_values
let	$5	res_invoke(self._map_fn, param(#0))
let	$6	self._one_to_many_ids
let	$7	fresh(`pdaaal::utils::ptrie_set::insert`, $4, $5)
do		do(`pdaaal::utils::ptrie_map::insert`, $1, param(#0))	!param(#1)
dom		do(`get_data`, $1, $2)	!param(#1)
do		invoke(self._map_fn, param(#0))	$3 | param(#1)
do		do(`pdaaal::utils::ptrie_set::insert`, $4, $5)	$3 | param(#1)
do		do(`resize`, $6, lin(#1, $7))	!lt($7, size($6)) & $3 | !lt($7, size($6)) & param(#1)
do		do(`push`, $6[$7], $2)	!param(#1) & $3
ret	tuple{#0: false, #1: res(`ptrie::map::get_data`, $1, $2)}	!$3 & !param(#1)
ret	tuple{#0: iter_of(`pdaaal::utils::ptrie_set::insert`, $4, $5), #1: $7}	$3 | param(#1)
== AbstractionMapping::insert_abstract | AbstractionMapping<std::string, int> | (const int &) |  | std::pair<bool, u64>
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 40
let	$1	self._abstract_values
let	$2	self._one_to_many_ids
let	$3	fresh(`pdaaal::utils::ptrie_set::insert`, $1, param(#0))
do		do(`pdaaal::utils::ptrie_set::insert`, $1, param(#0))	true
do		do(`resize`, $2, lin(#1, $3))	!lt($3, size($2))
ret	tuple{#0: iter_of(`pdaaal::utils::ptrie_set::insert`, $1, param(#0)), #1: $3}	true
== AbstractionMapping::exists | AbstractionMapping<std::string, int> | (const std::string &, bool) const |  | std::pair<bool, u64>
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 41
let	$1	call(`pdaaal::utils::ptrie_map::exists`, self._many_to_one_map, param(#0))
do		invoke(self._map_fn, param(#0))	$1.#0 | param(#1)
ret	$1	!$1.#0 & !param(#1)
ret	call(`pdaaal::utils::ptrie_set::exists`, self._abstract_values, res_invoke(self._map_fn, param(#0)))	$1.#0 | param(#1)
== AbstractionMapping::map | AbstractionMapping<std::string, int> | (const std::string &) const |  | int
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 42
do		invoke(self._map_fn, param(#0))	true
ret	res_invoke(self._map_fn, param(#0))	true
== AbstractionMapping::get_abstract_value | AbstractionMapping<std::string, int> | (u64) const |  | int
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 43
ret	call(`pdaaal::utils::ptrie_set::at`, self._abstract_values, param(#0))	true
== AbstractionMapping::size | AbstractionMapping<std::string, int> | () const |  | u64
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 44
ret	call(`pdaaal::RefinementMapping::size`, self)	true
== AbstractionMapping::get_concrete_values | AbstractionMapping<std::string, int> | (const int &) const |  | std::vector<std::string>
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 45
let	$1	call(`pdaaal::utils::ptrie_set::exists`, self._abstract_values, param(#0))
ret	call(`pdaaal::RefinementMapping::get_concrete_values`, self, $1.#1)	$1.#0
ret	call(`pdaaal::RefinementMapping::get_concrete_values`, self, size(self._one_to_many_ids))	!$1.#0
== AbstractionMapping::get_concrete_values_range | AbstractionMapping<std::string, int> | (const int &) const |  | RefinementMapping<std::string>::concrete_value_range
-- file: include/pdaaal/cegar/AbstractionMapping.h
-- id: 46
let	$1	call(`pdaaal::utils::ptrie_set::exists`, self._abstract_values, param(#0))
ret	call(`pdaaal::RefinementMapping::get_concrete_values_range`, self, $1.#1)	$1.#0
ret	call(`pdaaal::RefinementMapping::get_concrete_values_range`, self, size(self._one_to_many_ids))	!$1.#0
== Refinement::Refinement | Refinement<int> | (u64) |  | void
-- file: include/pdaaal/cegar/Refinement.h
-- id: 47
do		set(self._partitions, new(`std::vector`))	true
do		set(self.abstract_id, param(#0))	true
== Refinement::Refinement | Refinement<int> | (std::vector<int> &&, std::vector<int> &&, u64) |  | void
-- file: include/pdaaal/cegar/Refinement.h
-- id: 48
let	$1	self._partitions
do		do(`std::sort`, $1[0])	true
do		set($1, list(param(#0), param(#1)))	true
do		do(`std::sort`, $1[1])	true
do		set(self.abstract_id, param(#2))	true
== Refinement::combine | Refinement<int> | (Refinement<int> &&) |  | void
-- file: include/pdaaal/cegar/Refinement.h
-- id: 49
let	$1	self._partitions
let	$2	param(#0)._partitions
let	$3	foreach($1, `grows`)
let	$4	foreach(range(0, 2))
let	$5	$2[range(0, 2)@0]
let	$6	L(#1)[range(0, 2)@0]
let	$7	L(#2)[lin(#1, mul(#-1, range(0, 2)@0))]
let	$8	L(#2)[range(0, 2)@0]
let	$9	18446744073709551615
let	$10	eq(size($6'), size($6''))
let	$11	eq(range(0, 2)@0, 0)
let	$12	lt(lin(#0, size(L(#1)[0]''), mul(#-1, L(#0)[0]')), lin(#0, size(L(#1)[1]''), mul(#-1, L(#0)[1]')))
let	$13	eq(1, range(0, 2)@0)
let	$14	exists(range(0, 2), $10)
let	$15	make(`std::vector`, lin(#0, begin(L(#1)[0]), L(#0)[0]'), end(L(#1)[0]))
let	$16	make(`std::vector`, lin(#0, begin(L(#1)[1]), L(#0)[1]'), end(L(#1)[1]))
let	$17	eq(size($6'), size($5))
let	$18	new(`std::array`)
do		set($1, $2)	empty($1)
do	$3 ; $4	do(`std::set_intersection`, $1@0, $5, back_ins($6))	true
do	$3 ; $4	set(L(#0)[range(0, 2)@0], size($6'))	true
do	$3 ; $4	set($7, ix($1, #0))	!eq(ix($1, #0), $8') & $10 & eq($7', $9)
do	$3 ; $4	set($8, size($1'))	!$12 & !$14 & !eq($8'', $9) & $13 | !$14 & !eq($8'', $9) & $11 & $12
do	$3 ; $4	set($8, ix($1, #0))	!$11 & !$14 & !eq($8'', $9) & $12 | !$12 & !$13 & !$14 & !eq($8'', $9)
do	$3	do(`push`, $1, $15)	!$14 & $12
do	$3	do(`push`, $1, $16)	!$12 & !$14
do	$3	set($1@0, call(`std::set_difference`, $1@0'', $15))	!$14 & $12
do	$3	set($1@0, call(`std::set_difference`, $1@0'', $16))	!$12 & !$14
do	$4	do(`std::sort`, $6)	!$17 & !empty($1)
do	$4	do(`std::set_difference`, $5, $6, back_ins($1[$8']))	!$17 & !empty($1) & !eq($8', $9)
do	$4	do(`std::inplace_merge`, begin($1[$8']), lin(#0, begin($1[$8']), size($1[$8']')), end($1[$8']))	!$17 & !empty($1) & !eq($8', $9)
do	$4	do(`push`, $1, new(`std::vector`))	!$17 & !empty($1) & eq($8', $9)
do	$4	set(back($1), call(`std::set_difference`, $5, $6''))	!$17 & !empty($1) & eq($8', $9)
dom		init(L(#2), list(list($9, $9)))	true
dom		init(L(#1), $18)	true
dom	$3	init(L(#0), $18)	true
== make_refinement |  | (std::vector<std::pair<int, int>> &&, std::vector<std::pair<int, int>> &&, u64, u64, std::vector<int> &&) | refinement_option_t::best_refinement, int, int | std::pair<Refinement<int>, Refinement<int>>
-- file: include/pdaaal/cegar/Refinement.h
-- id: 50
ret	call(`pdaaal::make_pair_refinement`, param(#0), param(#1), param(#4), param(#2), param(#3))	true
== Refinement::empty | Refinement<int> | () const |  | bool
-- file: include/pdaaal/cegar/Refinement.h
-- id: 51
ret	empty(self._partitions)	true
== Refinement::partitions | Refinement<int> | () |  | std::vector<std::vector<int>> &
-- file: include/pdaaal/cegar/Refinement.h
-- id: 52
ret	self._partitions	true
== Refinement::partitions | Refinement<int> | () const |  | const std::vector<std::vector<int>> &
-- file: include/pdaaal/cegar/Refinement.h
-- same: 52
== HeaderRefinement::combine | HeaderRefinement<int> | (Refinement<int> &&) |  | void
-- file: include/pdaaal/cegar/Refinement.h
-- id: 53
let	$1	self._refinements
let	$2	eq(param(#0).abstract_id, $1@0.abstract_id)
do		do(`pdaaal::Refinement::combine`, first($1, $2), param(#0))	exists($1, $2)
do		do(`push`, $1, param(#0))	!exists($1, $2)
== HeaderRefinement::empty | HeaderRefinement<int> | () const |  | bool
-- file: include/pdaaal/cegar/Refinement.h
-- id: 54
ret	empty(self._refinements)	true
== HeaderRefinement::refinements | HeaderRefinement<int> | () const |  | const std::vector<Refinement<int>> &
-- file: include/pdaaal/cegar/Refinement.h
-- id: 55
ret	self._refinements	true
== Header::size | Header<std::string> | () const |  | u64
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 56
ret	lin(#0, self.count_wildcards, size(self.concrete_part))	true
== Header::top_is_concrete | Header<std::string> | () const |  | bool
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 57
ret	{!empty(self.concrete_part)}	true
== Header::empty | Header<std::string> | () const |  | bool
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 58
ret	{empty(self.concrete_part) & eq(self.count_wildcards, 0)}	true
== Header::is_concrete | Header<std::string> | () const |  | bool
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 59
ret	eq(self.count_wildcards, 0)	true
== Header::pop | Header<std::string> | () |  | void
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 60
let	$1	self.concrete_part
let	$2	self.count_wildcards
do		do(`pop`, $1)	!empty($1)
do		set($2, lin(#-1, $2))	!eq($2, 0) & empty($1)
== Header::append | Header<std::string> | (const std::vector<std::string> &) |  | void
-- file: include/pdaaal/cegar/CegarPdaFactory.h
-- id: 61
do	foreach(param(#0))	do(`push`, self.concrete_part, param(#0)@0)	true
== AbstractionPAutomaton::AbstractionPAutomaton | AbstractionPAutomaton<std::string, W0> | (const AbstractionPDA<std::string, W0, fut::vector> &, const NFA<std::string> &, const std::vector<u64> &) |  | void
-- file: include/pdaaal/cegar/AbstractionPAutomaton.h
-- id: 62
let	$1	lp(#0, #0)._negated
let	$2	lp(#0, #0)._symbols
let	$3	self._pautomaton_to_nfastate_map
do		do(`pdaaal::internal::PAutomaton::construct`, self, param(#1), param(#2), fun(ite([$1, call(`pdaaal::AbstractionPDA::encode_labels`, param(#0), $2, true), {!$1}, call(`pdaaal::AbstractionPDA::encode_labels`, param(#0), $2, false)]), []), fun(none, [eff(ctx([]), true, do(`insert`, $3, lp(#0, #1), lp(#0, #0)))]))	true
do		set(fld(self, `<base:pdaaal::internal::PAutomaton>`), ctor(`pdaaal::internal::PAutomaton`, param(#0), param(#2), call(`pdaaal::NFA::empty_accept`, param(#1))))	true
do		set($3, new(`std::unordered_map`))	true
== utils::ptrie_interface::to_ptrie | utils::ptrie_interface<int, void> | (const int &) |  | int
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 63
ret	param(#0)	true
== AbstractionPAutomaton::get_nfastate | AbstractionPAutomaton<std::string, W0> | (u64) const |  | const NFA<std::string>::state_t *
-- file: include/pdaaal/cegar/AbstractionPAutomaton.h
-- id: 64
let	$1	self._pautomaton_to_nfastate_map
let	$2	contains($1, param(#0))
ret	$1[param(#0)]	$2
ret	0	!$2
== utils::ptrie_interface::unpack | utils::ptrie_interface<int, void> | (const utils::ptrie_set<int> &, u64) | utils::ptrie_set<int> | int
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 65
ret	out(`ptrie::set_stable::unpack`, #1, param(#0), param(#1))	true
== AbstractionSolverInstance::AbstractionSolverInstance | AbstractionSolverInstance<std::string, W0> | (AbstractionPDA<std::string, W0, fut::vector> &&, const NFA<std::string> &, const std::vector<u64> &, const NFA<std::string> &, const std::vector<u64> &) |  | void
-- file: include/pdaaal/cegar/AbstractionSolverInstance.h
-- id: 66
do		set(self._pda, param(#0))	true
do		set(self._product, ctor(`pdaaal::PAutomatonProduct`, param(#0), param(#1), param(#2), param(#3), param(#4)))	true
== AbstractionSolverInstance::move_pda_refinement_mapping | AbstractionSolverInstance<std::string, W0> | () |  | RefinementMapping<std::string>
-- file: include/pdaaal/cegar/AbstractionSolverInstance.h
-- id: 67
do		do(`pdaaal::AbstractionPDA::move_label_map`, self._pda)	true
ret	res(`pdaaal::AbstractionPDA::move_label_map`, self._pda)	true
== AbstractionSolverInstance::move_pda_refinement_mapping | AbstractionSolverInstance<std::string, W0> | (const Refinement<std::string> &) |  | RefinementMapping<std::string>
-- file: include/pdaaal/cegar/AbstractionSolverInstance.h
-- id: 68
do		do(`pdaaal::AbstractionPDA::move_label_map`, self._pda)	true
do		do(`pdaaal::RefinementMapping::refine`, L(#0), param(#0))	true
dom		init(L(#0), res(`pdaaal::AbstractionPDA::move_label_map`, self._pda))	true
ret	L(#0)'	true
== AbstractionSolverInstance::move_pda_refinement_mapping | AbstractionSolverInstance<std::string, W0> | (const HeaderRefinement<std::string> &) |  | RefinementMapping<std::string>
-- file: include/pdaaal/cegar/AbstractionSolverInstance.h
-- id: 69
let	$1	param(#0)._refinements
do		do(`pdaaal::AbstractionPDA::move_label_map`, self._pda)	true
do	foreach($1)	do(`pdaaal::RefinementMapping::refine`, L(#0), $1@0)	true
dom		init(L(#0), res(`pdaaal::AbstractionPDA::move_label_map`, self._pda))	true
ret	L(#0)'	true
== AbstractionSolverInstance::operator-> | AbstractionSolverInstance<std::string, W0> | () |  | PAutomatonProduct<AbstractionPDA<std::string, W0, fut::vector>, AbstractionPAutomaton<std::string, W0>, W0, TI::Single> *
-- file: include/pdaaal/cegar/AbstractionSolverInstance.h
-- id: 70
ret	addr(self._product)	true
== AbstractionSolverInstance::operator-> | AbstractionSolverInstance<std::string, W0> | () const |  | const PAutomatonProduct<AbstractionPDA<std::string, W0, fut::vector>, AbstractionPAutomaton<std::string, W0>, W0, TI::Single> *
-- file: include/pdaaal/cegar/AbstractionSolverInstance.h
-- same: 70
== AbstractionSolverInstance::operator* | AbstractionSolverInstance<std::string, W0> | () |  | PAutomatonProduct<AbstractionPDA<std::string, W0, fut::vector>, AbstractionPAutomaton<std::string, W0>, W0, TI::Single> &
-- file: include/pdaaal/cegar/AbstractionSolverInstance.h
-- id: 71
ret	self._product	true
== AbstractionSolverInstance::operator* | AbstractionSolverInstance<std::string, W0> | () const |  | const PAutomatonProduct<AbstractionPDA<std::string, W0, fut::vector>, AbstractionPAutomaton<std::string, W0>, W0, TI::Single> &
-- file: include/pdaaal/cegar/AbstractionSolverInstance.h
-- same: 71
== AbstractionSolverInstance::get | AbstractionSolverInstance<std::string, W0> | () |  | PAutomatonProduct<AbstractionPDA<std::string, W0, fut::vector>, AbstractionPAutomaton<std::string, W0>, W0, TI::Single> &
-- file: include/pdaaal/cegar/AbstractionSolverInstance.h
-- id: 72
ret	self._product	true
== AbstractionSolverInstance::get | AbstractionSolverInstance<std::string, W0> | () const |  | const PAutomatonProduct<AbstractionPDA<std::string, W0, fut::vector>, AbstractionPAutomaton<std::string, W0>, W0, TI::Single> &
-- file: include/pdaaal/cegar/AbstractionSolverInstance.h
-- same: 72
== utils::ptrie_interface::unpack | utils::ptrie_interface<std::string, void> | (const utils::ptrie_map<std::string, u64> &, u64) | utils::ptrie_map<std::string, u64> | std::string
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 73
let	$1	call(`ptrie::set_stable::unpack`, param(#0), param(#1))
ret	ctor(`std::basic_string`, data($1), size($1))	true
== utils::ptrie_set::insert | utils::ptrie_set<int> | (const int &) |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 74
let	$1	call(`pdaaal::utils::ptrie_interface::to_ptrie`, param(#0))
do		do(`insert`, self, $1)	true
ret	res(`ptrie::set_stable::insert`, self, $1)	true
== utils::ptrie_set::exists | utils::ptrie_set<int> | (const int &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 75
ret	call(`ptrie::set_stable::exists`, self, call(`pdaaal::utils::ptrie_interface::to_ptrie`, param(#0)))	true
== utils::ptrie_set::at | utils::ptrie_set<int> | (u64) const |  | int
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 76
ret	call(`pdaaal::utils::ptrie_interface::unpack`, self, param(#0))	true
== utils::ptrie_map::insert | utils::ptrie_map<std::string, u64> | (const std::string &) |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 77
let	$1	call(`pdaaal::utils::ptrie_interface::to_ptrie`, param(#0))
do		do(`insert`, self, $1)	true
ret	res(`ptrie::map::insert`, self, $1)	true
== utils::ptrie_map::exists | utils::ptrie_map<std::string, u64> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 78
ret	call(`ptrie::set_stable::exists`, self, call(`pdaaal::utils::ptrie_interface::to_ptrie`, param(#0)))	true
== utils::ptrie_map::at | utils::ptrie_map<std::string, u64> | (u64) const |  | std::string
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 79
ret	call(`pdaaal::utils::ptrie_interface::unpack`, self, param(#0))	true
== utils::ptrie_access_iterator::ptrie_access_iterator | utils::ptrie_access_iterator<utils::ptrie_map<std::string, u64>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (const utils::ptrie_map<std::string, u64> *) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 80
do		set(self._inner, new(`__gnu_cxx::__normal_iterator`))	true
do		set(self._ptrie, param(#0))	true
== utils::ptrie_access_iterator::ptrie_access_iterator | utils::ptrie_access_iterator<utils::ptrie_map<std::string, u64>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (__gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>> &&, const utils::ptrie_map<std::string, u64> *) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 81
do		set(self._inner, param(#0))	true
do		set(self._ptrie, param(#1))	true
== utils::ptrie_access_iterator::operator* | utils::ptrie_access_iterator<utils::ptrie_map<std::string, u64>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | () const |  | std::string
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 82
ret	call(`pdaaal::utils::ptrie_map::at`, self._ptrie^, self._inner^)	true
== utils::ptrie_access_iterator::operator++ | utils::ptrie_access_iterator<utils::ptrie_map<std::string, u64>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | () |  | utils::ptrie_access_iterator<utils::ptrie_map<std::string, u64>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> &
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 83
do		set(self._inner, lin(#1, self._inner))	true
ret	self	true
== utils::ptrie_access_iterator::operator!= | utils::ptrie_access_iterator<utils::ptrie_map<std::string, u64>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (const utils::ptrie_access_iterator<utils::ptrie_map<std::string, u64>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> &) const |  | bool
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 84
ret	{!eq(self._inner, param(#0)._inner)}	true
== utils::ptrie_access_iterator::base | utils::ptrie_access_iterator<utils::ptrie_map<std::string, u64>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | () const |  | const __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>> &
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 85
ret	self._inner	true
== Refinement::Refinement | Refinement<std::string> | (u64) |  | void
-- file: include/pdaaal/cegar/Refinement.h
-- same: 47
== Refinement::Refinement | Refinement<std::string> | (std::vector<std::string> &&, std::vector<std::string> &&, u64) |  | void
-- file: include/pdaaal/cegar/Refinement.h
-- same: 48
== NFA::successor | NFA<std::string> | (const std::vector<NFA<std::string>::state_t *> &, const std::string &) | NFA<std::string>::state_t * | std::vector<NFA<std::string>::state_t *>
-- file: include/pdaaal/NFA.h
-- id: 86
let	$1	param(#0)@0^._edges
let	$2	$1@0._destination
let	$3	call(`std::lower_bound`, begin(L(#0)), end(L(#0)), $2)
let	$4	end($1@0._symbols)
let	$5	call(`std::lower_bound`, begin($1@0._symbols), $4, param(#1))
do	foreach(param(#0)) ; foreach($1)	do(`insert_at`, L(#0), $3, $2)	!$1@0._negated & !eq($3^, $2) & !eq($4, $5) & eq(param(#1), $5^) | !$1@0._negated & !eq($4, $5) & eq(end(L(#0)), $3) & eq(param(#1), $5^) | !eq($3^, $2) & !eq(param(#1), $5^) & $1@0._negated | !eq($3^, $2) & $1@0._negated & eq($4, $5) | !eq(param(#1), $5^) & $1@0._negated & eq(end(L(#0)), $3) | $1@0._negated & eq($4, $5) & eq(end(L(#0)), $3)
do		do(`pdaaal::NFA::follow_epsilon`, L(#0)')	true
dom		init(L(#0), new(`std::vector`))	true
ret	L(#0)''	true
== NFA::has_as_successor | NFA<std::string> | (const std::vector<NFA<std::string>::state_t *> &, const std::string &, const NFA<std::string>::state_t *) | NFA<std::string>::state_t * | bool
-- file: include/pdaaal/NFA.h
-- id: 87
let	$1	call(`pdaaal::NFA::successor`, param(#0), param(#1))
let	$2	call(`std::lower_bound`, begin($1), end($1), param(#2))
ret	{!eq(end($1), $2) & eq($2^, param(#2))}	true
== Refinement::combine | Refinement<std::string> | (Refinement<std::string> &&) |  | void
-- file: include/pdaaal/cegar/Refinement.h
-- same: 49
== NFA::intersect_edge_labels | NFA<std::string> | (const std::vector<NFA<std::string>::state_t *> &, const NFA<std::string>::state_t *, const std::vector<std::string> &) | NFA<std::string>::state_t * | std::vector<std::string>
-- file: include/pdaaal/NFA.h
-- id: 88
let	$1	param(#0)@0^._edges
let	$2	call(`pdaaal::NFA::leads_to_by_epsilon`, $1@0._destination, param(#1))
let	$3	empty($1@0._symbols)
let	$4	size(param(#2))
let	$5	new(`std::vector`)
let	$6	phi(#0, $5, #0)
let	$7	phi(#1, $6, #0)
let	$8	call(`std::set_union`, $7, call(`std::set_difference`, param(#2), $1@0._symbols))
let	$9	eq($4, size($8))
let	$10	call(`std::set_union`, $7, call(`std::set_intersection`, param(#2), $1@0._symbols))
let	$11	eq($4, size($10))
let	$12	exists($1, {!$1@0._negated & $11 & $2 | $1@0._negated & $2 & $3 | $1@0._negated & $2 & $9})
let	$13	exists(param(#0), $12)
ret	firstval(param(#0), $12, firstval($1, {!$1@0._negated & $11 & $2 | $1@0._negated & $2 & $3 | $1@0._negated & $2 & $9}, ite([{!$1@0._negated & $11 & $2}, $10, {!$3 & $1@0._negated & $2 & $9}, $8, {$1@0._negated & $2 & $3}, param(#2)])))	$13
ret	fold(param(#0), $5, fold($1, $6, ite([{!$2 | $1@0._negated & $3}, $7, {!$1@0._negated & $2}, $10, {!$3 & $1@0._negated & $2}, $8]), none, false), none, false)	!$13
== Refinement::partitions | Refinement<std::string> | () const |  | const std::vector<std::vector<std::string>> &
-- file: include/pdaaal/cegar/Refinement.h
-- same: 52
== AbstractionPDA::AbstractionPDA | AbstractionPDA<std::string, W0, fut::vector> | (AbstractionPDA<std::string, W0, fut::hash> &&) | fut::hash | void
-- file: include/pdaaal/cegar/AbstractionPDA.h
-- id: 89
let	$1	param(#0)._states
do		do(`pdaaal::AbstractionPDA::move_label_map`, param(#0))	true
do		set(self._states, ctor(`std::vector`, call(`std::make_move_iterator`, begin($1)), call(`std::make_move_iterator`, end($1))))	true
do		set(self._label_abstraction, res(`pdaaal::AbstractionPDA::move_label_map`, param(#0)))	true
== AbstractionPDA::AbstractionPDA | AbstractionPDA<std::string, W0, fut::vector> | (RefinementMapping<std::string> &&) |  | void
-- file: include/pdaaal/cegar/AbstractionPDA.h
-- id: 90
do		set(self._states, new(`std::vector`))	true
do		set(self._label_abstraction, param(#0))	true
== AbstractionPDA::move_label_map | AbstractionPDA<std::string, W0, fut::vector> | () |  | RefinementMapping<std::string>
-- file: include/pdaaal/cegar/AbstractionPDA.h
-- id: 91
ret	self._label_abstraction	true
== AbstractionPDA::number_of_labels | AbstractionPDA<std::string, W0, fut::vector> | () const |  | u64
-- file: include/pdaaal/cegar/AbstractionPDA.h
-- id: 92
ret	call(`pdaaal::RefinementMapping::size`, self._label_abstraction)	true
== HeaderRefinement::combine | HeaderRefinement<std::string> | (Refinement<std::string> &&) |  | void
-- file: include/pdaaal/cegar/Refinement.h
-- same: 53
== AbstractionPDA::encode_labels | AbstractionPDA<std::string, W0, fut::vector> | (const std::vector<std::string> &, bool) const |  | std::vector<u32>
-- file: include/pdaaal/cegar/AbstractionPDA.h
-- id: 93
let	$1	self._label_abstraction
let	$2	fun({!call(`std::includes`, begin(param(#0)), end(param(#0)), begin(LL(#0, #0)), end(LL(#0, #0)))}, [eff(ctx([]), true, init(LL(#0, #0), call(`pdaaal::RefinementMapping::get_concrete_values`, $1, lp(#0, #0)))), eff(ctx([]), true, do(`std::sort`, LL(#0, #0)))])
do		do(`std::remove_if`, L(#0), $2)	param(#1)
do		do(`erase`, L(#0), res(`std::remove_if`, L(#0), $2), end(L(#0)))	param(#1)
dom		init(L(#0), call(`pdaaal::RefinementMapping::encode_many`, $1, param(#0)))	true
ret	copyof(L(#0))	true
== AbstractionPDA::get_concrete_labels | AbstractionPDA<std::string, W0, fut::vector> | (u64) const |  | std::vector<std::string>
-- file: include/pdaaal/cegar/AbstractionPDA.h
-- id: 94
ret	call(`pdaaal::RefinementMapping::get_concrete_values`, self._label_abstraction, param(#0))	true
== AbstractionPDA::get_concrete_labels_range | AbstractionPDA<std::string, W0, fut::vector> | (u64) const |  | RefinementMapping<std::string>::concrete_value_range
-- file: include/pdaaal/cegar/AbstractionPDA.h
-- id: 95
ret	call(`pdaaal::RefinementMapping::get_concrete_values_range`, self._label_abstraction, param(#0))	true
== AbstractionPDA::maps_to | AbstractionPDA<std::string, W0, fut::vector> | (const std::string &, u64) const |  | bool
-- file: include/pdaaal/cegar/AbstractionPDA.h
-- id: 96
ret	call(`pdaaal::RefinementMapping::maps_to`, self._label_abstraction, param(#0), param(#1))	true
== AbstractionPDA::refine | AbstractionPDA<std::string, W0, fut::vector> | (const Refinement<std::string> &) |  | void
-- file: include/pdaaal/cegar/AbstractionPDA.h
-- id: 97
do		do(`pdaaal::RefinementMapping::refine`, self._label_abstraction, param(#0))	true
== AbstractionPDA::refine | AbstractionPDA<std::string, W0, fut::vector> | (const HeaderRefinement<std::string> &) |  | void
-- file: include/pdaaal/cegar/AbstractionPDA.h
-- id: 98
let	$1	param(#0)._refinements
do	foreach($1)	do(`pdaaal::AbstractionPDA::refine`, self, $1@0)	true
== AbstractionPDA::AbstractionPDA | AbstractionPDA<std::string, W0, fut::hash> | (const std::unordered_set<std::string, std::hash<std::string>, std::equal_to<std::string>> &, std::function<int (const std::string &)> &&) | std::function<int (const std::string &)> | void
-- file: include/pdaaal/cegar/AbstractionPDA.h
-- id: 99
let	$1	new(`std::vector`)
let	$2	L(#0)._many_to_one_map
let	$3	L(#0)._one_to_many_ids
do		set(self._states, $1)	true
do	foreach(param(#0))	do(`pdaaal::AbstractionMapping::insert`, L(#0), param(#0)@0, false)	true
do		set(self._label_abstraction, pdaaal::RefinementMapping{_many_to_one_map: $2', _one_to_many_ids: $3'})	true
dom		init($2, pdaaal::utils::ptrie_map{})	true
dom		init(L(#0)._abstract_values, pdaaal::utils::ptrie_set{})	true
dom		init($3, $1)	true
== AbstractionPDA::AbstractionPDA | AbstractionPDA<std::string, W0, fut::hash> | (RefinementMapping<std::string> &&) |  | void
-- file: include/pdaaal/cegar/AbstractionPDA.h
-- same: 90
== AbstractionPDA::move_label_map | AbstractionPDA<std::string, W0, fut::hash> | () |  | RefinementMapping<std::string>
-- file: include/pdaaal/cegar/AbstractionPDA.h
-- same: 91
== AbstractionPDA::number_of_labels | AbstractionPDA<std::string, W0, fut::hash> | () const |  | u64
-- file: include/pdaaal/cegar/AbstractionPDA.h
-- same: 92
== AbstractionPDA::abstract_label | AbstractionPDA<std::string, W0, fut::hash> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/cegar/AbstractionPDA.h
-- id: 100
ret	call(`pdaaal::RefinementMapping::exists`, self._label_abstraction, param(#0))	true
== HeaderRefinement::empty | HeaderRefinement<std::string> | () const |  | bool
-- file: include/pdaaal/cegar/Refinement.h
-- same: 54
== HeaderRefinement::refinements | HeaderRefinement<std::string> | () const |  | const std::vector<Refinement<std::string>> &
-- file: include/pdaaal/cegar/Refinement.h
-- same: 55
