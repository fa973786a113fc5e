== i::PAutomaton::find_path | i::PAutomaton<Wu, TI::Single> | (lambda &&) const | lambda | AutomatonPath<false>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 0
let	$1	self._pda._states
let	$2	self._states[ix($1, #0)]^._accepting
let	$3	back(L(#0)).#1'
let	$4	back(L(#0)).#0'
let	$5	self._states[$4]^._edges
let	$6	self._states[$5@0.#0]^._accepting
let	$7	contains(L(#3)', $5@0.#0)
let	$8	range(rbegin(L(#1)), rend(L(#1)))
let	$9	exists($5, {!$7 & !empty($5@0.#1) & $6})
let	$10	new(`std::vector`)
let	$11	exists(loop(#0), true)
do	foreach($1)	do(`push`, L(#0), tuple{#0: ix($1, #0), #1: 0, #2: 4294967295})	!$2
do	foreach($1)	exit	$2
do	loop(#0)	do(`pop`, L(#0))	!empty(L(#0)') & !exists($1, $2)
do	loop(#0)	do(`resize`, L(#4), lin(#2, $3))	!empty(L(#0)') & !exists($1, $2)
do	loop(#0)	do(`resize`, L(#1), lin(#1, $3))	!empty(L(#0)') & !exists($1, $2)
do	loop(#0)	set(L(#4)[$3], $4)	!empty(L(#0)') & !exists($1, $2)
do	loop(#0)	set(L(#1)[lin(#-1, $3)], back(L(#0)).#2')	!empty(L(#0)') & !eq(0, $3) & !exists($1, $2)
do	loop(#0) ; foreach($5)	do(`insert`, L(#3), $5@0.#0)	!empty($5@0.#1) & !empty(L(#0)') & !exists($1, $2)
do	loop(#0) ; foreach($5)	set(L(#4)[lin(#1, $3)], $5@0.#0)	!$7 & !empty($5@0.#1) & !empty(L(#0)') & !exists($1, $2) & $6
do	loop(#0) ; foreach($5)	set(L(#1)[$3], $5@0.#1[0].#0)	!$7 & !empty($5@0.#1) & !empty(L(#0)') & !exists($1, $2) & $6
do	loop(#0) ; foreach($5) ; foreach($8)	do(`push`, L(#2), tuple{#0: $8@0^, #1: lin(#1, ix($8, #0), rbegin(L(#4)))^})	!$7 & !empty($5@0.#1) & !empty(L(#0)') & !exists($1, $2) & $6
do	loop(#0) ; foreach($5)	do(`push`, L(#0), tuple{#0: $5@0.#0, #1: lin(#1, $3), #2: $5@0.#1[0].#0})	!$6 & !$7 & !empty($5@0.#1) & !empty(L(#0)') & !exists($1, $2)
do	loop(#0) ; foreach($5)	exit	!$7 & !empty($5@0.#1) & !empty(L(#0)') & !exists($1, $2) & $6
do	loop(#0)	exit	!exists($1, $2) & $9 | !exists($1, $2) & empty(L(#0)')
dom		init(L(#0), $10)	true
dom		init(L(#1), $10)	true
dom		init(L(#4), $10)	true
dom		init(L(#3), new(`std::unordered_set`))	true
dom	loop(#0) ; foreach($5)	init(L(#2), $10)	true
ret	firstval($1, $2, pdaaal::AutomatonPath{_edges: $10, _end: ix($1, #0)})	exists($1, $2)
ret	pdaaal::AutomatonPath{_edges: L(#2)', _end: back(L(#4))''}	!empty(L(#0)') & !exists($1, $2) & $11 & $9
ret	pdaaal::AutomatonPath{_edges: $10, _end: 18446744073709551615}	!$11 & !exists($1, $2) | !$9 & !exists($1, $2) | !exists($1, $2) & empty(L(#0)')
== i::PAutomaton::accepts | i::PAutomaton<Wu, TI::Single> | (u64, const std::vector<u32> &) const |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 1
let	$1	empty(param(#1))
let	$2	self._states[top(L(#0)).#0']^._edges
let	$3	lin(#1, top(L(#0)).#1')
let	$4	contains($2@0.#1, param(#1)[top(L(#0)).#1'])
let	$5	lt($3, size(param(#1)))
let	$6	self._states[$2@0.#0]^._accepting
let	$7	exists($2, {$4 & $6})
let	$8	self._states[param(#0)]^
let	$9	eq(phi(#0, 0, #0), 0)
let	$10	self._states[$8._edges@0.#0]
let	$11	$10^._accepting
let	$12	$8._edges@0.#1[4294967295].#1
let	$13	phi(#0, 0, #0)^._id
let	$14	call(`pdaaal::details::weight_impl::less`, $12, $8._edges[$13, 4294967295].#1)
let	$15	contains($8._edges@0.#1, 4294967295)
let	$16	contains($8._edges, $13, 4294967295)
let	$17	call(`pdaaal::details::weight_impl::less`, $12, 0^.#1)
do		do(`push`, L(#0), tuple{#0: param(#0), #1: 0})	!$1
do	loop(#0)	do(`pop`, L(#0))	!$1 & !empty(L(#0)')
do	loop(#0) ; foreach($2)	do(`push`, L(#0), tuple{#0: $2@0.#0, #1: $3})	!$1 & !empty(L(#0)') & $4 & $5
do	loop(#0) ; foreach($2)	exit	!$1 & !$5 & !empty(L(#0)') & $4 & $6
do	loop(#0)	exit	!$1 & !$5 & $7 | !$1 & empty(L(#0)')
dom		init(L(#0), new(`std::stack`))	true
ret	{!$1 & !$5 & !empty(L(#0)') & $7 & exists(loop(#0), true) | !eq(fold($8._edges, 0, ite([{!$16 & $11 & $15 & $17 | $11 & $14 & $15 & $16 | $11 & $15 & $9}, $10, {!$11 | !$14 & !$9 & $16 | !$15 | !$16 & !$17 & !$9}, phi(#0, 0, #0)]), none, false), 0) & $1 | $1 & $8._accepting}	true
== i::PAutomaton::accept_path | i::PAutomaton<Wu, TI::Single> | (u64, const std::vector<u32> &) const | TT::Any | std::vector<u64>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 2
let	$1	empty(param(#1))
let	$2	self._states[top(L(#1)).#0']^._edges
let	$3	lin(#1, top(L(#1)).#1')
let	$4	size(param(#1))
let	$5	contains($2@0.#1, param(#1)[top(L(#1)).#1'])
let	$6	self._states[$2@0.#0]^._accepting
let	$7	exists($2, {$5 & $6})
let	$8	self._states[param(#0)]^
let	$9	eq(phi(#0, 0, #0), 0)
let	$10	self._states[$8._edges@0.#0]
let	$11	$10^._accepting
let	$12	$8._edges@0.#1[4294967295].#1
let	$13	phi(#0, 0, #0)^._id
let	$14	call(`pdaaal::details::weight_impl::less`, $12, $8._edges[$13, 4294967295].#1)
let	$15	contains($8._edges@0.#1, 4294967295)
let	$16	contains($8._edges, $13, 4294967295)
let	$17	call(`pdaaal::details::weight_impl::less`, $12, 0^.#1)
let	$18	fold($8._edges, 0, ite([{!$16 & $11 & $15 & $17 | $11 & $14 & $15 & $16 | $11 & $15 & $9}, $10, {!$11 | !$14 & !$9 & $16 | !$15 | !$16 & !$17 & !$9}, phi(#0, 0, #0)]), none, false)
let	$19	exists(loop(#0), true)
do		do(`push`, L(#1), tuple{#0: param(#0), #1: 0})	!$1
do	loop(#0)	do(`pop`, L(#1))	!$1 & !empty(L(#1)')
do	loop(#0)	set(L(#0)[top(L(#1)).#1'], top(L(#1)).#0')	!$1 & !empty(L(#1)')
do	loop(#0) ; foreach($2)	do(`push`, L(#1), tuple{#0: $2@0.#0, #1: $3})	!$1 & !empty(L(#1)') & $5 & lt($3, $4)
do	loop(#0) ; foreach($2)	set(L(#0)[$3], $2@0.#0)	!$1 & !empty(L(#1)') & !lt($3, $4) & $5 & $6
do	loop(#0) ; foreach($2)	exit	!$1 & !empty(L(#1)') & !lt($3, $4) & $5 & $6
do	loop(#0)	exit	!$1 & !lt($3, $4) & $7 | !$1 & empty(L(#1)')
dom		init(L(#1), new(`std::stack`))	true
dom		init(L(#0), ctor(`std::vector`, lin(#1, $4)))	true
ret	list(param(#0))	$1 & $8._accepting
ret	list(param(#0), $18^._id)	!$8._accepting & !eq($18, 0) & $1
ret	new(`std::vector`)	!$1 & !$19 | !$1 & !$7 | !$1 & empty(L(#1)') | !$1 & lt($3, $4) | !$8._accepting & $1 & eq($18, 0)
ret	L(#0)''	!$1 & !empty(L(#1)') & !lt($3, $4) & $19 & $7
== i::PAutomaton::accept_path | i::PAutomaton<Wu, TI::Single> | (u64, const std::vector<u32> &) const | TT::Shortest | std::pair<std::vector<u64>, u32>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 3
let	$1	empty(param(#1))
let	$2	top(L(#1))._stack_index'
let	$3	top(L(#1))._state'
let	$4	size(param(#1))
let	$5	phi(#1, top(L(#1))._back_pointer', #0)
let	$6	call(`std::lower_bound`, begin(L(#2)), end(L(#2)), top(L(#1))')
let	$7	eq($2, $6^._stack_index')
let	$8	eq($6, end(L(#2)))
let	$9	eq($6^._state', $3)
let	$10	newobj(res(`std::vector::insert`, L(#2), $6, top(L(#1))')^)
let	$11	newobj(top(L(#1))')
let	$12	top(L(#1))._weight'
let	$13	call(`pdaaal::details::weight_impl::less`, $12, $6^._weight')
let	$14	self._states[$3]^._edges
let	$15	call(`pdaaal::details::weight_impl::add`, $12, $14@0.#1[param(#1)[$2]].#1)
let	$16	self._states[$14@0.#0]^._accepting
let	$17	lt(lin(#1, $2), $4)
let	$18	contains($14@0.#1, param(#1)[$2])
let	$19	new(`std::vector`)
let	$20	self._states[param(#0)]^
let	$21	eq(phi(#0, 0, #0), 0)
let	$22	self._states[$20._edges@0.#0]
let	$23	$22^._accepting
let	$24	$20._edges@0.#1
let	$25	$24[4294967295].#1
let	$26	phi(#0, 0, #0)^._id
let	$27	call(`pdaaal::details::weight_impl::less`, $25, $20._edges[$26, 4294967295].#1)
let	$28	contains($24, 4294967295)
let	$29	contains($20._edges, $26, 4294967295)
let	$30	call(`pdaaal::details::weight_impl::less`, $25, 0^.#1)
let	$31	fold($20._edges, 0, ite([{!$29 & $23 & $28 & $30 | $21 & $23 & $28 | $23 & $27 & $28 & $29}, $22, {!$21 & !$27 & $29 | !$21 & !$29 & !$30 | !$23 | !$28}, phi(#0, 0, #0)]), none, false)
let	$32	list(param(#0), $31^._id)
let	$33	contains($20._edges, $31^._id, 4294967295)
let	$34	exists(loop(#0), true)
do		do(`push`, L(#1), make(`pdaaal::internal::PAutomaton::queue_elem`, 0, param(#0), 0))	!$1
do	loop(#0)	do(`pop`, L(#1))	!$1 & !empty(L(#1)')
do	loop(#0)	set(L(#3)[$2], $3)	!$1 & !empty(L(#1)') & eq($4, $2)
do	loop(#0) ; loop(#1)	set(L(#3)[$5^._stack_index], $5^._state)	!$1 & !empty(L(#1)') & !eq($5, 0) & eq($4, $2)
do	loop(#0) ; loop(#1)	exit	!$1 & !empty(L(#1)') & eq($4, $2) & eq($5, 0)
do	loop(#0)	do(`insert_at`, L(#2), $6, top(L(#1))')	!$1 & !$7 & !empty(L(#1)') & !eq($4, $2) | !$1 & !$9 & !empty(L(#1)') & !eq($4, $2) | !$1 & !empty(L(#1)') & !eq($4, $2) & $8
do	loop(#0)	do(`push`, L(#0), $10)	!$1 & !$7 & !empty(L(#1)') & !eq($4, $2) | !$1 & !$9 & !empty(L(#1)') & !eq($4, $2) | !$1 & !empty(L(#1)') & !eq($4, $2) & $8
do	loop(#0)	do(`push`, L(#0), $11)	!$1 & !$8 & !empty(L(#1)') & !eq($4, $2) & $13 & $7 & $9
do	loop(#0)	set($6^, top(L(#1))')	!$1 & !$8 & !empty(L(#1)') & !eq($4, $2) & $13 & $7 & $9
do	loop(#0) ; foreach($14)	do(`push`, L(#1), pdaaal::internal::PAutomaton::queue_elem{_back_pointer: $10, _stack_index: lin(#1, $2), _state: $14@0.#0, _weight: $15})	!$1 & !$7 & !empty(L(#1)') & !eq($4, $2) & $16 & $18 | !$1 & !$7 & !empty(L(#1)') & !eq($4, $2) & $17 & $18 | !$1 & !$9 & !empty(L(#1)') & !eq($4, $2) & $16 & $18 | !$1 & !$9 & !empty(L(#1)') & !eq($4, $2) & $17 & $18 | !$1 & !empty(L(#1)') & !eq($4, $2) & $16 & $18 & $8 | !$1 & !empty(L(#1)') & !eq($4, $2) & $17 & $18 & $8
do	loop(#0) ; foreach($14)	do(`push`, L(#1), pdaaal::internal::PAutomaton::queue_elem{_back_pointer: $11, _stack_index: lin(#1, $2), _state: $14@0.#0, _weight: $15})	!$1 & !$8 & !empty(L(#1)') & !eq($4, $2) & $13 & $16 & $18 & $7 & $9 | !$1 & !$8 & !empty(L(#1)') & !eq($4, $2) & $13 & $17 & $18 & $7 & $9
do	loop(#0)	exit	!$1 & empty(L(#1)') | !$1 & eq($4, $2)
dom		init(L(#1), new(`std::priority_queue`))	true
dom		init(L(#0), $19)	true
dom		init(L(#2), $19)	true
dom	loop(#0)	init(L(#3), ctor(`std::vector`, lin(#1, $4)))	true
ret	tuple{#0: list(param(#0)), #1: 0}	$1 & $20._accepting
ret	tuple{#0: $32, #1: $20._edges[$31^._id, 4294967295].#1}	!$20._accepting & !eq($31, 0) & $1 & $33
ret	tuple{#0: $32, #1: 0^.#1}	!$20._accepting & !$33 & !eq($31, 0) & $1
ret	tuple{#0: $19, #1: 4294967295}	!$1 & !$34 | !$1 & !eq($4, $2) | !$1 & empty(L(#1)') | !$20._accepting & $1 & eq($31, 0)
ret	tuple{#0: L(#3)'', #1: $12}	!$1 & !empty(L(#1)') & $34 & eq($4, $2)
== i::PAutomaton::queue_elem::queue_elem | queue_elem | (u32, u64, u64, const queue_elem *) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 4
do		set(self._weight, param(#0))	true
do		set(self._state, param(#1))	true
do		set(self._stack_index, param(#2))	true
do		set(self._back_pointer, param(#3))	true
== i::PAutomaton::queue_elem::operator< | queue_elem | (const queue_elem &) const |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 5
let	$1	param(#0)._state
ret	{!lt($1, self._state) & lt(self._stack_index, param(#0)._stack_index) | lt(self._state, $1)}	true
== i::PAutomaton::queue_elem::operator== | queue_elem | (const queue_elem &) const |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 6
ret	{eq(param(#0)._stack_index, self._stack_index) & eq(self._state, param(#0)._state)}	true
== i::PAutomaton::queue_elem::operator!= | queue_elem | (const queue_elem &) const |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 7
ret	{!eq(param(#0)._stack_index, self._stack_index) | !eq(self._state, param(#0)._state)}	true
== i::PAutomaton::queue_elem_comp::operator() | queue_elem_comp | (const queue_elem &, const queue_elem &) |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 8
ret	call(`pdaaal::details::weight_impl::less`, param(#1)._weight, param(#0)._weight)	true
== i::PAutomaton::get_trace_label | i::PAutomaton<Wu, TI::Single> | (u64, u32, u64) const |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 9
let	$1	self._states[param(#0)]^._edges
let	$2	contains($1, param(#2), param(#1))
let	$3	18446744073709551615
ret	$1[param(#2), param(#1)].#0	$2
ret	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $3, _state: $3}	!$2
== i::PAutomaton::number_of_labels | i::PAutomaton<Wu, TI::Single> | () const |  | u64
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 10
ret	call(`pdaaal::internal::PDA::number_of_labels`, self._pda)	true
== i::PAutomaton::add_state | i::PAutomaton<Wu, TI::Single> | (bool, bool) |  | u64
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 11
let	$1	size(self._states)
let	$2	newobj(pdaaal::internal::PAutomaton::state_t{_accepting: param(#1), _back_edge_label: 4294967294, _back_edge_state: 18446744073709551615, _best_weight: 0, _edges: pdaaal::fut::detail::fut_set{elems: new(`std::unordered_map`)}, _id: $1})
do		do(`push`, self._states, $2)	true
do		do(`push`, self._accepting, $2)	param(#1)
do		do(`push`, self._initial, $2)	param(#0)
ret	$1	true
== i::PAutomaton::next_state_id | i::PAutomaton<Wu, TI::Single> | () const |  | u64
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 12
ret	size(self._states)	true
== i::PAutomaton::add_epsilon_edge | i::PAutomaton<Wu, TI::Single> | (u64, u64, std::pair<i::trace_t, u32>) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 13
do		do(`insert`, self._states[param(#0)]^._edges, param(#1), 4294967295, param(#2))	true
== i::PAutomaton::add_edge | i::PAutomaton<Wu, TI::Single> | (u64, u64, u32, std::pair<i::trace_t, u32>) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 14
do		do(`insert`, self._states[param(#0)]^._edges, param(#1), param(#2), param(#3))	true
== i::PAutomaton::get_edge | i::PAutomaton<Wu, TI::Single> | (u64, u32, u64) |  | std::pair<i::trace_t, u32> *
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 15
let	$1	self._states[param(#0)]^._edges
let	$2	contains($1, param(#2), param(#1))
ret	addr($1[param(#2), param(#1)])	$2
ret	0	!$2
== i::PAutomaton::emplace_edge | i::PAutomaton<Wu, TI::Single> | (u64, u32, u64, std::pair<i::trace_t, u32>) |  | std::pair<__gnu_cxx::__normal_iterator<fut::vector_map<u32, std::pair<i::trace_t, u32>>::elem_t *, std::vector<fut::vector_map<u32, std::pair<i::trace_t, u32>>::elem_t>>, bool>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 16
let	$1	self._states[param(#0)]^._edges
do		do(`insert`, $1, param(#2), param(#1), param(#3))	true
ret	tuple{#0: mfind($1, param(#2), param(#1)), #1: {!contains($1, param(#2), param(#1))}}	true
== i::PAutomaton::add_edges | i::PAutomaton<Wu, TI::Single> | (u64, u64, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 17
let	$1	foreach(param(#3))
let	$2	range(phi(#0, 0, #0), param(#3)@0)
let	$3	self._states[param(#0)]^._edges
let	$4	18446744073709551615
let	$5	tuple{#0: pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $4, _state: $4}, #1: 0}
let	$6	phi(#0, ite([{!param(#2)}, 0, param(#2), fold(param(#3), 0, lin(#1, param(#3)@0), none, false)]), #0)
let	$7	lt($6, call(`pdaaal::internal::PDA::number_of_labels`, self._pda))
do	$1 ; foreach($2)	do(`insert`, $3, param(#1), cast(#32, $2@0), $5)	param(#2)
do	loop(#0)	do(`insert`, $3, param(#1), cast(#32, $6), $5)	$7 & param(#2)
do	loop(#0)	exit	!$7 & param(#2)
do	$1	do(`insert`, $3, param(#1), param(#3)@0, $5)	!param(#2)
== i::PAutomaton::add_edges | i::PAutomaton<Wu, TI::Single> | (const std::vector<u64> &, u64, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 18
let	$1	foreach(param(#3))
let	$2	range(phi(#0, 0, #0), param(#3)@0)
let	$3	foreach(param(#0))
let	$4	self._states[param(#0)@0]^._edges
let	$5	18446744073709551615
let	$6	tuple{#0: pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $5, _state: $5}, #1: 0}
let	$7	phi(#0, ite([{!param(#2)}, 0, param(#2), fold(param(#3), 0, lin(#1, param(#3)@0), none, false)]), #0)
let	$8	lt($7, call(`pdaaal::internal::PDA::number_of_labels`, self._pda))
do	$1 ; foreach($2) ; $3	do(`insert`, $4, param(#1), cast(#32, $2@0), $6)	param(#2)
do	loop(#0) ; $3	do(`insert`, $4, param(#1), cast(#32, $7), $6)	$8 & param(#2)
do	loop(#0)	exit	!$8 & param(#2)
do	$3 ; $1	do(`insert`, $4, param(#1), param(#3)@0, $6)	!param(#2)
== i::PAutomaton::new_pre_trace | i::PAutomaton<Wu, TI::Single> | (u64) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 19
ret	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: param(#0), _state: 18446744073709551615}	true
== i::PAutomaton::new_pre_trace | i::PAutomaton<Wu, TI::Single> | (u64, u64) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 20
ret	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: param(#0), _state: param(#1)}	true
== i::PAutomaton::new_post_trace | i::PAutomaton<Wu, TI::Single> | (u64, u64, u32) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 21
ret	pdaaal::internal::trace_t{_label: param(#2), _rule_id: param(#1), _state: param(#0)}	true
== i::PAutomaton::new_post_trace | i::PAutomaton<Wu, TI::Single> | (u64) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 22
ret	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: 18446744073709551615, _state: param(#0)}	true
== i::PAutomaton::construct | i::PAutomaton<Wu, TI::Single> | (const NFA<u32> &, const std::vector<u64> &, const std::function<std::vector<u32> (const NFA<u32>::edge_t &)> &, const std::function<void (const NFA<u32>::state_t *, u64)> &) | u32, false, false | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 23
let	$1	param(#0)._initial
let	$2	foreach($1@0^._edges)
let	$3	call(`pdaaal::NFA::edge_t::follow_epsilon`, $1@0^._edges@0)
let	$4	do(`pdaaal::internal::PAutomaton::add_state`, self, false, true)
let	$5	contains(L(#1), $3@0)
let	$6	$3@0^._accepting
let	$7	do(`pdaaal::internal::PAutomaton::add_state`, self, false, false)
let	$8	res(`pdaaal::internal::PAutomaton::add_state`, self, false, true)
let	$9	res(`pdaaal::internal::PAutomaton::add_state`, self, false, false)
let	$10	$1@0^._edges@0._symbols
let	$11	$1@0^._edges@0._negated
let	$12	back(L(#0)).#0'^._edges
let	$13	call(`pdaaal::NFA::edge_t::follow_epsilon`, $12@0')
let	$14	$13@0^._accepting
let	$15	contains(L(#1), $13@0)
let	$16	res(`pdaaal::internal::PAutomaton::add_state`, self, false, true, #1)
let	$17	res(`pdaaal::internal::PAutomaton::add_state`, self, false, false, #1)
let	$18	back(L(#0)).#1'
let	$19	$12@0._symbols''
let	$20	$12@0._negated''
do	foreach($1) ; $2 ; foreach($3)	$4	!$5 & $6
do	foreach($1) ; $2 ; foreach($3)	$7	!$5 & !$6
do	foreach($1) ; $2 ; foreach($3)	do(`insert`, L(#1), $3@0, $8)	!$5 & $6
do	foreach($1) ; $2 ; foreach($3)	do(`insert`, L(#1), $3@0, $9)	!$5 & !$6
do	foreach($1) ; $2 ; foreach($3)	do(`push`, L(#0), tuple{#0: $3@0, #1: $8})	!$5 & $6
do	foreach($1) ; $2 ; foreach($3)	do(`push`, L(#0), tuple{#0: $3@0, #1: $9})	!$5 & !$6
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), $8, true, $10)	!$5 & $11 & $6
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), $8, false, $10)	!$11 & !$5 & $6
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), $9, true, $10)	!$5 & !$6 & $11
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), $9, false, $10)	!$11 & !$5 & !$6
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), L(#1)[$3@0]', true, $10)	$11 & $5
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), L(#1)[$3@0]', false, $10)	!$11 & $5
do	loop(#0)	do(`pop`, L(#0))	!empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	$4	!$15 & !empty(L(#0)') & $14
do	loop(#0) ; foreach($12) ; foreach($13)	$7	!$14 & !$15 & !empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	do(`insert`, L(#1), $13@0, $16)	!$15 & !empty(L(#0)') & $14
do	loop(#0) ; foreach($12) ; foreach($13)	do(`insert`, L(#1), $13@0, $17)	!$14 & !$15 & !empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	do(`push`, L(#0), tuple{#0: $13@0, #1: $16})	!$15 & !empty(L(#0)') & $14
do	loop(#0) ; foreach($12) ; foreach($13)	do(`push`, L(#0), tuple{#0: $13@0, #1: $17})	!$14 & !$15 & !empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, $16, true, $19)	!$15 & !empty(L(#0)') & $14 & $20
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, $16, false, $19)	!$15 & !$20 & !empty(L(#0)') & $14
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, $17, true, $19)	!$14 & !$15 & !empty(L(#0)') & $20
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, $17, false, $19)	!$14 & !$15 & !$20 & !empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, L(#1)[$13@0]', true, $19)	!empty(L(#0)') & $15 & $20
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, L(#1)[$13@0]', false, $19)	!$20 & !empty(L(#0)') & $15
do	loop(#0)	exit	empty(L(#0)')
dom		init(L(#0), new(`std::vector`))	true
dom		init(L(#1), new(`std::unordered_map`))	true
== i::PAutomaton::state_t::state_t | i::PAutomaton<Wi, TI::Single>::state_t | (bool, u64) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 24
let	$1	self._accepting
do		set($1, true)	param(#0)
do		set($1, false)	!param(#0)
do		set(self._id, param(#1))	true
do		set(self._edges, pdaaal::fut::detail::fut_set{elems: new(`std::unordered_map`)})	true
do		set(self._back_edge_state, 18446744073709551615)	true
do		set(self._back_edge_label, 4294967294)	true
do		set(self._best_weight, 0)	true
== i::PAutomaton::has_negative_weights | i::PAutomaton<Wi, TI::Single> | (bool (&)(int, int)) const | bool (int, int) | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 25
let	$1	foreach(self._states)
let	$2	self._states@0^._edges
let	$3	foreach($2@0.#1)
let	$4	$2@0.#1@0.#1.#1
let	$5	r_icall(param(#0), $4, 0)
let	$6	exists($2@0.#1, $5)
do	$1 ; foreach($2) ; $3	icall(param(#0), $4, 0)	true
do	$1 ; foreach($2) ; $3	exit	$5
do	$1 ; foreach($2)	exit	$6
do	$1	exit	exists($2, $6)
ret	exists(self._states, exists($2, $6))	true
== i::PAutomaton::states | i::PAutomaton<Wi, TI::Single> | () const |  | const std::vector<std::unique_ptr<i::PAutomaton<Wi, TI::Single>::state_t, std::default_delete<i::PAutomaton<Wi, TI::Single>::state_t>>, std::allocator<std::unique_ptr<i::PAutomaton<Wi, TI::Single>::state_t, std::default_delete<i::PAutomaton<Wi, TI::Single>::state_t>>>> &
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 26
ret	self._states	true
== i::PAutomaton::pda | i::PAutomaton<Wi, TI::Single> | () const |  | const i::PDA<Wi, fut::vector> &
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 27
ret	self._pda	true
== i::PAutomaton::add_state | i::PAutomaton<Wi, TI::Single> | (bool, bool) |  | u64
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 11
== i::PAutomaton::next_state_id | i::PAutomaton<Wi, TI::Single> | () const |  | u64
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 12
== i::PAutomaton::add_epsilon_edge | i::PAutomaton<Wi, TI::Single> | (u64, u64, std::pair<i::trace_t, int>) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 13
== i::PAutomaton::add_edge | i::PAutomaton<Wi, TI::Single> | (u64, u64, u32, std::pair<i::trace_t, int>) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 14
== i::PAutomaton::get_edge | i::PAutomaton<Wi, TI::Single> | (u64, u32, u64) |  | std::pair<i::trace_t, int> *
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 15
== i::PAutomaton::new_post_trace | i::PAutomaton<Wi, TI::Single> | (u64, u64, u32) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 21
== i::PAutomaton::new_post_trace | i::PAutomaton<Wi, TI::Single> | (u64) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 22
== i::PAutomaton::state_t::state_t | i::PAutomaton<Wu, TI::Pair>::state_t | (bool, u64) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 24
== i::PAutomaton::states | i::PAutomaton<Wu, TI::Pair> | () const |  | const std::vector<std::unique_ptr<i::PAutomaton<Wu, TI::Pair>::state_t, std::default_delete<i::PAutomaton<Wu, TI::Pair>::state_t>>, std::allocator<std::unique_ptr<i::PAutomaton<Wu, TI::Pair>::state_t, std::default_delete<i::PAutomaton<Wu, TI::Pair>::state_t>>>> &
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 26
== i::PAutomaton::pda | i::PAutomaton<Wu, TI::Pair> | () const |  | const i::PDA<Wu, fut::vector> &
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 27
== i::PAutomaton::get_trace_label | i::PAutomaton<Wu, TI::Pair> | (u64, u32, u64) const |  | std::pair<i::trace_t, i::trace_t>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 28
let	$1	self._states[param(#0)]^._edges
let	$2	contains($1, param(#2), param(#1))
let	$3	18446744073709551615
let	$4	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $3, _state: $3}
ret	$1[param(#2), param(#1)].#0	$2
ret	tuple{#0: $4, #1: $4}	!$2
== i::PAutomaton::number_of_labels | i::PAutomaton<Wu, TI::Pair> | () const |  | u64
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 10
== i::PAutomaton::add_state | i::PAutomaton<Wu, TI::Pair> | (bool, bool) |  | u64
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 11
== i::PAutomaton::next_state_id | i::PAutomaton<Wu, TI::Pair> | () const |  | u64
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 12
== i::PAutomaton::get_edge | i::PAutomaton<Wu, TI::Pair> | (u64, u32, u64) |  | std::pair<std::pair<i::trace_t, i::trace_t>, u32> *
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 15
== i::PAutomaton::emplace_edge | i::PAutomaton<Wu, TI::Pair> | (u64, u32, u64, std::pair<std::pair<i::trace_t, i::trace_t>, u32>) |  | std::pair<__gnu_cxx::__normal_iterator<fut::vector_map<u32, std::pair<std::pair<i::trace_t, i::trace_t>, u32>>::elem_t *, std::vector<fut::vector_map<u32, std::pair<std::pair<i::trace_t, i::trace_t>, u32>>::elem_t>>, bool>
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 16
== i::PAutomaton::new_pre_trace | i::PAutomaton<Wu, TI::Pair> | (u64) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 19
== i::PAutomaton::new_pre_trace | i::PAutomaton<Wu, TI::Pair> | (u64, u64) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 20
== i::PAutomaton::new_post_trace | i::PAutomaton<Wu, TI::Pair> | (u64, u64, u32) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 21
== i::PAutomaton::new_post_trace | i::PAutomaton<Wu, TI::Pair> | (u64) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 22
== i::PAutomaton::state_t::state_t | i::PAutomaton<Wi, TI::Pair>::state_t | (bool, u64) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 24
== i::PAutomaton::states | i::PAutomaton<Wi, TI::Pair> | () const |  | const std::vector<std::unique_ptr<i::PAutomaton<Wi, TI::Pair>::state_t, std::default_delete<i::PAutomaton<Wi, TI::Pair>::state_t>>, std::allocator<std::unique_ptr<i::PAutomaton<Wi, TI::Pair>::state_t, std::default_delete<i::PAutomaton<Wi, TI::Pair>::state_t>>>> &
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 26
== i::PAutomaton::pda | i::PAutomaton<Wi, TI::Pair> | () const |  | const i::PDA<Wi, fut::vector> &
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 27
== i::PAutomaton::number_of_labels | i::PAutomaton<Wi, TI::Pair> | () const |  | u64
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 10
== i::PAutomaton::add_state | i::PAutomaton<Wi, TI::Pair> | (bool, bool) |  | u64
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 11
== i::PAutomaton::next_state_id | i::PAutomaton<Wi, TI::Pair> | () const |  | u64
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 12
== i::PAutomaton::get_edge | i::PAutomaton<Wi, TI::Pair> | (u64, u32, u64) |  | std::pair<std::pair<i::trace_t, i::trace_t>, int> *
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 15
== i::PAutomaton::emplace_edge | i::PAutomaton<Wi, TI::Pair> | (u64, u32, u64, std::pair<std::pair<i::trace_t, i::trace_t>, int>) |  | std::pair<__gnu_cxx::__normal_iterator<fut::vector_map<u32, std::pair<std::pair<i::trace_t, i::trace_t>, int>>::elem_t *, std::vector<fut::vector_map<u32, std::pair<std::pair<i::trace_t, i::trace_t>, int>>::elem_t>>, bool>
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 16
== i::PAutomaton::new_pre_trace | i::PAutomaton<Wi, TI::Pair> | (u64) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 19
== i::PAutomaton::new_pre_trace | i::PAutomaton<Wi, TI::Pair> | (u64, u64) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 20
== i::PAutomaton::new_post_trace | i::PAutomaton<Wi, TI::Pair> | (u64, u64, u32) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 21
== i::PAutomaton::new_post_trace | i::PAutomaton<Wi, TI::Pair> | (u64) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 22
== fixed_point_workset::fixed_point_workset | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | (u64) |  | void
-- file: include/pdaaal/utils/workset.h
-- id: 29
let	$1	new(`std::vector`)
do		set(self._done, false)	true
do		set(self._round_limit, param(#0))	true
do		set(self._rounds, 0)	true
do		set(self._workset, $1)	true
do		set(self._next_workset, $1)	true
== fixed_point_workset::step | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | () | false | bool
-- file: include/pdaaal/utils/workset.h
-- id: 30
let	$1	self._next_workset
let	$2	empty(self._workset)
do		do(`std::sort`, $1)	!empty($1) & $2
do		do(`std::unique`, $1)	!empty($1) & $2
do		do(`erase`, $1, res(`std::unique`, $1), end($1))	!empty($1) & $2
do		do(`pop`, self._workset)	!$2 | !empty($1)
do		do(`pdaaal::internal::PreStarFixedPointSaturation::step_with`, self, back(self._workset))	!$2 | !empty($1)
do		set(self._rounds, lin(#1, self._rounds))	$2
do		set(self._done, true)	!self._done & $2 & empty($1)
do		set(self._workset, $1'')	!empty($1) & $2
do		set($1, self._workset)	!empty($1) & $2
ret	{!$2 | !empty($1)}	true
== fixed_point_workset::step | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | () | true | bool
-- file: include/pdaaal/utils/workset.h
-- same: 30
== fixed_point_workset::finalize | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | () |  | void
-- file: include/pdaaal/utils/workset.h
-- id: 31
let	$1	empty(self._workset')
let	$2	lt(self._rounds', self._round_limit')
do		set(self._rounds, 0)	true
do	loop(#0)	do(`pdaaal::fixed_point_workset::step`, self)	!$1 & !self._done' | !self._done' & $2
do	loop(#0)	exit	!$2 & $1 | self._done'
== fixed_point_workset::done | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | () const |  | bool
-- file: include/pdaaal/utils/workset.h
-- id: 32
ret	{!lt(self._rounds, self._round_limit) & empty(self._workset) | self._done}	true
== fixed_point_workset::run | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | () |  | void
-- file: include/pdaaal/utils/workset.h
-- id: 33
let	$1	empty(self._workset')
let	$2	self._round_limit'
let	$3	lt(self._rounds'', $2)
let	$4	lt(self._rounds', $2)
dom	loop(#0)	do(`pdaaal::fixed_point_workset::step`, self)	!$1 & !self._done' | !self._done' & $3 | !self._done' & $4
dom	loop(#0)	exit	!$3 & $1 | !$4 & $1 | self._done'
do		set(self._rounds, 0)	true
== fixed_point_workset::emplace | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | (u64 &, const u32 &, const u64 &) | <u64 &, const u32 &, const u64 &> | i::temp_edge_t
-- file: include/pdaaal/utils/workset.h
-- id: 34
let	$1	pdaaal::internal::temp_edge_t{_from: param(#0), _label: param(#1), _to: param(#2)}
do		do(`push`, self._next_workset, $1)	true
ret	$1	true
== fixed_point_workset::emplace | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | (u64 &, u32 &, u64 &) | <u64 &, u32 &, u64 &> | i::temp_edge_t
-- file: include/pdaaal/utils/workset.h
-- same: 34
== fixed_point_workset::fixed_point_workset | fixed_point_workset<i::PreStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | (u64) |  | void
-- file: include/pdaaal/utils/workset.h
-- same: 29
== fixed_point_workset::step | fixed_point_workset<i::PreStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | () | false | bool
-- file: include/pdaaal/utils/workset.h
-- same: 30
== fixed_point_workset::step | fixed_point_workset<i::PreStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | () | true | bool
-- file: include/pdaaal/utils/workset.h
-- same: 30
== fixed_point_workset::finalize | fixed_point_workset<i::PreStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | () |  | void
-- file: include/pdaaal/utils/workset.h
-- same: 31
== fixed_point_workset::done | fixed_point_workset<i::PreStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | () const |  | bool
-- file: include/pdaaal/utils/workset.h
-- same: 32
== fixed_point_workset::run | fixed_point_workset<i::PreStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | () |  | void
-- file: include/pdaaal/utils/workset.h
-- same: 33
== fixed_point_workset::emplace | fixed_point_workset<i::PreStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | (u64 &, const u32 &, const u64 &) | <u64 &, const u32 &, const u64 &> | i::temp_edge_t
-- file: include/pdaaal/utils/workset.h
-- same: 34
== fixed_point_workset::emplace | fixed_point_workset<i::PreStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | (u64 &, u32 &, u64 &) | <u64 &, u32 &, u64 &> | i::temp_edge_t
-- file: include/pdaaal/utils/workset.h
-- same: 34
== fixed_point_workset::fixed_point_workset | fixed_point_workset<i::PostStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | (u64) |  | void
-- file: include/pdaaal/utils/workset.h
-- same: 29
== fixed_point_workset::step | fixed_point_workset<i::PostStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | () | false | bool
-- file: include/pdaaal/utils/workset.h
-- id: 35
let	$1	self._next_workset
let	$2	empty(self._workset)
do		do(`std::sort`, $1)	!empty($1) & $2
do		do(`std::unique`, $1)	!empty($1) & $2
do		do(`erase`, $1, res(`std::unique`, $1), end($1))	!empty($1) & $2
do		do(`pop`, self._workset)	!$2 | !empty($1)
do		do(`pdaaal::internal::PostStarFixedPointSaturation::step_with`, self, back(self._workset))	!$2 | !empty($1)
do		set(self._rounds, lin(#1, self._rounds))	$2
do		set(self._done, true)	!self._done & $2 & empty($1)
do		set(self._workset, $1'')	!empty($1) & $2
do		set($1, self._workset)	!empty($1) & $2
ret	{!$2 | !empty($1)}	true
== fixed_point_workset::step | fixed_point_workset<i::PostStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | () | true | bool
-- file: include/pdaaal/utils/workset.h
-- same: 35
== fixed_point_workset::finalize | fixed_point_workset<i::PostStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | () |  | void
-- file: include/pdaaal/utils/workset.h
-- id: 36
let	$1	lt(self._rounds', self._round_limit)
let	$2	empty(self._workset')
do		set(self._rounds, 0)	true
do	loop(#0)	do(`pdaaal::fixed_point_workset::step`, self)	!$2 & !self._done' | !self._done' & $1
do	loop(#0)	exit	!$1 & $2 | self._done'
== fixed_point_workset::done | fixed_point_workset<i::PostStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | () const |  | bool
-- file: include/pdaaal/utils/workset.h
-- same: 32
== fixed_point_workset::run | fixed_point_workset<i::PostStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | () |  | void
-- file: include/pdaaal/utils/workset.h
-- id: 37
let	$1	empty(self._workset')
let	$2	lt(self._rounds', self._round_limit')
dom	loop(#0)	do(`pdaaal::fixed_point_workset::step`, self)	!$1 & !self._done' | !self._done' & $2
dom	loop(#0)	exit	!$2 & $1 | self._done'
do		set(self._rounds, 0)	true
== fixed_point_workset::emplace | fixed_point_workset<i::PostStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | (u64 &, const u32 &, const u64 &) | <u64 &, const u32 &, const u64 &> | i::temp_edge_t
-- file: include/pdaaal/utils/workset.h
-- same: 34
== fixed_point_workset::emplace | fixed_point_workset<i::PostStarFixedPointSaturation<Wu, TT::Longest>, i::temp_edge_t, true> | (u64 &, u32 &, u64 &) | <u64 &, u32 &, u64 &> | i::temp_edge_t
-- file: include/pdaaal/utils/workset.h
-- same: 34
== fixed_point_workset::fixed_point_workset | fixed_point_workset<i::PostStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | (u64) |  | void
-- file: include/pdaaal/utils/workset.h
-- same: 29
== fixed_point_workset::step | fixed_point_workset<i::PostStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | () | false | bool
-- file: include/pdaaal/utils/workset.h
-- same: 35
== fixed_point_workset::step | fixed_point_workset<i::PostStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | () | true | bool
-- file: include/pdaaal/utils/workset.h
-- same: 35
== fixed_point_workset::finalize | fixed_point_workset<i::PostStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | () |  | void
-- file: include/pdaaal/utils/workset.h
-- same: 36
== fixed_point_workset::done | fixed_point_workset<i::PostStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | () const |  | bool
-- file: include/pdaaal/utils/workset.h
-- same: 32
== fixed_point_workset::run | fixed_point_workset<i::PostStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | () |  | void
-- file: include/pdaaal/utils/workset.h
-- same: 37
== fixed_point_workset::emplace | fixed_point_workset<i::PostStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | (u64 &, const u32 &, const u64 &) | <u64 &, const u32 &, const u64 &> | i::temp_edge_t
-- file: include/pdaaal/utils/workset.h
-- same: 34
== fixed_point_workset::emplace | fixed_point_workset<i::PostStarFixedPointSaturation<Wi, TT::ShortestFixedPoint>, i::temp_edge_t, true> | (u64 &, u32 &, u64 &) | <u64 &, u32 &, u64 &> | i::temp_edge_t
-- file: include/pdaaal/utils/workset.h
-- same: 34
== fixed_point_workset::fixed_point_workset | fixed_point_workset<i::PAutomatonFixedPoint<Wu, TT::Longest>, u64, false> | (u64) |  | void
-- file: include/pdaaal/utils/workset.h
-- same: 29
== fixed_point_workset::step | fixed_point_workset<i::PAutomatonFixedPoint<Wu, TT::Longest>, u64, false> | () | false | bool
-- file: include/pdaaal/utils/workset.h
-- id: 38
let	$1	empty(self._workset)
let	$2	self._next_workset
let	$3	back(self._workset)
let	$4	res(`pdaaal::internal::PAutomatonFixedPoint::step_with`, self, $3)
do		do(`pop`, self._workset)	!$1 | !empty($2)
do		do(`pdaaal::internal::PAutomatonFixedPoint::step_with`, self, $3)	!$1 | !empty($2)
do		set(self._rounds, lin(#1, self._rounds))	$1
do		set(self._done, true)	!$4 & !self._done | !self._done & $1 & empty($2)
do		set(self._workset, $2)	!empty($2) & $1
do		set($2, self._workset)	!empty($2) & $1
ret	{!$1 & $4 | !empty($2) & $4}	true
== fixed_point_workset::step | fixed_point_workset<i::PAutomatonFixedPoint<Wu, TT::Longest>, u64, false> | () | true | bool
-- file: include/pdaaal/utils/workset.h
-- same: 38
== fixed_point_workset::finalize | fixed_point_workset<i::PAutomatonFixedPoint<Wu, TT::Longest>, u64, false> | () |  | void
-- file: include/pdaaal/utils/workset.h
-- same: 36
== fixed_point_workset::done | fixed_point_workset<i::PAutomatonFixedPoint<Wu, TT::Longest>, u64, false> | () const |  | bool
-- file: include/pdaaal/utils/workset.h
-- same: 32
== fixed_point_workset::run | fixed_point_workset<i::PAutomatonFixedPoint<Wu, TT::Longest>, u64, false> | () |  | void
-- file: include/pdaaal/utils/workset.h
-- id: 39
let	$1	lt(self._rounds', self._round_limit)
let	$2	empty(self._workset')
dom	loop(#0)	do(`pdaaal::fixed_point_workset::step`, self)	!$2 & !self._done' | !self._done' & $1
dom	loop(#0)	exit	!$1 & $2 | self._done'
do		set(self._rounds, 0)	true
== fixed_point_workset::emplace | fixed_point_workset<i::PAutomatonFixedPoint<Wu, TT::Longest>, u64, false> | (u64 &) | <u64 &> | u64
-- file: include/pdaaal/utils/workset.h
-- id: 40
do		do(`push`, self._next_workset, param(#0))	true
ret	param(#0)	true
== fixed_point_workset::emplace | fixed_point_workset<i::PAutomatonFixedPoint<Wu, TT::Longest>, u64, false> | (const u64 &) | <const u64 &> | u64
-- file: include/pdaaal/utils/workset.h
-- same: 40
== fixed_point_workset::fixed_point_workset | fixed_point_workset<i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint>, u64, false> | (u64) |  | void
-- file: include/pdaaal/utils/workset.h
-- same: 29
== fixed_point_workset::step | fixed_point_workset<i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint>, u64, false> | () | false | bool
-- file: include/pdaaal/utils/workset.h
-- same: 38
== fixed_point_workset::step | fixed_point_workset<i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint>, u64, false> | () | true | bool
-- file: include/pdaaal/utils/workset.h
-- same: 38
== fixed_point_workset::finalize | fixed_point_workset<i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint>, u64, false> | () |  | void
-- file: include/pdaaal/utils/workset.h
-- same: 36
== fixed_point_workset::done | fixed_point_workset<i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint>, u64, false> | () const |  | bool
-- file: include/pdaaal/utils/workset.h
-- same: 32
== fixed_point_workset::run | fixed_point_workset<i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint>, u64, false> | () |  | void
-- file: include/pdaaal/utils/workset.h
-- same: 39
== fixed_point_workset::emplace | fixed_point_workset<i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint>, u64, false> | (u64 &) | <u64 &> | u64
-- file: include/pdaaal/utils/workset.h
-- same: 40
== fixed_point_workset::emplace | fixed_point_workset<i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint>, u64, false> | (const u64 &) | <const u64 &> | u64
-- file: include/pdaaal/utils/workset.h
-- same: 40
== fixed_point_workset::fixed_point_workset | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::ShortestFixedPoint>, i::temp_edge_t, true> | (u64) |  | void
-- file: include/pdaaal/utils/workset.h
-- same: 29
== fixed_point_workset::step | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::ShortestFixedPoint>, i::temp_edge_t, true> | () | false | bool
-- file: include/pdaaal/utils/workset.h
-- same: 30
== fixed_point_workset::step | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::ShortestFixedPoint>, i::temp_edge_t, true> | () | true | bool
-- file: include/pdaaal/utils/workset.h
-- same: 30
== fixed_point_workset::finalize | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::ShortestFixedPoint>, i::temp_edge_t, true> | () |  | void
-- file: include/pdaaal/utils/workset.h
-- same: 31
== fixed_point_workset::done | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::ShortestFixedPoint>, i::temp_edge_t, true> | () const |  | bool
-- file: include/pdaaal/utils/workset.h
-- same: 32
== fixed_point_workset::run | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::ShortestFixedPoint>, i::temp_edge_t, true> | () |  | void
-- file: include/pdaaal/utils/workset.h
-- same: 33
== fixed_point_workset::emplace | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::ShortestFixedPoint>, i::temp_edge_t, true> | (u64 &, const u32 &, const u64 &) | <u64 &, const u32 &, const u64 &> | i::temp_edge_t
-- file: include/pdaaal/utils/workset.h
-- same: 34
== fixed_point_workset::emplace | fixed_point_workset<i::PreStarFixedPointSaturation<Wu, TT::ShortestFixedPoint>, i::temp_edge_t, true> | (u64 &, u32 &, u64 &) | <u64 &, u32 &, u64 &> | i::temp_edge_t
-- file: include/pdaaal/utils/workset.h
-- same: 34
== i::temp_edge_t::temp_edge_t | i::temp_edge_t | (u64, u32, u64) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 41
do		set(self._from, param(#0))	true
do		set(self._to, param(#2))	true
do		set(self._label, param(#1))	true
== i::temp_edge_t::operator< | i::temp_edge_t | (const i::temp_edge_t &) const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 42
let	$1	param(#0)._from
let	$2	param(#0)._label
ret	{!lt($1, self._from) & !lt($2, self._label) & lt(self._to, param(#0)._to) | !lt($1, self._from) & lt(self._label, $2) | lt(self._from, $1)}	true
== i::temp_edge_t::operator== | i::temp_edge_t | (const i::temp_edge_t &) const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 43
ret	{eq(param(#0)._label, self._label) & eq(param(#0)._to, self._to) & eq(self._from, param(#0)._from)}	true
== i::temp_edge_t::operator!= | i::temp_edge_t | (const i::temp_edge_t &) const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 44
ret	{!eq(param(#0)._label, self._label) | !eq(param(#0)._to, self._to) | !eq(self._from, param(#0)._from)}	true
== i::AbslHashValue |  | (absl::hash_internal::MixingHashState, const i::temp_edge_t &) | absl::hash_internal::MixingHashState | absl::hash_internal::MixingHashState
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 45
ret	call(`absl::hash_internal::HashStateBase::combine`, param(#0), param(#1)._from, param(#1)._to, param(#1)._label)	true
== i::PreStarSaturation::PreStarSaturation | i::PreStarSaturation<Wu, false, false> | (i::PAutomaton<Wu, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &)> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 46
let	$1	self._automaton
let	$2	addrof(param(#0))
let	$3	self._pda_states
let	$4	addrof($1._pda._states)
let	$5	size($2._states)
let	$6	call(`pdaaal::internal::PDA::number_of_labels`, $2._pda)
let	$7	ctor(`std::vector`, $5)
let	$8	foreach($1._states)
let	$9	$1._states@0'^._edges
let	$10	$1._states@0'^._id'
let	$11	$3[$10]._pre_states
let	$12	$3[$11@0']._rules
let	$13	range(call(`std::lower_bound`, begin($12), end($12), $10, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($12))
let	$14	foreach(range(0, $6))
let	$15	$1._states[$11@0']'^._edges
let	$16	tuple{#0: pdaaal::internal::trace_t{_label: 4294967294, _rule_id: lin(#0, $13@0, mul(#-1, begin($12))), _state: 18446744073709551615}, #1: 0}
let	$17	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $13@0^.#0._operation)
let	$18	eq($10, $13@0^.#0._to)
let	$19	lt($10, size($4))
let	$20	self._popped[$10]
let	$21	$1._states@0'^._accepting'
let	$22	$13@0^.#1._wildcard
let	$23	$13@0^.#1._labels
do		set($1, $2)	true
do		set(self._early_termination, param(#1))	true
do		set($3, $4)	true
do		set(self._n_pda_states, size($4))	true
do		set(self._n_automaton_states, $5)	true
do		set(self._n_pda_labels, $6)	true
do		set(self._workset, new(`std::stack`))	true
do		set(self._rel, $7)	true
do		set(self._delta_prime, $7)	true
do		set(self._found, false)	true
do		set(self._minpath, new(`std::vector`))	true
do		set(self._popped, ctor(`std::vector`, size($4)))	true
do	$8 ; foreach($9) ; foreach($9@0.#1)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $10, _label: $9@0.#1@0.#0', _to: $9@0.#0'})	true
do	$8 ; foreach($11) ; foreach($13) ; $14	do(`insert`, $15, $10, range(0, $6)@0, $16)	!$20' & $17 & $18 & $19 & $21 & $22
do	$8 ; foreach($11) ; foreach($13) ; $14	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $11@0', _label: range(0, $6)@0, _to: $10})	!$20' & !contains($15', $10, range(0, $6)@0) & $17 & $18 & $19 & $21 & $22
do	$8 ; foreach($11) ; foreach($13) ; foreach($23)	do(`insert`, $15, $10, $23@0, $16)	!$20' & !$22 & $17 & $18 & $19 & $21
do	$8 ; foreach($11) ; foreach($13) ; foreach($23)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $11@0', _label: $23@0, _to: $10})	!$20' & !$22 & !contains($15', $10, $23@0) & $17 & $18 & $19 & $21
do	$8 ; foreach($11) ; foreach($13)	exit	!$18 & !$20' & $19 & $21
do	$8	set($20, true)	!$20' & $19 & $21
== i::PreStarSaturation::step | i::PreStarSaturation<Wu, false, false> | () |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 47
let	$1	top(self._workset)
let	$2	self._delta_prime
let	$3	foreach($2[$1._from])
let	$4	self._automaton._states
let	$5	$2[$1._from]@0.#0
let	$6	$2[$1._from]@0.#1
let	$7	self._pda_states
let	$8	call(`pdaaal::internal::labels_t::contains`, $7[$5]._rules[$6].#1, $1._label)
let	$9	$7[$1._from]._pre_states
let	$10	$7[$9@0]._rules
let	$11	range(call(`std::lower_bound`, begin($10), end($10), $1._from, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($10))
let	$12	range(0, self._n_pda_labels)
let	$13	$4[$9@0]^._edges
let	$14	lin(#0, $11@0, mul(#-1, begin($10)))
let	$15	tuple{#0: pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $14, _state: 18446744073709551615}, #1: 0}
let	$16	self._popped[$1._from]
let	$17	$11@0^.#1._wildcard
let	$18	eq($11@0^.#0._to, $1._from)
let	$19	lt($1._from, self._n_pda_states)
let	$20	$11@0^.#0._operation
let	$21	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $20)
let	$22	$11@0^.#1._labels
let	$23	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $20)
let	$24	eq($1._label, $11@0^.#0._op_label)
let	$25	call(`pdaaal::internal::labels_t::contains`, $11@0^.#1, $1._label)
let	$26	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $20)
let	$27	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $20)
let	$28	self._rel[$1._to]
let	$29	call(`pdaaal::internal::labels_t::contains`, $11@0^.#1, $28@0.#1')
do		do(`pop`, self._workset)	true
do		do(`push`, self._rel[$1._from], tuple{#0: $1._to, #1: $1._label})	true
do	$3	do(`insert`, $4[$5]^._edges, $1._to, $1._label, tuple{#0: pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $6, _state: $1._from}, #1: 0})	$8
do	$3	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $5, _label: $1._label, _to: $1._to})	!contains($4[$5]^._edges', $1._to, $1._label) & $8
do	foreach($9) ; foreach($11) ; foreach($12)	do(`insert`, $13, $1._from, $12@0, $15)	!$16 & $17 & $18 & $19 & $21
do	foreach($9) ; foreach($11) ; foreach($12)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $9@0, _label: $12@0, _to: $1._from})	!$16 & !contains($13', $1._from, $12@0) & $17 & $18 & $19 & $21
do	foreach($9) ; foreach($11) ; foreach($22)	do(`insert`, $13, $1._from, $22@0, $15)	!$16 & !$17 & $18 & $19 & $21
do	foreach($9) ; foreach($11) ; foreach($22)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $9@0, _label: $22@0, _to: $1._from})	!$16 & !$17 & !contains($13', $1._from, $22@0) & $18 & $19 & $21
do	foreach($9) ; foreach($11) ; foreach($12)	do(`insert`, $13, $1._to, $12@0, $15)	$17 & $18 & $19 & $23 & $24
do	foreach($9) ; foreach($11) ; foreach($12)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $9@0, _label: $12@0, _to: $1._to})	!contains($13', $1._to, $12@0) & $17 & $18 & $19 & $23 & $24
do	foreach($9) ; foreach($11) ; foreach($22)	do(`insert`, $13, $1._to, $22@0, $15)	!$17 & $18 & $19 & $23 & $24
do	foreach($9) ; foreach($11) ; foreach($22)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $9@0, _label: $22@0, _to: $1._to})	!$17 & !contains($13', $1._to, $22@0) & $18 & $19 & $23 & $24
do	foreach($9) ; foreach($11)	do(`insert`, $13, $1._to, $1._label, $15)	$18 & $19 & $25 & $26
do	foreach($9) ; foreach($11)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $9@0, _label: $1._label, _to: $1._to})	!contains($13', $1._to, $1._label) & $18 & $19 & $25 & $26
do	foreach($9) ; foreach($11)	do(`push`, $2[$1._to], tuple{#0: $9@0, #1: $14})	$18 & $19 & $24 & $27
do	foreach($9) ; foreach($11) ; foreach($28)	do(`insert`, $13, $28@0.#0', $28@0.#1', tuple{#0: pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $14, _state: $1._to}, #1: 0})	$18 & $19 & $24 & $27 & $29
do	foreach($9) ; foreach($11) ; foreach($28)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $9@0, _label: $28@0.#1', _to: $28@0.#0'})	!contains($13', $28@0.#0', $28@0.#1') & $18 & $19 & $24 & $27 & $29
do	foreach($9) ; foreach($11)	exit	!$18 & $19
do		set($16, true)	!$16 & $19
== i::PreStarSaturation::workset_empty | i::PreStarSaturation<Wu, false, false> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 48
ret	empty(self._workset)	true
== i::PreStarSaturation::found | i::PreStarSaturation<Wu, false, false> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 49
ret	self._found	true
== i::PreStarSaturation::weighted_edge_t::weighted_edge_t | i::PreStarSaturation<Wu, false, true>::weighted_edge_t | (u64, u32, u64, u32 &&, i::trace_t) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 50
do		set(self._from, param(#0))	true
do		set(self._to, param(#2))	true
do		set(self._label, param(#1))	true
do		set(self._weight, param(#3))	true
do		set(self._trace, param(#4))	true
== i::PreStarSaturation::weighted_edge_t_comp::operator() | i::PreStarSaturation<Wu, false, true>::weighted_edge_t_comp | (const i::PreStarSaturation<Wu, false, true>::weighted_edge_t &, const i::PreStarSaturation<Wu, false, true>::weighted_edge_t &) |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 51
ret	call(`pdaaal::details::weight_impl::less`, param(#1)._weight, param(#0)._weight)	true
== i::PreStarSaturation::PreStarSaturation | i::PreStarSaturation<Wu, false, true> | (i::PAutomaton<Wu, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &)> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 52
let	$1	addrof(param(#0))
let	$2	size($1._states)
let	$3	self._automaton
let	$4	self._pda_states
let	$5	addrof($3._pda._states)
let	$6	call(`pdaaal::internal::PDA::number_of_labels`, $1._pda)
let	$7	ctor(`std::vector`, $2)
let	$8	foreach($3._states)
let	$9	$3._states@0'^._edges
let	$10	foreach($9@0.#1)
let	$11	$3._states@0'^._id'
let	$12	self._minpath[$11]
let	$13	18446744073709551615
let	$14	$3._states@0'^._accepting'
let	$15	$4[$11]._pre_states
let	$16	$4[$15@0']._rules
let	$17	range(call(`std::lower_bound`, begin($16), end($16), $11, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($16))
let	$18	foreach(range(0, $6))
let	$19	$3._states[$15@0']'^._edges
let	$20	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: lin(#0, $17@0, mul(#-1, begin($16))), _state: $13}
let	$21	$17@0^.#0._weight
let	$22	tuple{#0: $20, #1: $21}
let	$23	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $17@0^.#0._operation)
let	$24	eq($11, $17@0^.#0._to)
let	$25	lt($11, size($5))
let	$26	self._popped[$11]
let	$27	$17@0^.#1._wildcard
let	$28	call(`pdaaal::details::weight_impl::add`, $21, $12'')
let	$29	contains($19', $11, range(0, $6)@0)
let	$30	$19[$11, range(0, $6)@0]
let	$31	call(`pdaaal::details::weight_impl::less`, $21, $30.#1'')
let	$32	self._minpath[$15@0']
let	$33	call(`pdaaal::details::weight_impl::less`, $28, $32'')
let	$34	$17@0^.#1._labels
let	$35	$19[$11, $34@0]
let	$36	call(`pdaaal::details::weight_impl::less`, $21, $35.#1'')
let	$37	contains($19', $11, $34@0)
do		do(`resize`, self._minpath, $2)	true
do		do(`std::fill`, self._minpath, 4294967295)	true
do		set($3, $1)	true
do		set(self._early_termination, param(#1))	true
do		set($4, $5)	true
do		set(self._n_pda_states, size($5))	true
do		set(self._n_automaton_states, $2)	true
do		set(self._n_pda_labels, $6)	true
do		set(self._workset, new(`std::priority_queue`))	true
do		set(self._rel, $7)	true
do		set(self._delta_prime, $7)	true
do		set(self._found, false)	true
do		set(self._minpath, new(`std::vector`))	true
do		set(self._popped, ctor(`std::vector`, size($5)))	true
do	$8 ; foreach($9) ; $10	set($12, 0)	true
do	$8 ; foreach($9) ; $10	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $11, _label: $9@0.#1@0.#0', _to: $9@0.#0', _trace: pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $13, _state: $13}, _weight: 0})	true
do	$8 ; foreach($9) ; $10	set(self._minpath[$9@0.#0'], 0)	true
do	$8	set($12, 0)	$14
do	$8 ; foreach($15) ; foreach($17) ; $18	do(`insert`, $19, $11, range(0, $6)@0, $22)	!$26' & $14 & $23 & $24 & $25 & $27
dom	$8 ; foreach($15) ; foreach($17) ; $18	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $15@0', _label: range(0, $6)@0, _to: $11, _trace: $20, _weight: $28})	!$26' & !$29 & $14 & $23 & $24 & $25 & $27 | !$26' & $14 & $23 & $24 & $25 & $27 & $31
do	$8 ; foreach($15) ; foreach($17) ; $18	set($32, $28)	!$26' & !$29 & $14 & $23 & $24 & $25 & $27 & $33
do	$8 ; foreach($15) ; foreach($17) ; $18	set($30, $22)	!$26' & $14 & $23 & $24 & $25 & $27 & $29 & $31
do	$8 ; foreach($15) ; foreach($17) ; foreach($34)	do(`insert`, $19, $11, $34@0, $22)	!$26' & !$27 & $14 & $23 & $24 & $25
dom	$8 ; foreach($15) ; foreach($17) ; foreach($34)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $15@0', _label: $34@0, _to: $11, _trace: $20, _weight: $28})	!$26' & !$27 & !$37 & $14 & $23 & $24 & $25 | !$26' & !$27 & $14 & $23 & $24 & $25 & $36
do	$8 ; foreach($15) ; foreach($17) ; foreach($34)	set($32, $28)	!$26' & !$27 & !$37 & $14 & $23 & $24 & $25 & $33
do	$8 ; foreach($15) ; foreach($17) ; foreach($34)	set($35, $22)	!$26' & !$27 & $14 & $23 & $24 & $25 & $36 & $37
do	$8 ; foreach($15) ; foreach($17)	exit	!$24 & !$26' & $14 & $25
do	$8	set($26, true)	!$26' & $14 & $25
== i::PreStarSaturation::step | i::PreStarSaturation<Wu, false, true> | () |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 53
let	$1	top(self._workset)
let	$2	self._automaton._states
let	$3	$2[$1._from]^._edges
let	$4	$3[$1._to, $1._label].#1
let	$5	self._minpath[$1._to]
let	$6	call(`pdaaal::details::weight_impl::less`, call(`pdaaal::details::weight_impl::add`, $4, $5), $1._weight)
let	$7	contains($3, $1._to, $1._label)
let	$8	call(`pdaaal::details::weight_impl::less`, call(`pdaaal::details::weight_impl::add`, 0^.#1, $5), $1._weight)
let	$9	self._minpath[$1._from]
let	$10	self._popped[$1._from]
let	$11	self._delta_prime
let	$12	foreach($11[$1._from])
let	$13	$11[$1._from]@0
let	$14	$2[$13.#0]^._edges
let	$15	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $13.#1, _state: $1._from}
let	$16	self._pda_states
let	$17	$16[$13.#0]._rules[$13.#1]
let	$18	$2[$17.#0._to]^._edges
let	$19	$17.#0._op_label
let	$20	call(`pdaaal::details::weight_impl::add`, $17.#0._weight, $18[$1._from, $19].#1')
let	$21	call(`pdaaal::details::weight_impl::add`, $20, $4)
let	$22	tuple{#0: $15, #1: $21}
let	$23	call(`pdaaal::internal::labels_t::contains`, $17.#1, $1._label)
let	$24	contains($18', $1._from, $19)
let	$25	call(`pdaaal::details::weight_impl::add`, $20, 0^.#1)
let	$26	tuple{#0: $15, #1: $25}
let	$27	call(`pdaaal::details::weight_impl::add`, $17.#0._weight, 0^.#1)
let	$28	call(`pdaaal::details::weight_impl::add`, $27, $4)
let	$29	tuple{#0: $15, #1: $28}
let	$30	call(`pdaaal::details::weight_impl::add`, $27, 0^.#1)
let	$31	tuple{#0: $15, #1: $30}
let	$32	call(`pdaaal::details::weight_impl::add`, $21, $5')
let	$33	$14[$1._to, $1._label]
let	$34	call(`pdaaal::details::weight_impl::less`, $21, $33.#1'')
let	$35	contains($14', $1._to, $1._label)
let	$36	call(`pdaaal::details::weight_impl::add`, $25, $5')
let	$37	call(`pdaaal::details::weight_impl::less`, $25, $33.#1'')
let	$38	call(`pdaaal::details::weight_impl::add`, $28, $5')
let	$39	call(`pdaaal::details::weight_impl::less`, $28, $33.#1'')
let	$40	call(`pdaaal::details::weight_impl::add`, $30, $5')
let	$41	call(`pdaaal::details::weight_impl::less`, $30, $33.#1'')
let	$42	self._minpath[$13.#0]
let	$43	$16[$1._from]._pre_states
let	$44	$16[$43@0]._rules
let	$45	range(call(`std::lower_bound`, begin($44), end($44), $1._from, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($44))
let	$46	range(0, self._n_pda_labels)
let	$47	$2[$43@0]^._edges
let	$48	lin(#0, $45@0, mul(#-1, begin($44)))
let	$49	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $48, _state: 18446744073709551615}
let	$50	$45@0^.#0._weight
let	$51	tuple{#0: $49, #1: $50}
let	$52	$45@0^.#1._wildcard
let	$53	eq($45@0^.#0._to, $1._from)
let	$54	lt($1._from, self._n_pda_states)
let	$55	$45@0^.#0._operation
let	$56	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $55)
let	$57	call(`pdaaal::details::weight_impl::add`, $50, $9')
let	$58	$47[$1._from, $46@0]
let	$59	call(`pdaaal::details::weight_impl::less`, $50, $58.#1'')
let	$60	contains($47', $1._from, $46@0)
let	$61	self._minpath[$43@0]
let	$62	call(`pdaaal::details::weight_impl::less`, $57, $61')
let	$63	$45@0^.#1._labels
let	$64	$47[$1._from, $63@0]
let	$65	call(`pdaaal::details::weight_impl::less`, $50, $64.#1'')
let	$66	contains($47', $1._from, $63@0)
let	$67	call(`pdaaal::details::weight_impl::add`, $4, $50)
let	$68	tuple{#0: $49, #1: $67}
let	$69	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $55)
let	$70	eq($1._label, $45@0^.#0._op_label)
let	$71	call(`pdaaal::details::weight_impl::add`, 0^.#1, $50)
let	$72	tuple{#0: $49, #1: $71}
let	$73	call(`pdaaal::details::weight_impl::add`, $67, $5')
let	$74	$47[$1._to, $46@0]
let	$75	call(`pdaaal::details::weight_impl::less`, $67, $74.#1'')
let	$76	contains($47', $1._to, $46@0)
let	$77	call(`pdaaal::details::weight_impl::add`, $71, $5')
let	$78	call(`pdaaal::details::weight_impl::less`, $71, $74.#1'')
let	$79	call(`pdaaal::details::weight_impl::less`, $73, $61')
let	$80	call(`pdaaal::details::weight_impl::less`, $77, $61')
let	$81	$47[$1._to, $63@0]
let	$82	call(`pdaaal::details::weight_impl::less`, $67, $81.#1'')
let	$83	contains($47', $1._to, $63@0)
let	$84	call(`pdaaal::details::weight_impl::less`, $71, $81.#1'')
let	$85	call(`pdaaal::internal::labels_t::contains`, $45@0^.#1, $1._label)
let	$86	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $55)
let	$87	$47[$1._to, $1._label]
let	$88	call(`pdaaal::details::weight_impl::less`, $67, $87.#1'')
let	$89	contains($47', $1._to, $1._label)
let	$90	call(`pdaaal::details::weight_impl::less`, $71, $87.#1'')
let	$91	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $55)
let	$92	self._rel[$1._to]
let	$93	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $48, _state: $1._to}
let	$94	$2[$1._to]^._edges
let	$95	$94[$92@0.#0', $92@0.#1'].#1'
let	$96	call(`pdaaal::details::weight_impl::add`, call(`pdaaal::details::weight_impl::add`, $95, $4), $50)
let	$97	tuple{#0: $93, #1: $96}
let	$98	contains($94', $92@0.#0', $92@0.#1')
let	$99	call(`pdaaal::internal::labels_t::contains`, $45@0^.#1, $92@0.#1')
let	$100	call(`pdaaal::details::weight_impl::add`, call(`pdaaal::details::weight_impl::add`, $95, 0^.#1), $50)
let	$101	tuple{#0: $93, #1: $100}
let	$102	call(`pdaaal::details::weight_impl::add`, call(`pdaaal::details::weight_impl::add`, 0^.#1, $4), $50)
let	$103	tuple{#0: $93, #1: $102}
let	$104	call(`pdaaal::details::weight_impl::add`, call(`pdaaal::details::weight_impl::add`, 0^.#1, 0^.#1), $50)
let	$105	tuple{#0: $93, #1: $104}
let	$106	self._minpath[$92@0.#0']'
let	$107	call(`pdaaal::details::weight_impl::add`, $96, $106)
let	$108	contains($47', $92@0.#0', $92@0.#1')
let	$109	$47[$92@0.#0', $92@0.#1']
let	$110	call(`pdaaal::details::weight_impl::less`, $96, $109.#1'')
let	$111	call(`pdaaal::details::weight_impl::add`, $100, $106)
let	$112	call(`pdaaal::details::weight_impl::less`, $100, $109.#1'')
let	$113	call(`pdaaal::details::weight_impl::add`, $102, $106)
let	$114	call(`pdaaal::details::weight_impl::less`, $102, $109.#1'')
let	$115	call(`pdaaal::details::weight_impl::add`, $104, $106)
let	$116	call(`pdaaal::details::weight_impl::less`, $104, $109.#1'')
do		do(`pop`, self._workset)	true
do		do(`push`, self._rel[$1._from], tuple{#0: $1._to, #1: $1._label})	!$6 & $7 | !$7 & !$8
do		set($9, $1._weight)	!$10
do	$12	do(`insert`, $14, $1._to, $1._label, $22)	!$6 & $23 & $24 & $7
do	$12	do(`insert`, $14, $1._to, $1._label, $26)	!$7 & !$8 & $23 & $24
do	$12	do(`insert`, $14, $1._to, $1._label, $29)	!$24 & !$6 & $23 & $7
do	$12	do(`insert`, $14, $1._to, $1._label, $31)	!$24 & !$7 & !$8 & $23
dom	$12	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $13.#0, _label: $1._label, _to: $1._to, _trace: $15, _weight: $32})	!$35 & !$6 & $23 & $24 & $7 | !$6 & $23 & $24 & $34 & $7
dom	$12	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $13.#0, _label: $1._label, _to: $1._to, _trace: $15, _weight: $36})	!$35 & !$7 & !$8 & $23 & $24 | !$7 & !$8 & $23 & $24 & $37
dom	$12	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $13.#0, _label: $1._label, _to: $1._to, _trace: $15, _weight: $38})	!$24 & !$35 & !$6 & $23 & $7 | !$24 & !$6 & $23 & $39 & $7
dom	$12	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $13.#0, _label: $1._label, _to: $1._to, _trace: $15, _weight: $40})	!$24 & !$35 & !$7 & !$8 & $23 | !$24 & !$7 & !$8 & $23 & $41
do	$12	set($42, $32)	!$35 & !$6 & $23 & $24 & $7 & call(`pdaaal::details::weight_impl::less`, $32, $42')
do	$12	set($42, $36)	!$35 & !$7 & !$8 & $23 & $24 & call(`pdaaal::details::weight_impl::less`, $36, $42')
do	$12	set($42, $38)	!$24 & !$35 & !$6 & $23 & $7 & call(`pdaaal::details::weight_impl::less`, $38, $42')
do	$12	set($42, $40)	!$24 & !$35 & !$7 & !$8 & $23 & call(`pdaaal::details::weight_impl::less`, $40, $42')
do	$12	set($33, $22)	!$6 & $23 & $24 & $34 & $35 & $7
do	$12	set($33, $26)	!$7 & !$8 & $23 & $24 & $35 & $37
do	$12	set($33, $29)	!$24 & !$6 & $23 & $35 & $39 & $7
do	$12	set($33, $31)	!$24 & !$7 & !$8 & $23 & $35 & $41
do	foreach($43) ; foreach($45) ; foreach($46)	do(`insert`, $47, $1._from, $46@0, $51)	!$10 & !$6 & $52 & $53 & $54 & $56 & $7 | !$10 & !$7 & !$8 & $52 & $53 & $54 & $56
dom	foreach($43) ; foreach($45) ; foreach($46)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $43@0, _label: $46@0, _to: $1._from, _trace: $49, _weight: $57})	!$10 & !$6 & !$60 & $52 & $53 & $54 & $56 & $7 | !$10 & !$6 & $52 & $53 & $54 & $56 & $59 & $7 | !$10 & !$60 & !$7 & !$8 & $52 & $53 & $54 & $56 | !$10 & !$7 & !$8 & $52 & $53 & $54 & $56 & $59
do	foreach($43) ; foreach($45) ; foreach($46)	set($61, $57)	!$10 & !$6 & !$60 & $52 & $53 & $54 & $56 & $62 & $7 | !$10 & !$60 & !$7 & !$8 & $52 & $53 & $54 & $56 & $62
do	foreach($43) ; foreach($45) ; foreach($46)	set($58, $51)	!$10 & !$6 & $52 & $53 & $54 & $56 & $59 & $60 & $7 | !$10 & !$7 & !$8 & $52 & $53 & $54 & $56 & $59 & $60
do	foreach($43) ; foreach($45) ; foreach($63)	do(`insert`, $47, $1._from, $63@0, $51)	!$10 & !$52 & !$6 & $53 & $54 & $56 & $7 | !$10 & !$52 & !$7 & !$8 & $53 & $54 & $56
dom	foreach($43) ; foreach($45) ; foreach($63)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $43@0, _label: $63@0, _to: $1._from, _trace: $49, _weight: $57})	!$10 & !$52 & !$6 & !$66 & $53 & $54 & $56 & $7 | !$10 & !$52 & !$6 & $53 & $54 & $56 & $65 & $7 | !$10 & !$52 & !$66 & !$7 & !$8 & $53 & $54 & $56 | !$10 & !$52 & !$7 & !$8 & $53 & $54 & $56 & $65
do	foreach($43) ; foreach($45) ; foreach($63)	set($61, $57)	!$10 & !$52 & !$6 & !$66 & $53 & $54 & $56 & $62 & $7 | !$10 & !$52 & !$66 & !$7 & !$8 & $53 & $54 & $56 & $62
do	foreach($43) ; foreach($45) ; foreach($63)	set($64, $51)	!$10 & !$52 & !$6 & $53 & $54 & $56 & $65 & $66 & $7 | !$10 & !$52 & !$7 & !$8 & $53 & $54 & $56 & $65 & $66
do	foreach($43) ; foreach($45) ; foreach($46)	do(`insert`, $47, $1._to, $46@0, $68)	!$6 & $52 & $53 & $54 & $69 & $7 & $70
do	foreach($43) ; foreach($45) ; foreach($46)	do(`insert`, $47, $1._to, $46@0, $72)	!$7 & !$8 & $52 & $53 & $54 & $69 & $70
dom	foreach($43) ; foreach($45) ; foreach($46)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $43@0, _label: $46@0, _to: $1._to, _trace: $49, _weight: $73})	!$6 & !$76 & $52 & $53 & $54 & $69 & $7 & $70 | !$6 & $52 & $53 & $54 & $69 & $7 & $70 & $75
dom	foreach($43) ; foreach($45) ; foreach($46)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $43@0, _label: $46@0, _to: $1._to, _trace: $49, _weight: $77})	!$7 & !$76 & !$8 & $52 & $53 & $54 & $69 & $70 | !$7 & !$8 & $52 & $53 & $54 & $69 & $70 & $78
do	foreach($43) ; foreach($45) ; foreach($46)	set($61, $73)	!$6 & !$76 & $52 & $53 & $54 & $69 & $7 & $70 & $79
do	foreach($43) ; foreach($45) ; foreach($46)	set($61, $77)	!$7 & !$76 & !$8 & $52 & $53 & $54 & $69 & $70 & $80
do	foreach($43) ; foreach($45) ; foreach($46)	set($74, $68)	!$6 & $52 & $53 & $54 & $69 & $7 & $70 & $75 & $76
do	foreach($43) ; foreach($45) ; foreach($46)	set($74, $72)	!$7 & !$8 & $52 & $53 & $54 & $69 & $70 & $76 & $78
do	foreach($43) ; foreach($45) ; foreach($63)	do(`insert`, $47, $1._to, $63@0, $68)	!$52 & !$6 & $53 & $54 & $69 & $7 & $70
do	foreach($43) ; foreach($45) ; foreach($63)	do(`insert`, $47, $1._to, $63@0, $72)	!$52 & !$7 & !$8 & $53 & $54 & $69 & $70
dom	foreach($43) ; foreach($45) ; foreach($63)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $43@0, _label: $63@0, _to: $1._to, _trace: $49, _weight: $73})	!$52 & !$6 & !$83 & $53 & $54 & $69 & $7 & $70 | !$52 & !$6 & $53 & $54 & $69 & $7 & $70 & $82
dom	foreach($43) ; foreach($45) ; foreach($63)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $43@0, _label: $63@0, _to: $1._to, _trace: $49, _weight: $77})	!$52 & !$7 & !$8 & !$83 & $53 & $54 & $69 & $70 | !$52 & !$7 & !$8 & $53 & $54 & $69 & $70 & $84
do	foreach($43) ; foreach($45) ; foreach($63)	set($61, $73)	!$52 & !$6 & !$83 & $53 & $54 & $69 & $7 & $70 & $79
do	foreach($43) ; foreach($45) ; foreach($63)	set($61, $77)	!$52 & !$7 & !$8 & !$83 & $53 & $54 & $69 & $70 & $80
do	foreach($43) ; foreach($45) ; foreach($63)	set($81, $68)	!$52 & !$6 & $53 & $54 & $69 & $7 & $70 & $82 & $83
do	foreach($43) ; foreach($45) ; foreach($63)	set($81, $72)	!$52 & !$7 & !$8 & $53 & $54 & $69 & $70 & $83 & $84
do	foreach($43) ; foreach($45)	do(`insert`, $47, $1._to, $1._label, $68)	!$6 & $53 & $54 & $7 & $85 & $86
do	foreach($43) ; foreach($45)	do(`insert`, $47, $1._to, $1._label, $72)	!$7 & !$8 & $53 & $54 & $85 & $86
dom	foreach($43) ; foreach($45)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $43@0, _label: $1._label, _to: $1._to, _trace: $49, _weight: $73})	!$6 & !$89 & $53 & $54 & $7 & $85 & $86 | !$6 & $53 & $54 & $7 & $85 & $86 & $88
dom	foreach($43) ; foreach($45)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $43@0, _label: $1._label, _to: $1._to, _trace: $49, _weight: $77})	!$7 & !$8 & !$89 & $53 & $54 & $85 & $86 | !$7 & !$8 & $53 & $54 & $85 & $86 & $90
do	foreach($43) ; foreach($45)	do(`push`, $11[$1._to], tuple{#0: $43@0, #1: $48})	!$6 & $53 & $54 & $7 & $70 & $91 | !$7 & !$8 & $53 & $54 & $70 & $91
do	foreach($43) ; foreach($45)	set($61, $73)	!$6 & !$89 & $53 & $54 & $7 & $79 & $85 & $86
do	foreach($43) ; foreach($45)	set($61, $77)	!$7 & !$8 & !$89 & $53 & $54 & $80 & $85 & $86
do	foreach($43) ; foreach($45)	set($87, $68)	!$6 & $53 & $54 & $7 & $85 & $86 & $88 & $89
do	foreach($43) ; foreach($45)	set($87, $72)	!$7 & !$8 & $53 & $54 & $85 & $86 & $89 & $90
do	foreach($43) ; foreach($45) ; foreach($92)	do(`insert`, $47, $92@0.#0', $92@0.#1', $97)	!$6 & $53 & $54 & $7 & $70 & $91 & $98 & $99
do	foreach($43) ; foreach($45) ; foreach($92)	do(`insert`, $47, $92@0.#0', $92@0.#1', $101)	!$7 & !$8 & $53 & $54 & $70 & $91 & $98 & $99
do	foreach($43) ; foreach($45) ; foreach($92)	do(`insert`, $47, $92@0.#0', $92@0.#1', $103)	!$6 & !$98 & $53 & $54 & $7 & $70 & $91 & $99
do	foreach($43) ; foreach($45) ; foreach($92)	do(`insert`, $47, $92@0.#0', $92@0.#1', $105)	!$7 & !$8 & !$98 & $53 & $54 & $70 & $91 & $99
dom	foreach($43) ; foreach($45) ; foreach($92)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $43@0, _label: $92@0.#1', _to: $92@0.#0', _trace: $93, _weight: $107})	!$108 & !$6 & $53 & $54 & $7 & $70 & $91 & $98 & $99 | !$6 & $110 & $53 & $54 & $7 & $70 & $91 & $98 & $99
dom	foreach($43) ; foreach($45) ; foreach($92)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $43@0, _label: $92@0.#1', _to: $92@0.#0', _trace: $93, _weight: $111})	!$108 & !$7 & !$8 & $53 & $54 & $70 & $91 & $98 & $99 | !$7 & !$8 & $112 & $53 & $54 & $70 & $91 & $98 & $99
dom	foreach($43) ; foreach($45) ; foreach($92)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $43@0, _label: $92@0.#1', _to: $92@0.#0', _trace: $93, _weight: $113})	!$108 & !$6 & !$98 & $53 & $54 & $7 & $70 & $91 & $99 | !$6 & !$98 & $114 & $53 & $54 & $7 & $70 & $91 & $99
dom	foreach($43) ; foreach($45) ; foreach($92)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $43@0, _label: $92@0.#1', _to: $92@0.#0', _trace: $93, _weight: $115})	!$108 & !$7 & !$8 & !$98 & $53 & $54 & $70 & $91 & $99 | !$7 & !$8 & !$98 & $116 & $53 & $54 & $70 & $91 & $99
do	foreach($43) ; foreach($45) ; foreach($92)	set($61, $107)	!$108 & !$6 & $53 & $54 & $7 & $70 & $91 & $98 & $99 & call(`pdaaal::details::weight_impl::less`, $107, $61')
do	foreach($43) ; foreach($45) ; foreach($92)	set($61, $111)	!$108 & !$7 & !$8 & $53 & $54 & $70 & $91 & $98 & $99 & call(`pdaaal::details::weight_impl::less`, $111, $61')
do	foreach($43) ; foreach($45) ; foreach($92)	set($61, $113)	!$108 & !$6 & !$98 & $53 & $54 & $7 & $70 & $91 & $99 & call(`pdaaal::details::weight_impl::less`, $113, $61')
do	foreach($43) ; foreach($45) ; foreach($92)	set($61, $115)	!$108 & !$7 & !$8 & !$98 & $53 & $54 & $70 & $91 & $99 & call(`pdaaal::details::weight_impl::less`, $115, $61')
do	foreach($43) ; foreach($45) ; foreach($92)	set($109, $97)	!$6 & $108 & $110 & $53 & $54 & $7 & $70 & $91 & $98 & $99
do	foreach($43) ; foreach($45) ; foreach($92)	set($109, $101)	!$7 & !$8 & $108 & $112 & $53 & $54 & $70 & $91 & $98 & $99
do	foreach($43) ; foreach($45) ; foreach($92)	set($109, $103)	!$6 & !$98 & $108 & $114 & $53 & $54 & $7 & $70 & $91 & $99
do	foreach($43) ; foreach($45) ; foreach($92)	set($109, $105)	!$7 & !$8 & !$98 & $108 & $116 & $53 & $54 & $70 & $91 & $99
do	foreach($43) ; foreach($45)	exit	!$53 & !$6 & $54 & $7 | !$53 & !$7 & !$8 & $54
do		set($10, true)	!$10 & !$6 & $54 & $7 | !$10 & !$7 & !$8 & $54
== i::PreStarSaturation::workset_empty | i::PreStarSaturation<Wu, false, true> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 48
== i::PreStarSaturation::found | i::PreStarSaturation<Wu, false, true> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 49
== i::PostStarSaturation::PostStarSaturation | i::PostStarSaturation<Wu, false> | (i::PAutomaton<Wu, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>)> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 54
let	$1	self._automaton
let	$2	addrof(param(#0))
let	$3	self._pda_states
let	$4	addrof($1._pda._states)
let	$5	size($2._states)
let	$6	self._n_automaton_states
let	$7	new(`std::vector`)
let	$8	foreach($3@0._rules)
let	$9	$3@0._rules@0.#0
let	$10	tuple{#0: $9._to', #1: $9._op_label'}
let	$11	size($1._states')
let	$12	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $9._operation')
let	$13	mul(#-1, size($4))
let	$14	foreach($1._states)
let	$15	$1._states@0'^._edges
let	$16	foreach($15@0.#1)
let	$17	$1._states@0'^._id'
let	$18	lt($17, size($4))
do		set($1, $2)	true
do		set(self._early_termination, param(#1))	true
do		set($3, $4)	true
do		set(self._n_pda_states, size($4))	true
do		set(self._n_Q, $5)	true
do		set(self._q_prime, new(`std::unordered_map`))	true
do		set($6, 0)	true
do		set(self._workset, new(`std::queue`))	true
do		set(self._rel1, $7)	true
do		set(self._rel2, $7)	true
do		set(self._found, false)	true
do	foreach($3) ; $8	do(`insert`, self._q_prime, $10, $11)	$12
do	foreach($3) ; $8	do(`pdaaal::internal::PAutomaton::add_state`, $1, false, false)	!contains(self._q_prime', $10) & $12
do		do(`resize`, self._rel1, lin(#0, $13, $11))	true
do		do(`resize`, self._rel2, lin(#0, mul(#-1, $5), $11))	true
do		set($6, $11)	true
do	$14 ; foreach($15) ; $16	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $17, _label: $15@0.#1@0.#0', _to: $15@0.#0'})	$18
do	$14 ; foreach($15) ; $16	do(`push`, self._rel1[lin(#0, $17, $13)], tuple{#0: $15@0.#0', #1: $15@0.#1@0.#0'})	!$18
do	$14 ; foreach($15) ; $16	do(`push`, self._rel2[lin(#0, $15@0.#0', mul(#-1, $5))], $17)	!$18 & !lt($15@0.#0', $5) & eq(4294967295, $15@0.#1@0.#0')
== i::PostStarSaturation::step | i::PostStarSaturation<Wu, false> | () |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 55
let	$1	self._n_pda_states
let	$2	front(self._workset)
let	$3	tuple{#0: $2._to, #1: $2._label}
let	$4	mul(#-1, self._n_Q)
let	$5	eq(4294967295, $2._label)
let	$6	self._pda_states[$2._from]._rules
let	$7	self._automaton._states
let	$8	$7[$6@0.#0._to]^._edges
let	$9	tuple{#0: pdaaal::internal::trace_t{_label: $2._label, _rule_id: ix($6, #0), _state: $2._from}, #1: 0}
let	$10	call(`pdaaal::internal::labels_t::contains`, $6@0.#1, $2._label)
let	$11	$6@0.#0._operation
let	$12	eq($11, enum(`pdaaal::POP`, `pdaaal::op_t`))
let	$13	$6@0.#0._op_label
let	$14	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $11)
let	$15	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $11)
let	$16	self._q_prime[tuple{#0: $6@0.#0._to, #1: $13}]
let	$17	eq($11, enum(`pdaaal::PUSH`, `pdaaal::op_t`))
let	$18	$7[$16]^._edges
let	$19	self._rel2[lin(#0, $4, $16)]
let	$20	$7[$19@0]^._edges
let	$21	18446744073709551615
let	$22	self._rel1[lin(#0, mul(#-1, $1), $2._to)]
let	$23	$7[$2._from]^._edges
do		do(`pop`, self._workset)	true
do		do(`push`, self._rel1[lin(#0, mul(#-1, $1), $2._from)], $3)	!lt($2._from, $1)
do		do(`push`, self._rel2[lin(#0, $4, $2._to)], $2._from)	!lt($2._to, self._n_Q) & $5
do	foreach($6)	do(`insert`, $8, $2._to, 4294967295, $9)	!$5 & $10 & $12
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: 4294967295, _to: $2._to})	!$5 & !contains($8', $2._to, 4294967295) & $10 & $12
do	foreach($6)	do(`insert`, $8, $2._to, $13, $9)	!$5 & $10 & $14
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: $13, _to: $2._to})	!$5 & !contains($8', $2._to, $13) & $10 & $14
do	foreach($6)	do(`insert`, $8, $2._to, $2._label, $9)	!$5 & $10 & $15
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: $2._label, _to: $2._to})	!$5 & !contains($8', $2._to, $2._label) & $10 & $15
do	foreach($6)	do(`insert`, $8, $16, $13, $9)	!$5 & $10 & $17
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: $13, _to: $16})	!$5 & !contains($8', $16, $13) & $10 & $17
do	foreach($6)	do(`insert`, $18, $2._to, $2._label, $9)	!$5 & $10 & $17
do	foreach($6)	do(`push`, self._rel1[lin(#0, mul(#-1, $1), $16)], $3)	!$5 & !contains($18'', $2._to, $2._label) & !lt($16, $1) & $10 & $17
do	foreach($6) ; foreach($19)	do(`insert`, $20, $2._to, $2._label, tuple{#0: pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $21, _state: $16}, #1: 0})	!$5 & $10 & $17
do	foreach($6) ; foreach($19)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $19@0, _label: $2._label, _to: $2._to})	!$5 & !contains($20'', $2._to, $2._label) & $10 & $17
do	foreach($22)	do(`insert`, $23, $22@0.#0', $22@0.#1', tuple{#0: pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $21, _state: $2._to}, #1: 0})	$5
do	foreach($22)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $2._from, _label: $22@0.#1', _to: $22@0.#0'})	!contains($23', $22@0.#0', $22@0.#1') & $5
== i::PostStarSaturation::workset_empty | i::PostStarSaturation<Wu, false> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 56
ret	empty(self._workset)	true
== i::PostStarSaturation::found | i::PostStarSaturation<Wu, false> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 57
ret	self._found	true
== i::PostStarSaturation::run | i::PostStarSaturation<Wu, false> | () |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 58
let	$1	empty(self._workset')
do	loop(#0)	do(`pdaaal::internal::PostStarSaturation::step`, self)	!$1
do	loop(#0)	exit	$1
ret	self._found	true
== i::PostStarShortestSaturation::weight_edge_trace::weight_edge_trace | i::PostStarShortestSaturation<Wu, true, false, void>::weight_edge_trace | (u32, i::temp_edge_t, i::trace_t) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 59
do		set(self._weight, param(#0))	true
do		set(self._edge, param(#1))	true
do		set(self._trace, param(#2))	true
== i::PostStarShortestSaturation::weight_edge_trace_comp::operator() | i::PostStarShortestSaturation<Wu, true, false, void>::weight_edge_trace_comp | (const i::PostStarShortestSaturation<Wu, true, false, void>::weight_edge_trace &, const i::PostStarShortestSaturation<Wu, true, false, void>::weight_edge_trace &) |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 60
ret	call(`pdaaal::details::weight_impl::less`, param(#1)._weight, param(#0)._weight)	true
== i::PostStarShortestSaturation::PostStarShortestSaturation | i::PostStarShortestSaturation<Wu, true, false, void> | (i::PAutomaton<Wu, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &)> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 61
let	$1	self._automaton
let	$2	addrof(param(#0))
let	$3	self._pda_states
let	$4	addrof($1._pda._states)
let	$5	size($2._states)
let	$6	new(`std::unordered_map`)
let	$7	self._n_automaton_states
let	$8	new(`std::vector`)
let	$9	self._edge_weights
let	$10	foreach($3@0._rules)
let	$11	$3@0._rules@0.#0
let	$12	tuple{#0: $11._to', #1: $11._op_label'}
let	$13	size($1._states')
let	$14	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $11._operation')
let	$15	lin(#0, mul(#-1, $5), $13)
let	$16	mul(#-1, size($4))
let	$17	foreach($1._states)
let	$18	$1._states@0'^._edges
let	$19	foreach($18@0.#1)
let	$20	$1._states@0'^._id'
let	$21	pdaaal::internal::temp_edge_t{_from: $20, _label: $18@0.#1@0.#0', _to: $18@0.#0'}
let	$22	18446744073709551615
let	$23	lt($20, size($4))
do		set($1, $2)	true
do		set(self._early_termination, param(#1))	true
do		set($3, $4)	true
do		set(self._n_pda_states, size($4))	true
do		set(self._n_Q, $5)	true
do		set(self._q_prime, $6)	true
do		set($7, 0)	true
do		set(self._minpath, $8)	true
do		set($9, $6)	true
do		set(self._workset, new(`std::priority_queue`))	true
do		set(self._rel1, $8)	true
do		set(self._rel2, $8)	true
do		set(self._found, false)	true
do	foreach($3) ; $10	do(`insert`, self._q_prime, $12, $13)	$14
do	foreach($3) ; $10	do(`pdaaal::internal::PAutomaton::add_state`, $1, false, false)	!contains(self._q_prime', $12) & $14
do		do(`resize`, self._minpath, $15)	true
do		do(`std::fill`, self._minpath, 4294967295)	true
do		do(`resize`, self._rel1, lin(#0, $16, $13))	true
do		do(`resize`, self._rel2, $15)	true
do		set($7, $13)	true
do	$17 ; foreach($18) ; $19	do(`insert`, $9, $21, tuple{#0: 0, #1: 0})	true
do	$17 ; foreach($18) ; $19	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $21, _trace: pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $22, _state: $22}, _weight: 0})	$23
do	$17 ; foreach($18) ; $19	do(`push`, self._rel1[lin(#0, $20, $16)], tuple{#0: $18@0.#0', #1: $18@0.#1@0.#0'})	!$23
do	$17 ; foreach($18) ; $19	do(`push`, self._rel2[lin(#0, $18@0.#0', mul(#-1, $5))], $20)	!$23 & !lt($18@0.#0', $5) & eq(4294967295, $18@0.#1@0.#0')
== i::PostStarShortestSaturation::step | i::PostStarShortestSaturation<Wu, true, false, void> | () |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 62
let	$1	self._n_pda_states
let	$2	top(self._workset)
let	$3	$2._edge._label
let	$4	lt($2._edge._from, $1)
let	$5	self._edge_weights
let	$6	call(`pdaaal::details::weight_impl::less`, $5[$2._edge].#1, $2._weight)
let	$7	mul(#-1, self._n_Q)
let	$8	lin(#0, $7, $2._edge._to)
let	$9	eq(4294967295, $3)
let	$10	lt($2._edge._to, self._n_Q)
let	$11	self._automaton._states
let	$12	$11[$2._edge._from]^._edges
let	$13	$5[$2._edge].#0
let	$14	tuple{#0: $2._trace, #1: $13}
let	$15	self._rel2[lin(#0, $7, $2._edge._from)]
let	$16	pdaaal::internal::temp_edge_t{_from: $15@0', _label: $3, _to: $2._edge._to}
let	$17	$11[$15@0']^._edges
let	$18	call(`pdaaal::details::weight_impl::add`, $13, $17[$2._edge._from, 4294967295].#1')
let	$19	contains($17', $2._edge._from, 4294967295)
let	$20	self._minpath[$8]
let	$21	call(`pdaaal::details::weight_impl::add`, $20, $18)
let	$22	call(`pdaaal::details::weight_impl::add`, $13, 0^.#1)
let	$23	call(`pdaaal::details::weight_impl::add`, $20, $22)
let	$24	18446744073709551615
let	$25	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $24, _state: $2._edge._from}
let	$26	contains($5', $16)
let	$27	call(`pdaaal::details::weight_impl::less`, $18, $5[$16].#1'')
let	$28	call(`pdaaal::details::weight_impl::less`, $22, $5[$16].#1'')
let	$29	call(`pdaaal::details::weight_impl::less`, $21, $5[$16].#1'')
let	$30	call(`pdaaal::details::weight_impl::less`, $23, $5[$16].#1'')
let	$31	self._pda_states[$2._edge._from]._rules
let	$32	pdaaal::internal::temp_edge_t{_from: $31@0.#0._to, _label: 4294967295, _to: $2._edge._to}
let	$33	$31@0.#0._weight
let	$34	call(`pdaaal::details::weight_impl::add`, $13, $33)
let	$35	tuple{#0: $34, #1: $34}
let	$36	call(`pdaaal::internal::labels_t::contains`, $31@0.#1, $3)
let	$37	$31@0.#0._operation
let	$38	eq($37, enum(`pdaaal::POP`, `pdaaal::op_t`))
let	$39	call(`pdaaal::details::weight_impl::add`, $20', $34)
let	$40	tuple{#0: $34, #1: $39}
let	$41	pdaaal::internal::trace_t{_label: $3, _rule_id: ix($31, #0), _state: $2._edge._from}
let	$42	call(`pdaaal::details::weight_impl::less`, $34, $5[$32].#1'')
let	$43	contains($5', $32)
let	$44	call(`pdaaal::details::weight_impl::less`, $39, $5[$32].#1'')
let	$45	$31@0.#0._op_label
let	$46	pdaaal::internal::temp_edge_t{_from: $31@0.#0._to, _label: $45, _to: $2._edge._to}
let	$47	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $37)
let	$48	contains($5', $46)
let	$49	call(`pdaaal::details::weight_impl::less`, $34, $5[$46].#1'')
let	$50	call(`pdaaal::details::weight_impl::less`, $39, $5[$46].#1'')
let	$51	pdaaal::internal::temp_edge_t{_from: $31@0.#0._to, _label: $3, _to: $2._edge._to}
let	$52	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $37)
let	$53	call(`pdaaal::details::weight_impl::less`, $34, $5[$51].#1'')
let	$54	contains($5', $51)
let	$55	call(`pdaaal::details::weight_impl::less`, $39, $5[$51].#1'')
let	$56	self._q_prime[tuple{#0: $31@0.#0._to, #1: $45}]
let	$57	pdaaal::internal::temp_edge_t{_from: $31@0.#0._to, _label: $45, _to: $56}
let	$58	call(`pdaaal::details::weight_impl::add`, $2._weight, $33)
let	$59	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $37)
let	$60	call(`pdaaal::details::weight_impl::less`, $58, $5[$57].#1'')
let	$61	self._minpath[lin(#0, $56, $7)]
let	$62	call(`pdaaal::details::weight_impl::less`, $58, $61')
let	$63	contains($5', $57)
let	$64	pdaaal::internal::temp_edge_t{_from: $56, _label: $3, _to: $2._edge._to}
let	$65	call(`pdaaal::details::weight_impl::less`, $34, $5[$64].#1'')
let	$66	contains($5'', $64)
let	$67	call(`pdaaal::details::weight_impl::less`, $39, $5[$64].#1'')
let	$68	self._rel1[lin(#0, mul(#-1, $1), $2._edge._to)]
let	$69	pdaaal::internal::temp_edge_t{_from: $2._edge._from, _label: $68@0.#1, _to: $68@0.#0}
let	$70	$11[$2._edge._to]^._edges
let	$71	call(`pdaaal::details::weight_impl::add`, $70[$68@0.#0, $68@0.#1].#1', $13)
let	$72	contains($70', $68@0.#0, $68@0.#1)
let	$73	lt($68@0.#0, self._n_Q)
let	$74	self._minpath[lin(#0, $7, $68@0.#0)]
let	$75	call(`pdaaal::details::weight_impl::add`, $74, $71)
let	$76	call(`pdaaal::details::weight_impl::add`, 0^.#1, $13)
let	$77	call(`pdaaal::details::weight_impl::add`, $74, $76)
let	$78	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $24, _state: $2._edge._to}
let	$79	call(`pdaaal::details::weight_impl::less`, $71, $5[$69].#1'')
let	$80	contains($5', $69)
let	$81	call(`pdaaal::details::weight_impl::less`, $76, $5[$69].#1'')
let	$82	call(`pdaaal::details::weight_impl::less`, $75, $5[$69].#1'')
let	$83	call(`pdaaal::details::weight_impl::less`, $77, $5[$69].#1'')
do		do(`pop`, self._workset)	true
do		do(`push`, self._rel1[lin(#0, mul(#-1, $1), $2._edge._from)], tuple{#0: $2._edge._to, #1: $3})	!$4 & !$6
do		do(`push`, self._rel2[$8], $2._edge._from)	!$10 & !$6 & $9
do		do(`insert`, $12, $2._edge._to, 4294967295, $14)	!$6 & $9
do		do(`insert`, $12, $2._edge._to, $3, $14)	!$6 & !$9
do	foreach($15)	do(`insert`, $5, $16, tuple{#0: $18, #1: $18})	!$4 & !$6 & $10 & $19
do	foreach($15)	do(`insert`, $5, $16, tuple{#0: $18, #1: $21})	!$10 & !$4 & !$6 & $19
do	foreach($15)	do(`insert`, $5, $16, tuple{#0: $22, #1: $22})	!$19 & !$4 & !$6 & $10
do	foreach($15)	do(`insert`, $5, $16, tuple{#0: $22, #1: $23})	!$10 & !$19 & !$4 & !$6
do	foreach($15)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $16, _trace: $25, _weight: $18})	!$26 & !$4 & !$6 & $10 & $19 | !$4 & !$6 & $10 & $19 & $27
do	foreach($15)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $16, _trace: $25, _weight: $22})	!$19 & !$26 & !$4 & !$6 & $10 | !$19 & !$4 & !$6 & $10 & $28
do	foreach($15)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $16, _trace: $25, _weight: $21})	!$10 & !$26 & !$4 & !$6 & $19 | !$10 & !$4 & !$6 & $19 & $29
do	foreach($15)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $16, _trace: $25, _weight: $23})	!$10 & !$19 & !$26 & !$4 & !$6 | !$10 & !$19 & !$4 & !$6 & $30
do	foreach($15)	set($5[$16].#0, $18)	!$4 & !$6 & $19 & $26 & call(`pdaaal::details::weight_impl::less`, $18, $5[$16].#0'')
do	foreach($15)	set($5[$16].#0, $22)	!$19 & !$4 & !$6 & $26 & call(`pdaaal::details::weight_impl::less`, $22, $5[$16].#0'')
do	foreach($15)	set($5[$16].#1, $18)	!$4 & !$6 & $10 & $19 & $26 & $27
do	foreach($15)	set($5[$16].#1, $22)	!$19 & !$4 & !$6 & $10 & $26 & $28
do	foreach($15)	set($5[$16].#1, $21)	!$10 & !$4 & !$6 & $19 & $26 & $29
do	foreach($15)	set($5[$16].#1, $23)	!$10 & !$19 & !$4 & !$6 & $26 & $30
do	foreach($31)	do(`insert`, $5, $32, $35)	!$6 & !$9 & $10 & $36 & $38 & $4
do	foreach($31)	do(`insert`, $5, $32, $40)	!$10 & !$6 & !$9 & $36 & $38 & $4
do	foreach($31)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $32, _trace: $41, _weight: $34})	!$43 & !$6 & !$9 & $10 & $36 & $38 & $4 | !$6 & !$9 & $10 & $36 & $38 & $4 & $42
do	foreach($31)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $32, _trace: $41, _weight: $39})	!$10 & !$43 & !$6 & !$9 & $36 & $38 & $4 | !$10 & !$6 & !$9 & $36 & $38 & $4 & $44
do	foreach($31)	do(`insert`, $5, $46, $35)	!$6 & !$9 & $10 & $36 & $4 & $47
do	foreach($31)	do(`insert`, $5, $46, $40)	!$10 & !$6 & !$9 & $36 & $4 & $47
do	foreach($31)	set($5[$32].#0, $34)	!$6 & !$9 & $36 & $38 & $4 & $43 & call(`pdaaal::details::weight_impl::less`, $34, $5[$32].#0'')
do	foreach($31)	set($5[$32].#1, $34)	!$6 & !$9 & $10 & $36 & $38 & $4 & $42 & $43
do	foreach($31)	set($5[$32].#1, $39)	!$10 & !$6 & !$9 & $36 & $38 & $4 & $43 & $44
do	foreach($31)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $46, _trace: $41, _weight: $34})	!$48 & !$6 & !$9 & $10 & $36 & $4 & $47 | !$6 & !$9 & $10 & $36 & $4 & $47 & $49
do	foreach($31)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $46, _trace: $41, _weight: $39})	!$10 & !$48 & !$6 & !$9 & $36 & $4 & $47 | !$10 & !$6 & !$9 & $36 & $4 & $47 & $50
do	foreach($31)	do(`insert`, $5, $51, $35)	!$6 & !$9 & $10 & $36 & $4 & $52
do	foreach($31)	do(`insert`, $5, $51, $40)	!$10 & !$6 & !$9 & $36 & $4 & $52
do	foreach($31)	set($5[$46].#0, $34)	!$6 & !$9 & $36 & $4 & $47 & $48 & call(`pdaaal::details::weight_impl::less`, $34, $5[$46].#0'')
do	foreach($31)	set($5[$46].#1, $34)	!$6 & !$9 & $10 & $36 & $4 & $47 & $48 & $49
do	foreach($31)	set($5[$46].#1, $39)	!$10 & !$6 & !$9 & $36 & $4 & $47 & $48 & $50
do	foreach($31)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $51, _trace: $41, _weight: $34})	!$54 & !$6 & !$9 & $10 & $36 & $4 & $52 | !$6 & !$9 & $10 & $36 & $4 & $52 & $53
do	foreach($31)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $51, _trace: $41, _weight: $39})	!$10 & !$54 & !$6 & !$9 & $36 & $4 & $52 | !$10 & !$6 & !$9 & $36 & $4 & $52 & $55
do	foreach($31)	do(`insert`, $5, $57, tuple{#0: 0, #1: $58})	!$6 & !$9 & $36 & $4 & $59
do	foreach($31)	set($5[$51].#0, $34)	!$6 & !$9 & $36 & $4 & $52 & $54 & call(`pdaaal::details::weight_impl::less`, $34, $5[$51].#0'')
do	foreach($31)	set($5[$51].#1, $34)	!$6 & !$9 & $10 & $36 & $4 & $52 & $53 & $54
do	foreach($31)	set($5[$51].#1, $39)	!$10 & !$6 & !$9 & $36 & $4 & $52 & $54 & $55
do	foreach($31)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $57, _trace: $41, _weight: $58})	!$6 & !$63 & !$9 & $36 & $4 & $59 & $62 | !$6 & !$9 & $36 & $4 & $59 & $60 & $62
do	foreach($31)	do(`insert`, $5, $64, $35)	!$6 & !$9 & $10 & $36 & $4 & $59
do	foreach($31)	do(`insert`, $5, $64, $40)	!$10 & !$6 & !$9 & $36 & $4 & $59
do	foreach($31)	set($5[$57].#0, 0)	!$6 & !$9 & $36 & $4 & $59 & $63 & call(`pdaaal::details::weight_impl::less`, 0, $5[$57].#0'')
do	foreach($31)	set($5[$57].#1, $58)	!$6 & !$9 & $36 & $4 & $59 & $60 & $63
do	foreach($31)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $64, _trace: $41, _weight: $34})	!$6 & !$66 & !$9 & $10 & $36 & $4 & $59 | !$6 & !$9 & $10 & $36 & $4 & $59 & $65
do	foreach($31)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $64, _trace: $41, _weight: $39})	!$10 & !$6 & !$66 & !$9 & $36 & $4 & $59 | !$10 & !$6 & !$9 & $36 & $4 & $59 & $67
do	foreach($31)	set($61, $58)	!$6 & !$9 & $36 & $4 & $59 & $62
do	foreach($31)	set($5[$64].#0, $34)	!$6 & !$9 & $36 & $4 & $59 & $66 & call(`pdaaal::details::weight_impl::less`, $34, $5[$64].#0'')
do	foreach($31)	set($5[$64].#1, $34)	!$6 & !$9 & $10 & $36 & $4 & $59 & $65 & $66
do	foreach($31)	set($5[$64].#1, $39)	!$10 & !$6 & !$9 & $36 & $4 & $59 & $66 & $67
do	foreach($68)	do(`insert`, $5, $69, tuple{#0: $71, #1: $71})	!$6 & $4 & $72 & $73 & $9
do	foreach($68)	do(`insert`, $5, $69, tuple{#0: $71, #1: $75})	!$6 & !$73 & $4 & $72 & $9
do	foreach($68)	do(`insert`, $5, $69, tuple{#0: $76, #1: $76})	!$6 & !$72 & $4 & $73 & $9
do	foreach($68)	do(`insert`, $5, $69, tuple{#0: $76, #1: $77})	!$6 & !$72 & !$73 & $4 & $9
do	foreach($68)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $69, _trace: $78, _weight: $71})	!$6 & !$80 & $4 & $72 & $73 & $9 | !$6 & $4 & $72 & $73 & $79 & $9
do	foreach($68)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $69, _trace: $78, _weight: $76})	!$6 & !$72 & !$80 & $4 & $73 & $9 | !$6 & !$72 & $4 & $73 & $81 & $9
do	foreach($68)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $69, _trace: $78, _weight: $75})	!$6 & !$73 & !$80 & $4 & $72 & $9 | !$6 & !$73 & $4 & $72 & $82 & $9
do	foreach($68)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $69, _trace: $78, _weight: $77})	!$6 & !$72 & !$73 & !$80 & $4 & $9 | !$6 & !$72 & !$73 & $4 & $83 & $9
do	foreach($68)	set($5[$69].#0, $71)	!$6 & $4 & $72 & $80 & $9 & call(`pdaaal::details::weight_impl::less`, $71, $5[$69].#0'')
do	foreach($68)	set($5[$69].#0, $76)	!$6 & !$72 & $4 & $80 & $9 & call(`pdaaal::details::weight_impl::less`, $76, $5[$69].#0'')
do	foreach($68)	set($5[$69].#1, $71)	!$6 & $4 & $72 & $73 & $79 & $80 & $9
do	foreach($68)	set($5[$69].#1, $76)	!$6 & !$72 & $4 & $73 & $80 & $81 & $9
do	foreach($68)	set($5[$69].#1, $75)	!$6 & !$73 & $4 & $72 & $80 & $82 & $9
do	foreach($68)	set($5[$69].#1, $77)	!$6 & !$72 & !$73 & $4 & $80 & $83 & $9
== i::PostStarShortestSaturation::workset_empty | i::PostStarShortestSaturation<Wu, true, false, void> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 63
ret	empty(self._workset)	true
== i::PostStarShortestSaturation::found | i::PostStarShortestSaturation<Wu, true, false, void> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 64
ret	self._found	true
== i::PostStarShortestSaturation::run | i::PostStarShortestSaturation<Wu, true, false, void> | () |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 65
let	$1	empty(self._workset')
do	loop(#0)	do(`pdaaal::internal::PostStarShortestSaturation::step`, self)	!$1
do	loop(#0)	exit	$1
ret	self._found	true
== i::PostStarShortestSaturation::weight_edge_trace::weight_edge_trace | i::PostStarShortestSaturation<Wi, true, false, void>::weight_edge_trace | (int, i::temp_edge_t, i::trace_t) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 59
== i::PostStarShortestSaturation::weight_edge_trace_comp::operator() | i::PostStarShortestSaturation<Wi, true, false, void>::weight_edge_trace_comp | (const i::PostStarShortestSaturation<Wi, true, false, void>::weight_edge_trace &, const i::PostStarShortestSaturation<Wi, true, false, void>::weight_edge_trace &) |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 60
== i::PostStarShortestSaturation::PostStarShortestSaturation | i::PostStarShortestSaturation<Wi, true, false, void> | (i::PAutomaton<Wi, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, int>, const int &)> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 66
let	$1	self._automaton
let	$2	addrof(param(#0))
let	$3	self._pda_states
let	$4	addrof($1._pda._states)
let	$5	size($2._states)
let	$6	new(`std::unordered_map`)
let	$7	self._n_automaton_states
let	$8	new(`std::vector`)
let	$9	self._edge_weights
let	$10	fnref(`pdaaal::details::weight_impl::less`)
let	$11	call(`pdaaal::internal::PAutomaton::has_negative_weights`, $2, $10)
let	$12	exists($3, call(`pdaaal::internal::PDA::state_t::has_negative_weight`, $3@0', $10))
let	$13	foreach($3@0._rules)
let	$14	$3@0._rules@0.#0
let	$15	tuple{#0: $14._to, #1: $14._op_label}
let	$16	size($1._states')
let	$17	eq($14._operation, enum(`pdaaal::PUSH`, `pdaaal::op_t`))
let	$18	lin(#0, mul(#-1, $5), $16)
let	$19	mul(#-1, size($4))
let	$20	foreach($1._states)
let	$21	$1._states@0'^._edges
let	$22	foreach($21@0.#1)
let	$23	$1._states@0'^._id'
let	$24	pdaaal::internal::temp_edge_t{_from: $23, _label: $21@0.#1@0.#0', _to: $21@0.#0'}
let	$25	18446744073709551615
let	$26	lt($23, size($4))
do		set($1, $2)	true
do		set(self._early_termination, param(#1))	true
do		set($3, $4)	true
do		set(self._n_pda_states, size($4))	true
do		set(self._n_Q, $5)	true
do		set(self._q_prime, $6)	true
dom		set($7, 0)	true
do		set(self._minpath, $8)	true
do		set($9, $6)	true
do		set(self._workset, new(`std::priority_queue`))	true
do		set(self._rel1, $8)	true
do		set(self._rel2, $8)	true
do		set(self._found, false)	true
do		throw(`std::runtime_error`)	$11 | $12
do	foreach($3) ; $13	do(`insert`, self._q_prime, $15, $16)	!$11 & !$12 & $17
do	foreach($3) ; $13	do(`pdaaal::internal::PAutomaton::add_state`, $1, false, false)	!$11 & !$12 & !contains(self._q_prime', $15) & $17
do		do(`resize`, self._minpath, $18)	!$11 & !$12
do		do(`std::fill`, self._minpath, 2147483647)	!$11 & !$12
do		do(`resize`, self._rel1, lin(#0, $19, $16))	!$11 & !$12
do		do(`resize`, self._rel2, $18)	!$11 & !$12
do		set($7, $16)	!$11 & !$12
do	$20 ; foreach($21) ; $22	do(`insert`, $9, $24, tuple{#0: 0, #1: 0})	!$11 & !$12
do	$20 ; foreach($21) ; $22	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $24, _trace: pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $25, _state: $25}, _weight: 0})	!$11 & !$12 & $26
do	$20 ; foreach($21) ; $22	do(`push`, self._rel1[lin(#0, $23, $19)], tuple{#0: $21@0.#0', #1: $21@0.#1@0.#0'})	!$11 & !$12 & !$26
do	$20 ; foreach($21) ; $22	do(`push`, self._rel2[lin(#0, $21@0.#0', mul(#-1, $5))], $23)	!$11 & !$12 & !$26 & !lt($21@0.#0', $5) & eq(4294967295, $21@0.#1@0.#0')
== i::PostStarShortestSaturation::step | i::PostStarShortestSaturation<Wi, true, false, void> | () |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 62
== i::PostStarShortestSaturation::workset_empty | i::PostStarShortestSaturation<Wi, true, false, void> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 63
== i::PostStarShortestSaturation::found | i::PostStarShortestSaturation<Wi, true, false, void> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 64
== i::PostStarShortestSaturation::run | i::PostStarShortestSaturation<Wi, true, false, void> | () |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 65
== i::PreStarFixedPointSaturation::PreStarFixedPointSaturation | i::PreStarFixedPointSaturation<Wu, TT::ShortestFixedPoint> | (i::PAutomaton<Wu, TI::Pair> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 67
let	$1	self._round_limit
let	$2	new(`std::vector`)
let	$3	self._automaton
let	$4	addrof(param(#0))
let	$5	self._pda_states
let	$6	addrof($3._pda._states)
let	$7	size($4._states)
let	$8	call(`pdaaal::internal::PDA::number_of_labels`, $4._pda)
let	$9	ctor(`std::vector`, $7)
let	$10	self._added_pop
let	$11	self._count_transitions
let	$12	foreach($3._states)
let	$13	$3._states@0'^._edges
let	$14	foreach($13@0.#1)
let	$15	$3._states@0'^._id'
let	$16	set($11, lin(#1, $11'))
let	$17	$3._states@0^._id'
let	$18	$3._states@0^._accepting'
let	$19	lt($17, size($6))
let	$20	$5[$17]._pre_states
let	$21	$5[$20@0]._rules
let	$22	range(call(`std::lower_bound`, begin($21), end($21), $17, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($21))
let	$23	foreach(range(0, $8))
let	$24	$3._states[$20@0]^._edges
let	$25	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: lin(#0, mul(#-1, begin($21)), $22@0), _state: 18446744073709551615}
let	$26	$22@0^.#0._weight
let	$27	tuple{#0: tuple{#0: $25, #1: $25}, #1: $26}
let	$28	eq($22@0^.#0._operation, enum(`pdaaal::POP`, `pdaaal::op_t`))
let	$29	$22@0^.#1._wildcard
let	$30	eq($22@0^.#0._to, $17)
let	$31	self._rel[$20@0]
let	$32	contains($24', $17, range(0, $8)@0)
let	$33	$24[$17, range(0, $8)@0]
let	$34	call(`pdaaal::details::weight_impl::less`, $26, $33.#1'')
let	$35	set($1, lin(#1, $11'))
let	$36	$22@0^.#1._labels
let	$37	contains($24', $17, $36@0)
let	$38	$24[$17, $36@0]
let	$39	call(`pdaaal::details::weight_impl::less`, $26, $38.#1'')
do		set(self._done, false)	true
do		set($1, fcast(`unsigned long`, times(fcast(`double`, call(`pdaaal::internal::PDA::number_of_labels`, param(#0)._pda)), call(`std::pow`, size(param(#0)._states), 2))))	true
do		set(self._rounds, 0)	true
do		set(self._workset, $2)	true
do		set(self._next_workset, $2)	true
do		set($3, $4)	true
do		set($5, $6)	true
do		set(self._n_automaton_states, $7)	true
do		set(self._n_pda_states, size($6))	true
do		set(self._n_pda_labels, $8)	true
do		set(self._rel, $9)	true
do		set(self._delta_prime, $9)	true
do		set($10, ctor(`std::vector`, size($6)))	true
do		set($11, 0)	true
do	$12 ; foreach($13) ; $14	do(`push`, self._rel[$15], tuple{#0: $13@0.#0', #1: $13@0.#1@0.#0'})	true
do	$12 ; foreach($13) ; $14	do(`pdaaal::fixed_point_workset::emplace`, self, $15, $13@0.#1@0.#0', $13@0.#0')	true
do	$12 ; foreach($13) ; $14	$16	true
do	$12	set($10[$17], true)	!$10[$17]' & $18 & $19
do	$12 ; foreach($20) ; foreach($22) ; $23	do(`insert`, $24, $17, range(0, $8)@0, $27)	!$10[$17]' & $18 & $19 & $28 & $29 & $30
do	$12 ; foreach($20) ; foreach($22) ; $23	do(`push`, $31, tuple{#0: $17, #1: range(0, $8)@0})	!$10[$17]' & !$32 & $18 & $19 & $28 & $29 & $30
do	$12 ; foreach($20) ; foreach($22) ; $23	do(`pdaaal::fixed_point_workset::emplace`, self, $20@0, range(0, $8)@0, $17)	!$10[$17]' & !$32 & $18 & $19 & $28 & $29 & $30 | !$10[$17]' & $18 & $19 & $28 & $29 & $30 & $34
do	$12 ; foreach($20) ; foreach($22) ; $23	$16	!$10[$17]' & !$32 & $18 & $19 & $28 & $29 & $30
do	$12 ; foreach($20) ; foreach($22) ; $23	$35	!$10[$17]' & !$32 & $18 & $19 & $28 & $29 & $30
do	$12 ; foreach($20) ; foreach($22) ; $23	set($33.#0.#1, $25)	!$10[$17]' & $18 & $19 & $28 & $29 & $30 & $32 & $34
do	$12 ; foreach($20) ; foreach($22) ; $23	set($33.#1, $26)	!$10[$17]' & $18 & $19 & $28 & $29 & $30 & $32 & $34
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	do(`insert`, $24, $17, $36@0, $27)	!$10[$17]' & !$29 & $18 & $19 & $28 & $30
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	do(`push`, $31, tuple{#0: $17, #1: $36@0})	!$10[$17]' & !$29 & !$37 & $18 & $19 & $28 & $30
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	do(`pdaaal::fixed_point_workset::emplace`, self, $20@0, $36@0, $17)	!$10[$17]' & !$29 & !$37 & $18 & $19 & $28 & $30 | !$10[$17]' & !$29 & $18 & $19 & $28 & $30 & $39
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	$16	!$10[$17]' & !$29 & !$37 & $18 & $19 & $28 & $30
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	$35	!$10[$17]' & !$29 & !$37 & $18 & $19 & $28 & $30
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	set($38.#0.#1, $25)	!$10[$17]' & !$29 & $18 & $19 & $28 & $30 & $37 & $39
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	set($38.#1, $26)	!$10[$17]' & !$29 & $18 & $19 & $28 & $30 & $37 & $39
do	$12 ; foreach($20) ; foreach($22)	exit	!$10[$17]' & !$30 & $18 & $19
do		set($1, $11'')	true
== i::PreStarFixedPointSaturation::step_with | i::PreStarFixedPointSaturation<Wu, TT::ShortestFixedPoint> | (i::temp_edge_t &&) | false | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 68
let	$1	self._delta_prime
let	$2	param(#0)._from
let	$3	foreach($1[$2])
let	$4	self._automaton._states
let	$5	$4[$1[$2]@0.#0]^._edges
let	$6	param(#0)._label
let	$7	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $1[$2]@0.#1, _state: $2}
let	$8	tuple{#0: $7, #1: $7}
let	$9	self._pda_states
let	$10	$9[$1[$2]@0.#0]._rules[$1[$2]@0.#1]
let	$11	$4[$10.#0._to]^._edges
let	$12	$10.#0._op_label
let	$13	call(`pdaaal::details::weight_impl::add`, $10.#0._weight, $11[$2, $12].#1')
let	$14	$4[$2]^._edges[param(#0)._to, $6].#1
let	$15	call(`pdaaal::details::weight_impl::add`, $13, $14)
let	$16	contains($4[$2]^._edges, param(#0)._to, $6)
let	$17	call(`pdaaal::internal::labels_t::contains`, $10.#1, $6)
let	$18	contains($11', $2, $12)
let	$19	call(`pdaaal::details::weight_impl::add`, $13, 0^.#1)
let	$20	call(`pdaaal::details::weight_impl::add`, $10.#0._weight, 0^.#1)
let	$21	call(`pdaaal::details::weight_impl::add`, $20, $14)
let	$22	call(`pdaaal::details::weight_impl::add`, $20, 0^.#1)
let	$23	tuple{#0: param(#0)._to, #1: $6}
let	$24	contains($5', param(#0)._to, $6)
let	$25	$5[param(#0)._to, $6]
let	$26	call(`pdaaal::details::weight_impl::less`, $22, $25.#1'')
let	$27	call(`pdaaal::details::weight_impl::less`, $19, $25.#1'')
let	$28	call(`pdaaal::details::weight_impl::less`, $21, $25.#1'')
let	$29	call(`pdaaal::details::weight_impl::less`, $15, $25.#1'')
let	$30	self._count_transitions
let	$31	set($30, lin(#1, $30'))
let	$32	set(self._round_limit, lin(#1, $30'))
let	$33	$9[$2]._pre_states
let	$34	$9[$33@0]._rules
let	$35	range(call(`std::lower_bound`, begin($34), end($34), $2, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($34))
let	$36	range(0, self._n_pda_labels)
let	$37	$4[$33@0]^._edges
let	$38	lin(#0, $35@0, mul(#-1, begin($34)))
let	$39	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $38, _state: 18446744073709551615}
let	$40	tuple{#0: $39, #1: $39}
let	$41	$35@0^.#0._weight
let	$42	tuple{#0: $40, #1: $41}
let	$43	$35@0^.#0._operation
let	$44	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $43)
let	$45	self._added_pop[$2]
let	$46	lt($2, self._n_pda_states)
let	$47	$35@0^.#1._wildcard
let	$48	eq($35@0^.#0._to, $2)
let	$49	self._rel[$33@0]
let	$50	contains($37', $2, $36@0)
let	$51	$37[$2, $36@0].#1
let	$52	call(`pdaaal::details::weight_impl::less`, $41, $51'')
let	$53	eq($6, $35@0^.#0._op_label)
let	$54	contains($37', param(#0)._to, $36@0)
let	$55	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $43)
let	$56	$35@0^.#1._labels
let	$57	contains($37', $2, $56@0)
let	$58	$37[$2, $56@0].#1
let	$59	call(`pdaaal::details::weight_impl::less`, $41, $58'')
let	$60	contains($37', param(#0)._to, $56@0)
let	$61	call(`pdaaal::details::weight_impl::add`, $41, $14)
let	$62	tuple{#0: $40, #1: $61}
let	$63	call(`pdaaal::details::weight_impl::add`, $41, 0^.#1)
let	$64	tuple{#0: $40, #1: $63}
let	$65	$37[param(#0)._to, $36@0]
let	$66	call(`pdaaal::details::weight_impl::less`, $63, $65.#1'')
let	$67	call(`pdaaal::details::weight_impl::less`, $61, $65.#1'')
let	$68	$37[param(#0)._to, $56@0]
let	$69	call(`pdaaal::details::weight_impl::less`, $61, $68.#1'')
let	$70	call(`pdaaal::details::weight_impl::less`, $63, $68.#1'')
let	$71	call(`pdaaal::internal::labels_t::contains`, $35@0^.#1, $6)
let	$72	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $43)
let	$73	contains($37', param(#0)._to, $6)
let	$74	$37[param(#0)._to, $6]
let	$75	call(`pdaaal::details::weight_impl::less`, $61, $74.#1'')
let	$76	call(`pdaaal::details::weight_impl::less`, $63, $74.#1'')
let	$77	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $43)
let	$78	self._rel[param(#0)._to]
let	$79	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $38, _state: param(#0)._to}
let	$80	tuple{#0: $79, #1: $79}
let	$81	$4[param(#0)._to]^._edges
let	$82	$81[$78@0.#0', $78@0.#1'].#1'
let	$83	call(`pdaaal::details::weight_impl::add`, $61, $82)
let	$84	call(`pdaaal::internal::labels_t::contains`, $35@0^.#1, $78@0.#1')
let	$85	contains($81', $78@0.#0', $78@0.#1')
let	$86	call(`pdaaal::details::weight_impl::add`, $61, 0^.#1)
let	$87	call(`pdaaal::details::weight_impl::add`, $63, $82)
let	$88	call(`pdaaal::details::weight_impl::add`, $63, 0^.#1)
let	$89	contains($37', $78@0.#0', $78@0.#1')
let	$90	$37[$78@0.#0', $78@0.#1']
let	$91	call(`pdaaal::details::weight_impl::less`, $88, $90.#1'')
let	$92	call(`pdaaal::details::weight_impl::less`, $86, $90.#1'')
let	$93	call(`pdaaal::details::weight_impl::less`, $87, $90.#1'')
let	$94	call(`pdaaal::details::weight_impl::less`, $83, $90.#1'')
do	$3	do(`insert`, $5, param(#0)._to, $6, tuple{#0: $8, #1: $15})	$16 & $17 & $18
do	$3	do(`insert`, $5, param(#0)._to, $6, tuple{#0: $8, #1: $19})	!$16 & $17 & $18
do	$3	do(`insert`, $5, param(#0)._to, $6, tuple{#0: $8, #1: $21})	!$18 & $16 & $17
do	$3	do(`insert`, $5, param(#0)._to, $6, tuple{#0: $8, #1: $22})	!$16 & !$18 & $17
do	$3	do(`push`, self._rel[$1[$2]@0.#0], $23)	!$24 & $17
do	$3	do(`pdaaal::fixed_point_workset::emplace`, self, $1[$2]@0.#0, $6, param(#0)._to)	!$16 & !$18 & $17 & $26 | !$16 & $17 & $18 & $27 | !$18 & $16 & $17 & $28 | !$24 & $17 | $16 & $17 & $18 & $29
do	$3	$31	!$24 & $17
do	$3	$32	!$24 & $17
do	$3	set($25.#0.#1, $7)	!$16 & !$18 & $17 & $24 & $26 | !$16 & $17 & $18 & $24 & $27 | !$18 & $16 & $17 & $24 & $28 | $16 & $17 & $18 & $24 & $29
do	$3	set($25.#1, $15)	$16 & $17 & $18 & $24 & $29
do	$3	set($25.#1, $19)	!$16 & $17 & $18 & $24 & $27
do	$3	set($25.#1, $21)	!$18 & $16 & $17 & $24 & $28
do	$3	set($25.#1, $22)	!$16 & !$18 & $17 & $24 & $26
do	foreach($33) ; foreach($35) ; foreach($36)	do(`insert`, $37, $2, $36@0, $42)	!$45 & $44 & $46 & $47 & $48
do	foreach($33) ; foreach($35) ; foreach($36)	do(`push`, $49, tuple{#0: $2, #1: $36@0})	!$45 & !$50 & $44 & $46 & $47 & $48
do	foreach($33) ; foreach($35) ; foreach($36)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $36@0, $2)	!$45 & !$50 & $44 & $46 & $47 & $48 | !$45 & $44 & $46 & $47 & $48 & $52
dom	foreach($33) ; foreach($35) ; foreach($36)	$31	!$45 & !$50 & $44 & $46 & $47 & $48 | !$54 & $46 & $47 & $48 & $53 & $55
dom	foreach($33) ; foreach($35) ; foreach($36)	$32	!$45 & !$50 & $44 & $46 & $47 & $48 | !$54 & $46 & $47 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($36)	set($37[$2, $36@0].#0.#1, $39)	!$45 & $44 & $46 & $47 & $48 & $50 & $52
do	foreach($33) ; foreach($35) ; foreach($36)	set($51, $41)	!$45 & $44 & $46 & $47 & $48 & $50 & $52
do	foreach($33) ; foreach($35) ; foreach($56)	do(`insert`, $37, $2, $56@0, $42)	!$45 & !$47 & $44 & $46 & $48
do	foreach($33) ; foreach($35) ; foreach($56)	do(`push`, $49, tuple{#0: $2, #1: $56@0})	!$45 & !$47 & !$57 & $44 & $46 & $48
do	foreach($33) ; foreach($35) ; foreach($56)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $56@0, $2)	!$45 & !$47 & !$57 & $44 & $46 & $48 | !$45 & !$47 & $44 & $46 & $48 & $59
dom	foreach($33) ; foreach($35) ; foreach($56)	$31	!$45 & !$47 & !$57 & $44 & $46 & $48 | !$47 & !$60 & $46 & $48 & $53 & $55
dom	foreach($33) ; foreach($35) ; foreach($56)	$32	!$45 & !$47 & !$57 & $44 & $46 & $48 | !$47 & !$60 & $46 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($56)	set($37[$2, $56@0].#0.#1, $39)	!$45 & !$47 & $44 & $46 & $48 & $57 & $59
do	foreach($33) ; foreach($35) ; foreach($56)	set($58, $41)	!$45 & !$47 & $44 & $46 & $48 & $57 & $59
do	foreach($33) ; foreach($35) ; foreach($36)	do(`insert`, $37, param(#0)._to, $36@0, $62)	$16 & $46 & $47 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($36)	do(`insert`, $37, param(#0)._to, $36@0, $64)	!$16 & $46 & $47 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($36)	do(`push`, $49, tuple{#0: param(#0)._to, #1: $36@0})	!$54 & $46 & $47 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($36)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $36@0, param(#0)._to)	!$16 & $46 & $47 & $48 & $53 & $55 & $66 | !$54 & $46 & $47 & $48 & $53 & $55 | $16 & $46 & $47 & $48 & $53 & $55 & $67
do	foreach($33) ; foreach($35) ; foreach($36)	set($65.#0.#1, $39)	!$16 & $46 & $47 & $48 & $53 & $54 & $55 & $66 | $16 & $46 & $47 & $48 & $53 & $54 & $55 & $67
do	foreach($33) ; foreach($35) ; foreach($36)	set($65.#1, $61)	$16 & $46 & $47 & $48 & $53 & $54 & $55 & $67
do	foreach($33) ; foreach($35) ; foreach($36)	set($65.#1, $63)	!$16 & $46 & $47 & $48 & $53 & $54 & $55 & $66
do	foreach($33) ; foreach($35) ; foreach($56)	do(`insert`, $37, param(#0)._to, $56@0, $62)	!$47 & $16 & $46 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($56)	do(`insert`, $37, param(#0)._to, $56@0, $64)	!$16 & !$47 & $46 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($56)	do(`push`, $49, tuple{#0: param(#0)._to, #1: $56@0})	!$47 & !$60 & $46 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($56)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $56@0, param(#0)._to)	!$16 & !$47 & $46 & $48 & $53 & $55 & $70 | !$47 & !$60 & $46 & $48 & $53 & $55 | !$47 & $16 & $46 & $48 & $53 & $55 & $69
do	foreach($33) ; foreach($35) ; foreach($56)	set($68.#0.#1, $39)	!$16 & !$47 & $46 & $48 & $53 & $55 & $60 & $70 | !$47 & $16 & $46 & $48 & $53 & $55 & $60 & $69
do	foreach($33) ; foreach($35) ; foreach($56)	set($68.#1, $61)	!$47 & $16 & $46 & $48 & $53 & $55 & $60 & $69
do	foreach($33) ; foreach($35) ; foreach($56)	set($68.#1, $63)	!$16 & !$47 & $46 & $48 & $53 & $55 & $60 & $70
do	foreach($33) ; foreach($35)	do(`insert`, $37, param(#0)._to, $6, $62)	$16 & $46 & $48 & $71 & $72
do	foreach($33) ; foreach($35)	do(`insert`, $37, param(#0)._to, $6, $64)	!$16 & $46 & $48 & $71 & $72
do	foreach($33) ; foreach($35)	do(`push`, $49, $23)	!$73 & $46 & $48 & $71 & $72
do	foreach($33) ; foreach($35)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $6, param(#0)._to)	!$16 & $46 & $48 & $71 & $72 & $76 | !$73 & $46 & $48 & $71 & $72 | $16 & $46 & $48 & $71 & $72 & $75
do	foreach($33) ; foreach($35)	do(`insert`, $1[param(#0)._to], tuple{#0: $33@0, #1: $38})	$46 & $48 & $53 & $77
do	foreach($33) ; foreach($35)	$31	!$73 & $46 & $48 & $71 & $72
do	foreach($33) ; foreach($35)	$32	!$73 & $46 & $48 & $71 & $72
do	foreach($33) ; foreach($35)	set($74.#0.#1, $39)	!$16 & $46 & $48 & $71 & $72 & $73 & $76 | $16 & $46 & $48 & $71 & $72 & $73 & $75
do	foreach($33) ; foreach($35)	set($74.#1, $61)	$16 & $46 & $48 & $71 & $72 & $73 & $75
do	foreach($33) ; foreach($35)	set($74.#1, $63)	!$16 & $46 & $48 & $71 & $72 & $73 & $76
do	foreach($33) ; foreach($35) ; foreach($78)	do(`insert`, $37, $78@0.#0', $78@0.#1', tuple{#0: $80, #1: $83})	$16 & $46 & $48 & $53 & $77 & $84 & $85
do	foreach($33) ; foreach($35) ; foreach($78)	do(`insert`, $37, $78@0.#0', $78@0.#1', tuple{#0: $80, #1: $86})	!$85 & $16 & $46 & $48 & $53 & $77 & $84
do	foreach($33) ; foreach($35) ; foreach($78)	do(`insert`, $37, $78@0.#0', $78@0.#1', tuple{#0: $80, #1: $87})	!$16 & $46 & $48 & $53 & $77 & $84 & $85
do	foreach($33) ; foreach($35) ; foreach($78)	do(`insert`, $37, $78@0.#0', $78@0.#1', tuple{#0: $80, #1: $88})	!$16 & !$85 & $46 & $48 & $53 & $77 & $84
do	foreach($33) ; foreach($35) ; foreach($78)	do(`push`, $49, tuple{#0: $78@0.#0', #1: $78@0.#1'})	!$89 & $46 & $48 & $53 & $77 & $84
do	foreach($33) ; foreach($35) ; foreach($78)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $78@0.#1', $78@0.#0')	!$16 & !$85 & $46 & $48 & $53 & $77 & $84 & $91 | !$16 & $46 & $48 & $53 & $77 & $84 & $85 & $93 | !$85 & $16 & $46 & $48 & $53 & $77 & $84 & $92 | !$89 & $46 & $48 & $53 & $77 & $84 | $16 & $46 & $48 & $53 & $77 & $84 & $85 & $94
do	foreach($33) ; foreach($35) ; foreach($78)	$31	!$89 & $46 & $48 & $53 & $77 & $84
do	foreach($33) ; foreach($35) ; foreach($78)	$32	!$89 & $46 & $48 & $53 & $77 & $84
do	foreach($33) ; foreach($35) ; foreach($78)	set($90.#0.#1, $79)	!$16 & !$85 & $46 & $48 & $53 & $77 & $84 & $89 & $91 | !$16 & $46 & $48 & $53 & $77 & $84 & $85 & $89 & $93 | !$85 & $16 & $46 & $48 & $53 & $77 & $84 & $89 & $92 | $16 & $46 & $48 & $53 & $77 & $84 & $85 & $89 & $94
do	foreach($33) ; foreach($35) ; foreach($78)	set($90.#1, $83)	$16 & $46 & $48 & $53 & $77 & $84 & $85 & $89 & $94
do	foreach($33) ; foreach($35) ; foreach($78)	set($90.#1, $86)	!$85 & $16 & $46 & $48 & $53 & $77 & $84 & $89 & $92
do	foreach($33) ; foreach($35) ; foreach($78)	set($90.#1, $87)	!$16 & $46 & $48 & $53 & $77 & $84 & $85 & $89 & $93
do	foreach($33) ; foreach($35) ; foreach($78)	set($90.#1, $88)	!$16 & !$85 & $46 & $48 & $53 & $77 & $84 & $89 & $91
do	foreach($33) ; foreach($35)	exit	!$48 & $46
do		set($45, true)	!$45 & $46
ret	true	true
== i::PreStarFixedPointSaturation::step_with | i::PreStarFixedPointSaturation<Wu, TT::ShortestFixedPoint> | (i::temp_edge_t &&) | true | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 69
let	$1	self._delta_prime
let	$2	param(#0)._from
let	$3	foreach($1[$2])
let	$4	param(#0)._label
let	$5	self._pda_states
let	$6	$5[$1[$2]@0.#0]._rules[$1[$2]@0.#1]
let	$7	call(`pdaaal::details::weight_impl::add`, $6.#0._weight, 0^.#1')
let	$8	call(`pdaaal::details::weight_impl::add`, $7, 0^.#1)
let	$9	call(`pdaaal::details::weight_impl::less`, $8, 0^.#1')
let	$10	self._automaton._states
let	$11	$10[$2]^._edges
let	$12	$11[param(#0)._to, $4].#1
let	$13	call(`pdaaal::details::weight_impl::add`, $7, $12)
let	$14	call(`pdaaal::details::weight_impl::less`, $13, 0^.#1')
let	$15	$10[$1[$2]@0.#0]^._edges
let	$16	$15[param(#0)._to, $4]
let	$17	call(`pdaaal::details::weight_impl::less`, $13, $16.#1')
let	$18	$10[$6.#0._to]^._edges
let	$19	$6.#0._op_label
let	$20	call(`pdaaal::details::weight_impl::add`, $6.#0._weight, $18[$2, $19].#1')
let	$21	call(`pdaaal::details::weight_impl::add`, $20, $12)
let	$22	call(`pdaaal::details::weight_impl::less`, $21, 0^.#1')
let	$23	contains($11, param(#0)._to, $4)
let	$24	call(`pdaaal::details::weight_impl::less`, $21, $16.#1')
let	$25	contains($15', param(#0)._to, $4)
let	$26	call(`pdaaal::internal::labels_t::contains`, $6.#1, $4)
let	$27	call(`pdaaal::details::weight_impl::add`, $20, 0^.#1)
let	$28	call(`pdaaal::details::weight_impl::less`, $27, 0^.#1')
let	$29	call(`pdaaal::details::weight_impl::less`, $8, $16.#1')
let	$30	contains($18', $2, $19)
let	$31	call(`pdaaal::details::weight_impl::less`, $27, $16.#1')
let	$32	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $1[$2]@0.#1, _state: $2}
let	$33	$5[$2]._pre_states
let	$34	$5[$33@0]._rules
let	$35	range(call(`std::lower_bound`, begin($34), end($34), $2, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($34))
let	$36	range(0, self._n_pda_labels)
let	$37	$10[$33@0]^._edges
let	$38	lin(#0, $35@0, mul(#-1, begin($34)))
let	$39	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $38, _state: 18446744073709551615}
let	$40	$35@0^.#0._weight
let	$41	tuple{#0: tuple{#0: $39, #1: $39}, #1: $40}
let	$42	$35@0^.#0._operation
let	$43	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $42)
let	$44	self._added_pop[$2]
let	$45	lt($2, self._n_pda_states)
let	$46	$35@0^.#1._wildcard
let	$47	eq($35@0^.#0._to, $2)
let	$48	self._rel[$33@0]
let	$49	contains($37', $2, $36@0)
let	$50	$37[$2, $36@0].#1
let	$51	call(`pdaaal::details::weight_impl::less`, $40, $50'')
let	$52	self._count_transitions
let	$53	set($52, lin(#1, $52'))
let	$54	set(self._round_limit, lin(#1, $52'))
let	$55	$35@0^.#1._labels
let	$56	contains($37', $2, $55@0)
let	$57	$37[$2, $55@0].#1
let	$58	call(`pdaaal::details::weight_impl::less`, $40, $57'')
let	$59	eq($4, $35@0^.#0._op_label)
let	$60	call(`pdaaal::details::weight_impl::add`, $40, 0^.#1)
let	$61	call(`pdaaal::details::weight_impl::less`, $60, 0^.#1')
let	$62	contains($37', param(#0)._to, $36@0)
let	$63	$37[param(#0)._to, $36@0]
let	$64	call(`pdaaal::details::weight_impl::less`, $60, $63.#1')
let	$65	call(`pdaaal::details::weight_impl::add`, $40, $12)
let	$66	call(`pdaaal::details::weight_impl::less`, $65, $63.#1')
let	$67	call(`pdaaal::details::weight_impl::less`, $65, 0^.#1')
let	$68	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $42)
let	$69	set(0^.#0.#1, $39)
let	$70	contains($37', param(#0)._to, $55@0)
let	$71	$37[param(#0)._to, $55@0]
let	$72	call(`pdaaal::details::weight_impl::less`, $65, $71.#1')
let	$73	call(`pdaaal::details::weight_impl::less`, $60, $71.#1')
let	$74	call(`pdaaal::internal::labels_t::contains`, $35@0^.#1, $4)
let	$75	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $42)
let	$76	contains($37', param(#0)._to, $4)
let	$77	$37[param(#0)._to, $4]
let	$78	call(`pdaaal::details::weight_impl::less`, $65, $77.#1')
let	$79	call(`pdaaal::details::weight_impl::less`, $60, $77.#1')
let	$80	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $42)
let	$81	self._rel[param(#0)._to]
let	$82	call(`pdaaal::details::weight_impl::add`, $65, 0^.#1')
let	$83	$37[$81@0.#0', $81@0.#1']
let	$84	call(`pdaaal::details::weight_impl::less`, $82, $83.#1')
let	$85	call(`pdaaal::internal::labels_t::contains`, $35@0^.#1, $81@0.#1')
let	$86	call(`pdaaal::details::weight_impl::less`, $82, 0^.#1')
let	$87	$10[param(#0)._to]^._edges
let	$88	contains($87', $81@0.#0', $81@0.#1')
let	$89	$87[$81@0.#0', $81@0.#1'].#1'
let	$90	call(`pdaaal::details::weight_impl::add`, $65, $89)
let	$91	call(`pdaaal::details::weight_impl::less`, $90, 0^.#1')
let	$92	call(`pdaaal::details::weight_impl::less`, $90, $83.#1')
let	$93	call(`pdaaal::details::weight_impl::add`, $60, 0^.#1')
let	$94	call(`pdaaal::details::weight_impl::less`, $93, 0^.#1')
let	$95	call(`pdaaal::details::weight_impl::add`, $60, $89)
let	$96	call(`pdaaal::details::weight_impl::less`, $95, 0^.#1')
let	$97	call(`pdaaal::details::weight_impl::less`, $95, $83.#1')
let	$98	call(`pdaaal::details::weight_impl::less`, $93, $83.#1')
let	$99	contains($37', $81@0.#0', $81@0.#1')
let	$100	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $38, _state: param(#0)._to}
do	$3	do(`pdaaal::fixed_point_workset::emplace`, self, $1[$2]@0.#0, $4, param(#0)._to)	!$23 & !$25 & !$30 & $26 & $9 | !$23 & !$25 & $26 & $28 & $30 | !$23 & !$30 & $25 & $26 & $29 | !$23 & $25 & $26 & $30 & $31 | !$25 & !$30 & $14 & $23 & $26 | !$25 & $22 & $23 & $26 & $30 | !$30 & $17 & $23 & $25 & $26 | $23 & $24 & $25 & $26 & $30
do	$3	set($16.#0.#1, $32)	!$23 & !$30 & $25 & $26 & $29 | !$23 & $25 & $26 & $30 & $31 | !$30 & $17 & $23 & $25 & $26 | $23 & $24 & $25 & $26 & $30
do	$3	set(0^.#0.#1, $32)	!$23 & !$25 & !$30 & $26 & $9 | !$23 & !$25 & $26 & $28 & $30 | !$25 & !$30 & $14 & $23 & $26 | !$25 & $22 & $23 & $26 & $30
do	$3	set($16.#1, 0)	!$23 & !$30 & $25 & $26 & $29 | !$23 & $25 & $26 & $30 & $31 | !$30 & $17 & $23 & $25 & $26 | $23 & $24 & $25 & $26 & $30
do	$3	set(0^.#1, 0)	!$23 & !$25 & !$30 & $26 & $9 | !$23 & !$25 & $26 & $28 & $30 | !$25 & !$30 & $14 & $23 & $26 | !$25 & $22 & $23 & $26 & $30
do	foreach($33) ; foreach($35) ; foreach($36)	do(`insert`, $37, $2, $36@0, $41)	!$44 & $43 & $45 & $46 & $47
do	foreach($33) ; foreach($35) ; foreach($36)	do(`push`, $48, tuple{#0: $2, #1: $36@0})	!$44 & !$49 & $43 & $45 & $46 & $47
do	foreach($33) ; foreach($35) ; foreach($36)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $36@0, $2)	!$44 & !$49 & $43 & $45 & $46 & $47 | !$44 & $43 & $45 & $46 & $47 & $51
do	foreach($33) ; foreach($35) ; foreach($36)	$53	!$44 & !$49 & $43 & $45 & $46 & $47
do	foreach($33) ; foreach($35) ; foreach($36)	$54	!$44 & !$49 & $43 & $45 & $46 & $47
do	foreach($33) ; foreach($35) ; foreach($36)	set($37[$2, $36@0].#0.#1, $39)	!$44 & $43 & $45 & $46 & $47 & $49 & $51
do	foreach($33) ; foreach($35) ; foreach($36)	set($50, $40)	!$44 & $43 & $45 & $46 & $47 & $49 & $51
do	foreach($33) ; foreach($35) ; foreach($55)	do(`insert`, $37, $2, $55@0, $41)	!$44 & !$46 & $43 & $45 & $47
do	foreach($33) ; foreach($35) ; foreach($55)	do(`push`, $48, tuple{#0: $2, #1: $55@0})	!$44 & !$46 & !$56 & $43 & $45 & $47
do	foreach($33) ; foreach($35) ; foreach($55)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $55@0, $2)	!$44 & !$46 & !$56 & $43 & $45 & $47 | !$44 & !$46 & $43 & $45 & $47 & $58
do	foreach($33) ; foreach($35) ; foreach($55)	$53	!$44 & !$46 & !$56 & $43 & $45 & $47
do	foreach($33) ; foreach($35) ; foreach($55)	$54	!$44 & !$46 & !$56 & $43 & $45 & $47
do	foreach($33) ; foreach($35) ; foreach($55)	set($37[$2, $55@0].#0.#1, $39)	!$44 & !$46 & $43 & $45 & $47 & $56 & $58
do	foreach($33) ; foreach($35) ; foreach($55)	set($57, $40)	!$44 & !$46 & $43 & $45 & $47 & $56 & $58
do	foreach($33) ; foreach($35) ; foreach($36)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $36@0, param(#0)._to)	!$23 & !$62 & $45 & $46 & $47 & $59 & $61 & $68 | !$23 & $45 & $46 & $47 & $59 & $62 & $64 & $68 | !$62 & $23 & $45 & $46 & $47 & $59 & $67 & $68 | $23 & $45 & $46 & $47 & $59 & $62 & $66 & $68
do	foreach($33) ; foreach($35) ; foreach($36)	set($63.#0.#1, $39)	!$23 & $45 & $46 & $47 & $59 & $62 & $64 & $68 | $23 & $45 & $46 & $47 & $59 & $62 & $66 & $68
do	foreach($33) ; foreach($35) ; foreach($36)	$69	!$23 & !$62 & $45 & $46 & $47 & $59 & $61 & $68 | !$62 & $23 & $45 & $46 & $47 & $59 & $67 & $68
do	foreach($33) ; foreach($35) ; foreach($36)	set($63.#1, 0)	!$23 & $45 & $46 & $47 & $59 & $62 & $64 & $68 | $23 & $45 & $46 & $47 & $59 & $62 & $66 & $68
do	foreach($33) ; foreach($35) ; foreach($36)	set(0^.#1, 0)	!$23 & !$62 & $45 & $46 & $47 & $59 & $61 & $68 | !$62 & $23 & $45 & $46 & $47 & $59 & $67 & $68
do	foreach($33) ; foreach($35) ; foreach($55)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $55@0, param(#0)._to)	!$23 & !$46 & !$70 & $45 & $47 & $59 & $61 & $68 | !$23 & !$46 & $45 & $47 & $59 & $68 & $70 & $73 | !$46 & !$70 & $23 & $45 & $47 & $59 & $67 & $68 | !$46 & $23 & $45 & $47 & $59 & $68 & $70 & $72
do	foreach($33) ; foreach($35) ; foreach($55)	set($71.#0.#1, $39)	!$23 & !$46 & $45 & $47 & $59 & $68 & $70 & $73 | !$46 & $23 & $45 & $47 & $59 & $68 & $70 & $72
do	foreach($33) ; foreach($35) ; foreach($55)	$69	!$23 & !$46 & !$70 & $45 & $47 & $59 & $61 & $68 | !$46 & !$70 & $23 & $45 & $47 & $59 & $67 & $68
do	foreach($33) ; foreach($35) ; foreach($55)	set($71.#1, 0)	!$23 & !$46 & $45 & $47 & $59 & $68 & $70 & $73 | !$46 & $23 & $45 & $47 & $59 & $68 & $70 & $72
do	foreach($33) ; foreach($35) ; foreach($55)	set(0^.#1, 0)	!$23 & !$46 & !$70 & $45 & $47 & $59 & $61 & $68 | !$46 & !$70 & $23 & $45 & $47 & $59 & $67 & $68
do	foreach($33) ; foreach($35)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $4, param(#0)._to)	!$23 & !$76 & $45 & $47 & $61 & $74 & $75 | !$23 & $45 & $47 & $74 & $75 & $76 & $79 | !$76 & $23 & $45 & $47 & $67 & $74 & $75 | $23 & $45 & $47 & $74 & $75 & $76 & $78
do	foreach($33) ; foreach($35)	do(`insert`, $1[param(#0)._to], tuple{#0: $33@0, #1: $38})	$45 & $47 & $59 & $80
do	foreach($33) ; foreach($35)	set($77.#0.#1, $39)	!$23 & $45 & $47 & $74 & $75 & $76 & $79 | $23 & $45 & $47 & $74 & $75 & $76 & $78
do	foreach($33) ; foreach($35)	$69	!$23 & !$76 & $45 & $47 & $61 & $74 & $75 | !$76 & $23 & $45 & $47 & $67 & $74 & $75
do	foreach($33) ; foreach($35)	set($77.#1, 0)	!$23 & $45 & $47 & $74 & $75 & $76 & $79 | $23 & $45 & $47 & $74 & $75 & $76 & $78
do	foreach($33) ; foreach($35)	set(0^.#1, 0)	!$23 & !$76 & $45 & $47 & $61 & $74 & $75 | !$76 & $23 & $45 & $47 & $67 & $74 & $75
do	foreach($33) ; foreach($35) ; foreach($81)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $81@0.#1', $81@0.#0')	!$23 & !$88 & !$99 & $45 & $47 & $59 & $80 & $85 & $94 | !$23 & !$88 & $45 & $47 & $59 & $80 & $85 & $98 & $99 | !$23 & !$99 & $45 & $47 & $59 & $80 & $85 & $88 & $96 | !$23 & $45 & $47 & $59 & $80 & $85 & $88 & $97 & $99 | !$88 & !$99 & $23 & $45 & $47 & $59 & $80 & $85 & $86 | !$88 & $23 & $45 & $47 & $59 & $80 & $84 & $85 & $99 | !$99 & $23 & $45 & $47 & $59 & $80 & $85 & $88 & $91 | $23 & $45 & $47 & $59 & $80 & $85 & $88 & $92 & $99
do	foreach($33) ; foreach($35) ; foreach($81)	set($83.#0.#1, $100)	!$23 & !$88 & $45 & $47 & $59 & $80 & $85 & $98 & $99 | !$23 & $45 & $47 & $59 & $80 & $85 & $88 & $97 & $99 | !$88 & $23 & $45 & $47 & $59 & $80 & $84 & $85 & $99 | $23 & $45 & $47 & $59 & $80 & $85 & $88 & $92 & $99
do	foreach($33) ; foreach($35) ; foreach($81)	set(0^.#0.#1, $100)	!$23 & !$88 & !$99 & $45 & $47 & $59 & $80 & $85 & $94 | !$23 & !$99 & $45 & $47 & $59 & $80 & $85 & $88 & $96 | !$88 & !$99 & $23 & $45 & $47 & $59 & $80 & $85 & $86 | !$99 & $23 & $45 & $47 & $59 & $80 & $85 & $88 & $91
do	foreach($33) ; foreach($35) ; foreach($81)	set($83.#1, 0)	!$23 & !$88 & $45 & $47 & $59 & $80 & $85 & $98 & $99 | !$23 & $45 & $47 & $59 & $80 & $85 & $88 & $97 & $99 | !$88 & $23 & $45 & $47 & $59 & $80 & $84 & $85 & $99 | $23 & $45 & $47 & $59 & $80 & $85 & $88 & $92 & $99
do	foreach($33) ; foreach($35) ; foreach($81)	set(0^.#1, 0)	!$23 & !$88 & !$99 & $45 & $47 & $59 & $80 & $85 & $94 | !$23 & !$99 & $45 & $47 & $59 & $80 & $85 & $88 & $96 | !$88 & !$99 & $23 & $45 & $47 & $59 & $80 & $85 & $86 | !$99 & $23 & $45 & $47 & $59 & $80 & $85 & $88 & $91
do	foreach($33) ; foreach($35)	exit	!$47 & $45
do		set($44, true)	!$44 & $45
ret	true	true
== i::TraceBack::TraceBack | i::TraceBack<Wu, TI::Pair> | (const i::PAutomaton<Wu, TI::Pair> &, AutomatonPath<false> &&) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 70
do		set(self._automaton, addrof(param(#0)))	true
do		set(self._path, param(#1))	true
do		set(self._post, false)	true
== i::TraceBack::next | i::TraceBack<Wu, TI::Pair> | () | false | std::optional<user_rule_t<Wu, void>>
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 71
let	$1	self._automaton
let	$2	call(`pdaaal::AutomatonPath::front_edge`, self._path')
let	$3	$1._states[$2.#0]^._edges
let	$4	$3[$2.#2, $2.#1].#0.#1
let	$5	18446744073709551615
let	$6	eq($4._rule_id, $5)
let	$7	eq($5, $4._state)
let	$8	contains($3, $2.#2, $2.#1)
let	$9	empty(self._path._edges')
let	$10	eq(4294967295, $4._label)
let	$11	$1._pda._states
let	$12	$11[$2.#0]._rules[$4._rule_id].#0
let	$13	enum(`pdaaal::SWAP`, `pdaaal::op_t`)
let	$14	eq($13, $12._operation)
let	$15	eq(4294967294, $4._label)
let	$16	enum(`pdaaal::PUSH`, `pdaaal::op_t`)
let	$17	eq($16, $12._operation)
let	$18	enum(`pdaaal::NOOP`, `pdaaal::op_t`)
let	$19	$11[$4._state]._rules[$4._rule_id].#0
let	$20	eq($16, $19._operation)
let	$21	call(`pdaaal::AutomatonPath::front_edge`, self._path'')
let	$22	$1._states[$21.#0]^._edges
let	$23	$22[$21.#2, $21.#1].#0.#1
let	$24	contains($22, $21.#2, $21.#1)
let	$25	eq($13, $19._operation)
let	$26	exists(loop(#0), {$25})
let	$27	$11[$23._state]._rules[$23._rule_id].#0
let	$28	eq($27._operation, $13)
let	$29	$11[$5]._rules[$5].#0
let	$30	eq($16, $29._operation)
let	$31	exists(loop(#0), true)
let	$32	exists(loop(#0), {!$10 & $14 | !$10 & $17 | !$6 & $14 | !$6 & $17 | !$7 & $14 | !$7 & $17})
let	$33	eq($13, $29._operation)
let	$34	exists(loop(#0), {$30 | $33})
let	$35	eq($27._operation, $16)
let	$36	exists(loop(#0), {$28 | $35})
let	$37	exists(loop(#0), {!$10 | !$6 | !$7})
let	$38	exists(loop(#0), {!$8 | $10 & $6 & $7 | $9})
dom	loop(#0)	do(`pdaaal::AutomatonPath::pop`, self._path)	!$10 & !$9 & $8 | !$6 & !$9 & $8 | !$7 & !$9 & $8
dom	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $12._to, $12._op_label)	!$9 & $14 & $15 & $8 | !$9 & $15 & $17 & $8
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $12._to, $2.#1)	!$9 & $15 & $8 & eq($18, $12._operation)
dom	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $4._state, $2.#1)	!$6 & !$9 & $10 & $8 | !$7 & !$9 & $10 & $8 | !$9 & $15 & $17 & $8
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $2.#0, 4294967295)	!$6 & !$9 & $10 & $8 | !$7 & !$9 & $10 & $8
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $4._state, $4._label)	!$10 & !$15 & !$20 & !$9 & $8
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $23._state, $23._label)	!$10 & !$15 & !$9 & $20 & $24 & $8
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $5, 4294967295)	!$10 & !$15 & !$24 & !$9 & $20 & $8
do	loop(#0)	set(self._post, true)	!$10 & !$15 & !$9 & !self._post' & $8
do	loop(#0)	exit	!$10 | !$8 | $6 & $7 | $9
ret	nullopt	!$15 & !$20 & !$26 & !$31 & $38 | !$15 & !$24 & !$26 & !$31 & !$34 & $38 | !$15 & !$24 & !$26 & !$34 & $20 & $30 & $38 | !$15 & !$24 & !$26 & !$34 & $20 & $33 & $38 | !$15 & !$26 & !$31 & !$36 & $24 & $38 | !$15 & !$26 & !$36 & $20 & $24 & $28 & $38 | !$15 & !$26 & !$36 & $20 & $24 & $35 & $38 | !$15 & !$26 & $25 & $38 | !$32 & !$37 & $15 & $38 | !$32 & $14 & $15 & $38 | !$32 & $15 & $17 & $38 | !$8 & $38 | $10 & $38 | $38 & $9
ret	some(pdaaal::user_rule_t{_from: $2.#0, _op: $12._operation, _op_label: $12._op_label, _pre: $2.#1, _to: $12._to, _weight: $12._weight})	!$37 & !$38 & !$9 & $15 & $32 & $8 | !$38 & !$9 & $14 & $15 & $32 & $8 | !$38 & !$9 & $15 & $17 & $32 & $8
ret	some(pdaaal::user_rule_t{_from: $2.#0, _op: $12._operation, _op_label: 4294967295, _pre: $2.#1, _to: $12._to, _weight: $12._weight})	!$14 & !$17 & !$32 & !$38 & !$9 & $15 & $37 & $8
ret	some(pdaaal::user_rule_t{_from: $23._state, _op: $27._operation, _op_label: $27._op_label, _pre: $23._label, _to: $27._to, _weight: $27._weight})	!$10 & !$15 & !$26 & !$31 & !$38 & !$9 & $20 & $24 & $36 & $8 | !$10 & !$15 & !$26 & !$38 & !$9 & $20 & $24 & $28 & $36 & $8 | !$10 & !$15 & !$26 & !$38 & !$9 & $20 & $24 & $35 & $36 & $8
ret	some(pdaaal::user_rule_t{_from: $23._state, _op: $27._operation, _op_label: 4294967295, _pre: $23._label, _to: $27._to, _weight: $27._weight})	!$10 & !$15 & !$26 & !$28 & !$35 & !$36 & !$38 & !$9 & $20 & $24 & $31 & $8
ret	some(pdaaal::user_rule_t{_from: $5, _op: $29._operation, _op_label: $29._op_label, _pre: 4294967295, _to: $29._to, _weight: $29._weight})	!$10 & !$15 & !$24 & !$26 & !$31 & !$38 & !$9 & $20 & $34 & $8 | !$10 & !$15 & !$24 & !$26 & !$38 & !$9 & $20 & $30 & $34 & $8 | !$10 & !$15 & !$24 & !$26 & !$38 & !$9 & $20 & $33 & $34 & $8
ret	some(pdaaal::user_rule_t{_from: $5, _op: $29._operation, _op_label: 4294967295, _pre: 4294967295, _to: $29._to, _weight: $29._weight})	!$10 & !$15 & !$24 & !$26 & !$30 & !$33 & !$34 & !$38 & !$9 & $20 & $31 & $8
ret	some(pdaaal::user_rule_t{_from: $4._state, _op: $19._operation, _op_label: $19._op_label, _pre: $4._label, _to: $19._to, _weight: $19._weight})	!$10 & !$15 & !$20 & !$31 & !$38 & !$9 & $26 & $8 | !$10 & !$15 & !$24 & !$31 & !$34 & !$38 & !$9 & $26 & $8 | !$10 & !$15 & !$24 & !$34 & !$38 & !$9 & $20 & $26 & $30 & $8 | !$10 & !$15 & !$24 & !$34 & !$38 & !$9 & $20 & $26 & $33 & $8 | !$10 & !$15 & !$31 & !$36 & !$38 & !$9 & $24 & $26 & $8 | !$10 & !$15 & !$36 & !$38 & !$9 & $20 & $24 & $26 & $28 & $8 | !$10 & !$15 & !$36 & !$38 & !$9 & $20 & $24 & $26 & $35 & $8 | !$10 & !$15 & !$38 & !$9 & $25 & $26 & $8
ret	some(pdaaal::user_rule_t{_from: $4._state, _op: $19._operation, _op_label: 4294967295, _pre: $4._label, _to: $19._to, _weight: $19._weight})	!$10 & !$15 & !$20 & !$25 & !$26 & !$38 & !$9 & $31 & $8
== i::TraceBack::TraceBack | i::TraceBack<W0, TI::Single> | (const i::PAutomaton<W0, TI::Single> &, AutomatonPath<false> &&) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 70
== i::TraceBack::next | i::TraceBack<W0, TI::Single> | () | false | std::optional<user_rule_t<W0, void>>
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 72
let	$1	self._automaton
let	$2	call(`pdaaal::AutomatonPath::front_edge`, self._path')
let	$3	$1._states[$2.#0]^._edges
let	$4	contains($3, $2.#2, $2.#1)
let	$5	$3[$2.#2, $2.#1]
let	$6	eq(4294967295, $5._label)
let	$7	empty(self._path._edges')
let	$8	18446744073709551615
let	$9	eq($8, $5._state)
let	$10	eq($8, $5._rule_id)
let	$11	$1._pda._states
let	$12	$11[$2.#0]._rules[$5._rule_id].#0
let	$13	enum(`pdaaal::SWAP`, `pdaaal::op_t`)
let	$14	eq($12._operation, $13)
let	$15	enum(`pdaaal::PUSH`, `pdaaal::op_t`)
let	$16	eq($12._operation, $15)
let	$17	eq(4294967294, $5._label)
let	$18	enum(`pdaaal::NOOP`, `pdaaal::op_t`)
let	$19	$11[$5._state]._rules[$5._rule_id].#0
let	$20	eq($15, $19._operation)
let	$21	call(`pdaaal::AutomatonPath::front_edge`, self._path'')
let	$22	$1._states[$21.#0]^._edges
let	$23	$22[$21.#2, $21.#1]
let	$24	contains($22, $21.#2, $21.#1)
let	$25	exists(loop(#0), {!$10 & $14 | !$10 & $16 | !$6 & $14 | !$6 & $16 | !$9 & $14 | !$9 & $16})
let	$26	$11[$8]._rules[$8].#0
let	$27	eq($15, $26._operation)
let	$28	exists(loop(#0), true)
let	$29	$11[$23._state]._rules[$23._rule_id].#0
let	$30	eq($29._operation, $13)
let	$31	eq($29._operation, $15)
let	$32	exists(loop(#0), {$30 | $31})
let	$33	eq($13, $26._operation)
let	$34	exists(loop(#0), {$27 | $33})
let	$35	exists(loop(#0), {!$10 | !$6 | !$9})
let	$36	eq($13, $19._operation)
let	$37	exists(loop(#0), {$36})
let	$38	exists(loop(#0), {!$4 | $10 & $6 & $9 | $7})
dom	loop(#0)	do(`pdaaal::AutomatonPath::pop`, self._path)	!$10 & !$7 & $4 | !$6 & !$7 & $4 | !$7 & !$9 & $4
dom	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $12._to, $12._op_label)	!$7 & $14 & $17 & $4 | !$7 & $16 & $17 & $4
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $12._to, $2.#1)	!$7 & $17 & $4 & eq($18, $12._operation)
dom	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $5._state, $2.#1)	!$10 & !$7 & $4 & $6 | !$7 & !$9 & $4 & $6 | !$7 & $16 & $17 & $4
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $2.#0, 4294967295)	!$10 & !$7 & $4 & $6 | !$7 & !$9 & $4 & $6
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $5._state, $5._label)	!$17 & !$20 & !$6 & !$7 & $4
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $23._state, $23._label)	!$17 & !$6 & !$7 & $20 & $24 & $4
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $8, 4294967295)	!$17 & !$24 & !$6 & !$7 & $20 & $4
do	loop(#0)	set(self._post, true)	!$17 & !$6 & !$7 & !self._post' & $4
do	loop(#0)	exit	!$4 | !$6 | $10 & $9 | $7
ret	nullopt	!$17 & !$20 & !$28 & !$37 & $38 | !$17 & !$24 & !$28 & !$34 & !$37 & $38 | !$17 & !$24 & !$34 & !$37 & $20 & $27 & $38 | !$17 & !$24 & !$34 & !$37 & $20 & $33 & $38 | !$17 & !$28 & !$32 & !$37 & $24 & $38 | !$17 & !$32 & !$37 & $20 & $24 & $30 & $38 | !$17 & !$32 & !$37 & $20 & $24 & $31 & $38 | !$17 & !$37 & $36 & $38 | !$25 & !$35 & $17 & $38 | !$25 & $14 & $17 & $38 | !$25 & $16 & $17 & $38 | !$4 & $38 | $38 & $6 | $38 & $7
ret	some(pdaaal::user_rule_t{_from: $2.#0, _op: $12._operation, _op_label: $12._op_label, _pre: $2.#1, _to: $12._to})	!$35 & !$38 & !$7 & $17 & $25 & $4 | !$38 & !$7 & $14 & $17 & $25 & $4 | !$38 & !$7 & $16 & $17 & $25 & $4
ret	some(pdaaal::user_rule_t{_from: $2.#0, _op: $12._operation, _op_label: 4294967295, _pre: $2.#1, _to: $12._to})	!$14 & !$16 & !$25 & !$38 & !$7 & $17 & $35 & $4
ret	some(pdaaal::user_rule_t{_from: $23._state, _op: $29._operation, _op_label: $29._op_label, _pre: $23._label, _to: $29._to})	!$17 & !$28 & !$37 & !$38 & !$6 & !$7 & $20 & $24 & $32 & $4 | !$17 & !$37 & !$38 & !$6 & !$7 & $20 & $24 & $30 & $32 & $4 | !$17 & !$37 & !$38 & !$6 & !$7 & $20 & $24 & $31 & $32 & $4
ret	some(pdaaal::user_rule_t{_from: $23._state, _op: $29._operation, _op_label: 4294967295, _pre: $23._label, _to: $29._to})	!$17 & !$30 & !$31 & !$32 & !$37 & !$38 & !$6 & !$7 & $20 & $24 & $28 & $4
ret	some(pdaaal::user_rule_t{_from: $8, _op: $26._operation, _op_label: $26._op_label, _pre: 4294967295, _to: $26._to})	!$17 & !$24 & !$28 & !$37 & !$38 & !$6 & !$7 & $20 & $34 & $4 | !$17 & !$24 & !$37 & !$38 & !$6 & !$7 & $20 & $27 & $34 & $4 | !$17 & !$24 & !$37 & !$38 & !$6 & !$7 & $20 & $33 & $34 & $4
ret	some(pdaaal::user_rule_t{_from: $8, _op: $26._operation, _op_label: 4294967295, _pre: 4294967295, _to: $26._to})	!$17 & !$24 & !$27 & !$33 & !$34 & !$37 & !$38 & !$6 & !$7 & $20 & $28 & $4
ret	some(pdaaal::user_rule_t{_from: $5._state, _op: $19._operation, _op_label: $19._op_label, _pre: $5._label, _to: $19._to})	!$17 & !$20 & !$28 & !$38 & !$6 & !$7 & $37 & $4 | !$17 & !$24 & !$28 & !$34 & !$38 & !$6 & !$7 & $37 & $4 | !$17 & !$24 & !$34 & !$38 & !$6 & !$7 & $20 & $27 & $37 & $4 | !$17 & !$24 & !$34 & !$38 & !$6 & !$7 & $20 & $33 & $37 & $4 | !$17 & !$28 & !$32 & !$38 & !$6 & !$7 & $24 & $37 & $4 | !$17 & !$32 & !$38 & !$6 & !$7 & $20 & $24 & $30 & $37 & $4 | !$17 & !$32 & !$38 & !$6 & !$7 & $20 & $24 & $31 & $37 & $4 | !$17 & !$38 & !$6 & !$7 & $36 & $37 & $4
ret	some(pdaaal::user_rule_t{_from: $5._state, _op: $19._operation, _op_label: 4294967295, _pre: $5._label, _to: $19._to})	!$17 & !$20 & !$36 & !$37 & !$38 & !$6 & !$7 & $28 & $4
== i::TraceBack::TraceBack | i::TraceBack<Wu, TI::Single> | (const i::PAutomaton<Wu, TI::Single> &, AutomatonPath<false> &&) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 70
== i::TraceBack::next | i::TraceBack<Wu, TI::Single> | () | false | std::optional<user_rule_t<Wu, void>>
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 73
let	$1	self._automaton
let	$2	call(`pdaaal::AutomatonPath::front_edge`, self._path')
let	$3	$1._states[$2.#0]^._edges
let	$4	$3[$2.#2, $2.#1].#0
let	$5	eq($4._label, 4294967295)
let	$6	18446744073709551615
let	$7	eq($6, $4._rule_id)
let	$8	contains($3, $2.#2, $2.#1)
let	$9	empty(self._path._edges')
let	$10	eq($4._state, $6)
let	$11	$1._pda._states
let	$12	$11[$2.#0]._rules[$4._rule_id].#0
let	$13	enum(`pdaaal::SWAP`, `pdaaal::op_t`)
let	$14	eq($12._operation, $13)
let	$15	enum(`pdaaal::PUSH`, `pdaaal::op_t`)
let	$16	eq($12._operation, $15)
let	$17	eq($4._label, 4294967294)
let	$18	enum(`pdaaal::NOOP`, `pdaaal::op_t`)
let	$19	$11[$4._state]._rules[$4._rule_id].#0
let	$20	eq($15, $19._operation)
let	$21	call(`pdaaal::AutomatonPath::front_edge`, self._path'')
let	$22	$1._states[$21.#0]^._edges
let	$23	$22[$21.#2, $21.#1].#0
let	$24	contains($22, $21.#2, $21.#1)
let	$25	$11[$23._state]._rules[$23._rule_id].#0
let	$26	eq($25._operation, $15)
let	$27	eq($25._operation, $13)
let	$28	exists(loop(#0), {$26 | $27})
let	$29	$11[$6]._rules[$6].#0
let	$30	eq($15, $29._operation)
let	$31	exists(loop(#0), true)
let	$32	eq($13, $29._operation)
let	$33	exists(loop(#0), {$30 | $32})
let	$34	eq($13, $19._operation)
let	$35	exists(loop(#0), {$34})
let	$36	exists(loop(#0), {!$10 | !$5 | !$7})
let	$37	exists(loop(#0), {!$10 & $14 | !$10 & $16 | !$5 & $14 | !$5 & $16 | !$7 & $14 | !$7 & $16})
let	$38	exists(loop(#0), {!$8 | $10 & $5 & $7 | $9})
dom	loop(#0)	do(`pdaaal::AutomatonPath::pop`, self._path)	!$10 & !$9 & $8 | !$5 & !$9 & $8 | !$7 & !$9 & $8
dom	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $12._to, $12._op_label)	!$9 & $14 & $17 & $8 | !$9 & $16 & $17 & $8
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $12._to, $2.#1)	!$9 & $17 & $8 & eq($12._operation, $18)
dom	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $4._state, $2.#1)	!$10 & !$9 & $5 & $8 | !$7 & !$9 & $5 & $8 | !$9 & $16 & $17 & $8
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $2.#0, 4294967295)	!$10 & !$9 & $5 & $8 | !$7 & !$9 & $5 & $8
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $4._state, $4._label)	!$17 & !$20 & !$5 & !$9 & $8
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $23._state, $23._label)	!$17 & !$5 & !$9 & $20 & $24 & $8
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $6, 4294967295)	!$17 & !$24 & !$5 & !$9 & $20 & $8
do	loop(#0)	set(self._post, true)	!$17 & !$5 & !$9 & !self._post' & $8
do	loop(#0)	exit	!$5 | !$8 | $10 & $7 | $9
ret	nullopt	!$17 & !$20 & !$31 & !$35 & $38 | !$17 & !$24 & !$31 & !$33 & !$35 & $38 | !$17 & !$24 & !$33 & !$35 & $20 & $30 & $38 | !$17 & !$24 & !$33 & !$35 & $20 & $32 & $38 | !$17 & !$28 & !$31 & !$35 & $24 & $38 | !$17 & !$28 & !$35 & $20 & $24 & $26 & $38 | !$17 & !$28 & !$35 & $20 & $24 & $27 & $38 | !$17 & !$35 & $34 & $38 | !$36 & !$37 & $17 & $38 | !$37 & $14 & $17 & $38 | !$37 & $16 & $17 & $38 | !$8 & $38 | $38 & $5 | $38 & $9
ret	some(pdaaal::user_rule_t{_from: $2.#0, _op: $12._operation, _op_label: $12._op_label, _pre: $2.#1, _to: $12._to, _weight: $12._weight})	!$36 & !$38 & !$9 & $17 & $37 & $8 | !$38 & !$9 & $14 & $17 & $37 & $8 | !$38 & !$9 & $16 & $17 & $37 & $8
ret	some(pdaaal::user_rule_t{_from: $2.#0, _op: $12._operation, _op_label: 4294967295, _pre: $2.#1, _to: $12._to, _weight: $12._weight})	!$14 & !$16 & !$37 & !$38 & !$9 & $17 & $36 & $8
ret	some(pdaaal::user_rule_t{_from: $23._state, _op: $25._operation, _op_label: $25._op_label, _pre: $23._label, _to: $25._to, _weight: $25._weight})	!$17 & !$31 & !$35 & !$38 & !$5 & !$9 & $20 & $24 & $28 & $8 | !$17 & !$35 & !$38 & !$5 & !$9 & $20 & $24 & $26 & $28 & $8 | !$17 & !$35 & !$38 & !$5 & !$9 & $20 & $24 & $27 & $28 & $8
ret	some(pdaaal::user_rule_t{_from: $23._state, _op: $25._operation, _op_label: 4294967295, _pre: $23._label, _to: $25._to, _weight: $25._weight})	!$17 & !$26 & !$27 & !$28 & !$35 & !$38 & !$5 & !$9 & $20 & $24 & $31 & $8
ret	some(pdaaal::user_rule_t{_from: $6, _op: $29._operation, _op_label: $29._op_label, _pre: 4294967295, _to: $29._to, _weight: $29._weight})	!$17 & !$24 & !$31 & !$35 & !$38 & !$5 & !$9 & $20 & $33 & $8 | !$17 & !$24 & !$35 & !$38 & !$5 & !$9 & $20 & $30 & $33 & $8 | !$17 & !$24 & !$35 & !$38 & !$5 & !$9 & $20 & $32 & $33 & $8
ret	some(pdaaal::user_rule_t{_from: $6, _op: $29._operation, _op_label: 4294967295, _pre: 4294967295, _to: $29._to, _weight: $29._weight})	!$17 & !$24 & !$30 & !$32 & !$33 & !$35 & !$38 & !$5 & !$9 & $20 & $31 & $8
ret	some(pdaaal::user_rule_t{_from: $4._state, _op: $19._operation, _op_label: $19._op_label, _pre: $4._label, _to: $19._to, _weight: $19._weight})	!$17 & !$20 & !$31 & !$38 & !$5 & !$9 & $35 & $8 | !$17 & !$24 & !$31 & !$33 & !$38 & !$5 & !$9 & $35 & $8 | !$17 & !$24 & !$33 & !$38 & !$5 & !$9 & $20 & $30 & $35 & $8 | !$17 & !$24 & !$33 & !$38 & !$5 & !$9 & $20 & $32 & $35 & $8 | !$17 & !$28 & !$31 & !$38 & !$5 & !$9 & $24 & $35 & $8 | !$17 & !$28 & !$38 & !$5 & !$9 & $20 & $24 & $26 & $35 & $8 | !$17 & !$28 & !$38 & !$5 & !$9 & $20 & $24 & $27 & $35 & $8 | !$17 & !$38 & !$5 & !$9 & $34 & $35 & $8
ret	some(pdaaal::user_rule_t{_from: $4._state, _op: $19._operation, _op_label: 4294967295, _pre: $4._label, _to: $19._to, _weight: $19._weight})	!$17 & !$20 & !$34 & !$35 & !$38 & !$5 & !$9 & $31 & $8
== i::PDA::state_t::state_t | i::PDA<W0, fut::vector>::state_t | (i::PDA<W0, fut::hash>::state_t &&) |  | void
-- file: include/pdaaal/internal/PDA.h
-- id: 74
let	$1	param(#0)._rules
do		do(`std::sort`, L(#0))	true
do		set(self._rules, pdaaal::fut::detail::fut_set{elems: L(#0)'})	true
do		set(self._pre_states, param(#0)._pre_states)	true
dom		init(L(#0), ctor(`std::vector`, call(`std::make_move_iterator`, begin($1)), call(`std::make_move_iterator`, end($1))))	true
== i::PDA::states_begin | i::PDA<W0, fut::vector> | () |  | __gnu_cxx::__normal_iterator<i::PDA<W0, fut::vector>::state_t *, std::vector<i::PDA<W0, fut::vector>::state_t>>
-- file: include/pdaaal/internal/PDA.h
-- id: 75
ret	begin(self._states)	true
== i::PDA::states_end | i::PDA<W0, fut::vector> | () |  | __gnu_cxx::__normal_iterator<i::PDA<W0, fut::vector>::state_t *, std::vector<i::PDA<W0, fut::vector>::state_t>>
-- file: include/pdaaal/internal/PDA.h
-- id: 76
ret	end(self._states)	true
== i::PDA::states | i::PDA<W0, fut::vector> | () const |  | const std::vector<i::PDA<W0, fut::vector>::state_t> &
-- file: include/pdaaal/internal/PDA.h
-- id: 77
ret	self._states	true
== i::PDA::states_mutable | i::PDA<W0, fut::vector> | () |  | std::vector<i::PDA<W0, fut::vector>::state_t> &
-- file: include/pdaaal/internal/PDA.h
-- id: 78
ret	self._states	true
== i::PDA::clear_state | i::PDA<W0, fut::vector> | (u64) |  | void
-- file: include/pdaaal/internal/PDA.h
-- id: 79
let	$1	self._states[param(#0)]
let	$2	foreach($1._pre_states)
let	$3	self._states[$1._pre_states@0]._rules
let	$4	phi(#1, begin($3), #0)
let	$5	eq(param(#0), $3@0.#0._to')
do		do(`clear`, $1._rules)	true
do	$2 ; foreach($3)	set($4^, $3@0')	!$5 & !eq(lin(#0, begin($3), ix($3, #0)), $4)
do	$2	do(`resize`, $3, lin(#0, mul(#-1, begin($3)), fold($3, begin($3), ite([$5, $4, {!$5}, lin(#1, $4)]), none, false)))	true
do		do(`clear`, $1._pre_states)	true
== i::PDA::add_rule | i::PDA<W0, fut::vector> | (user_rule_t<W0, void>) |  | void
-- file: include/pdaaal/internal/PDA.h
-- id: 80
do		do(`pdaaal::internal::PDA::add_untyped_rule_impl`, self, param(#0)._from, pdaaal::internal::pda_rule_t{_op_label: param(#0)._op_label, _operation: param(#0)._op, _to: param(#0)._to}, false, list(param(#0)._pre))	true
== i::PDA::add_wildcard_rule | i::PDA<W0, fut::vector> | (user_rule_t<W0, void>) |  | void
-- file: include/pdaaal/internal/PDA.h
-- id: 81
do		do(`pdaaal::internal::PDA::add_untyped_rule_impl`, self, param(#0)._from, pdaaal::internal::pda_rule_t{_op_label: param(#0)._op_label, _operation: param(#0)._op, _to: param(#0)._to}, true, new(`std::vector`))	true
== i::PDA::add_state | i::PDA<W0, fut::vector> | (u64) |  | void
-- file: include/pdaaal/internal/PDA.h
-- id: 82
do		do(`resize`, self._states, lin(#1, param(#0)))	!lt(param(#0), size(self._states))
== i::PDA::add_untyped_rule_impl | i::PDA<W0, fut::vector> | (u64, i::pda_rule_t<W0, void>, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/internal/PDA.h
-- id: 83
let	$1	lt(param(#0), param(#1)._to)
let	$2	self._states[param(#0)]._rules
do		do(`pdaaal::internal::PDA::add_state`, self, param(#1)._to)	$1
do		do(`pdaaal::internal::PDA::add_state`, self, param(#0))	!$1
do		do(`insert`, $2, param(#1), pdaaal::internal::labels_t{_labels: new(`std::vector`), _wildcard: false})	true
do		do(`pdaaal::internal::labels_t::merge`, $2[param(#1)], true, param(#3))	param(#2)
do		do(`pdaaal::internal::labels_t::merge`, $2[param(#1)], false, param(#3))	!param(#2)
do		do(`insert`, self._states[param(#1)._to]._pre_states, param(#0))	true
== i::PDA::state_t::state_t | i::PDA<Wu, fut::vector>::state_t | (i::PDA<Wu, fut::hash>::state_t &&) |  | void
-- file: include/pdaaal/internal/PDA.h
-- same: 74
== i::PDA::states_begin | i::PDA<Wu, fut::vector> | () |  | __gnu_cxx::__normal_iterator<i::PDA<Wu, fut::vector>::state_t *, std::vector<i::PDA<Wu, fut::vector>::state_t>>
-- file: include/pdaaal/internal/PDA.h
-- same: 75
== i::PDA::states_end | i::PDA<Wu, fut::vector> | () |  | __gnu_cxx::__normal_iterator<i::PDA<Wu, fut::vector>::state_t *, std::vector<i::PDA<Wu, fut::vector>::state_t>>
-- file: include/pdaaal/internal/PDA.h
-- same: 76
== i::PDA::states | i::PDA<Wu, fut::vector> | () const |  | const std::vector<i::PDA<Wu, fut::vector>::state_t> &
-- file: include/pdaaal/internal/PDA.h
-- same: 77
== i::PDA::states_mutable | i::PDA<Wu, fut::vector> | () |  | std::vector<i::PDA<Wu, fut::vector>::state_t> &
-- file: include/pdaaal/internal/PDA.h
-- same: 78
== i::PDA::clear_state | i::PDA<Wu, fut::vector> | (u64) |  | void
-- file: include/pdaaal/internal/PDA.h
-- same: 79
== i::PDA::add_rule | i::PDA<Wu, fut::vector> | (user_rule_t<Wu, void>) |  | void
-- file: include/pdaaal/internal/PDA.h
-- id: 84
do		do(`pdaaal::internal::PDA::add_untyped_rule_impl`, self, param(#0)._from, pdaaal::internal::pda_rule_t{_op_label: param(#0)._op_label, _operation: param(#0)._op, _to: param(#0)._to, _weight: param(#0)._weight}, false, list(param(#0)._pre))	true
== i::PDA::add_wildcard_rule | i::PDA<Wu, fut::vector> | (user_rule_t<Wu, void>) |  | void
-- file: include/pdaaal/internal/PDA.h
-- id: 85
do		do(`pdaaal::internal::PDA::add_untyped_rule_impl`, self, param(#0)._from, pdaaal::internal::pda_rule_t{_op_label: param(#0)._op_label, _operation: param(#0)._op, _to: param(#0)._to, _weight: param(#0)._weight}, true, new(`std::vector`))	true
== i::PDA::add_state | i::PDA<Wu, fut::vector> | (u64) |  | void
-- file: include/pdaaal/internal/PDA.h
-- same: 82
== i::PDA::add_untyped_rule_impl | i::PDA<Wu, fut::vector> | (u64, i::pda_rule_t<Wu, void>, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/internal/PDA.h
-- same: 83
== NFA::state_t::state_t | NFA<u32>::state_t | (bool) |  | void
-- file: include/pdaaal/NFA.h
-- id: 86
let	$1	new(`std::vector`)
let	$2	self._accepting
do		set(self._edges, $1)	true
do		set(self._backedges, $1)	true
do		set($2, true)	param(#0)
do		set($2, false)	!param(#0)
== NFA::state_t::has_non_epsilon | NFA<u32>::state_t | () const |  | bool
-- file: include/pdaaal/NFA.h
-- id: 87
ret	exists(self._edges, {!empty(self._edges@0._symbols) | self._edges@0._negated})	true
== NFA::state_t::add_epsilon_edge | NFA<u32>::state_t | (NFA<u32>::state_t *) |  | void
-- file: include/pdaaal/NFA.h
-- id: 88
do		do(`push`, param(#0)^._backedges, tuple{#0: addr(self), #1: size(self._edges)})	true
do		do(`push`, self._edges, pdaaal::NFA::edge_t{_destination: param(#0), _epsilon: true, _negated: false, _symbols: new(`std::vector`)})	true
== NFA::state_t::prelabels | NFA<u32>::state_t | (const std::unordered_set<u32, std::hash<u32>, std::equal_to<u32>> &) const |  | std::vector<u32>
-- file: include/pdaaal/NFA.h
-- id: 89
let	$1	back(L(#0))'^._backedges
let	$2	foreach(param(#0))
let	$3	$1@0.#0''^._edges[$1@0.#1'']
let	$4	empty($3._symbols'')
let	$5	call(`std::lower_bound`, begin(L(#2)), end(L(#2)), param(#0)@0)
let	$6	end($3._symbols)
let	$7	call(`std::lower_bound`, begin($3._symbols), $6, param(#0)@0)
let	$8	$3._symbols@0''
let	$9	call(`std::lower_bound`, begin(L(#2)), end(L(#2)), $8)
let	$10	exists($1, {$3._negated'' & $4})
let	$11	new(`std::vector`)
let	$12	exists(loop(#0), true)
let	$13	phi(#0, $11, #0)
do		do(`insert`, L(#1), addr(self))	true
do		do(`push`, L(#0), addr(self))	true
do	loop(#0)	do(`pop`, L(#0))	!empty(L(#0)')
do	loop(#0) ; foreach($1)	do(`insert`, L(#1), $1@0.#0')	!empty(L(#0)')
do	loop(#0) ; foreach($1)	do(`push`, L(#0), $1@0.#0')	!contains(L(#1)', $1@0.#0') & !empty(L(#0)')
do	loop(#0) ; foreach($1) ; $2	do(`push`, L(#2), param(#0)@0)	!empty(L(#0)') & $3._negated'' & $4
do	loop(#0) ; foreach($1)	do(`std::sort`, L(#2))	!empty(L(#0)') & $3._negated'' & $4
do	loop(#0) ; foreach($1) ; $2	do(`insert_at`, L(#2), $5, param(#0)@0)	!$4 & !empty(L(#0)') & !eq(param(#0)@0, $5^) & !eq(param(#0)@0, $7^) & $3._negated'' | !$4 & !empty(L(#0)') & !eq(param(#0)@0, $5^) & $3._negated'' & eq($7, $6) | !$4 & !empty(L(#0)') & !eq(param(#0)@0, $7^) & $3._negated'' & eq($5, end(L(#2))) | !$4 & !empty(L(#0)') & $3._negated'' & eq($5, end(L(#2))) & eq($7, $6)
do	loop(#0) ; foreach($1) ; foreach($3._symbols)	do(`insert_at`, L(#2), $9, $8)	!$3._negated'' & !empty(L(#0)') & !eq($9^, $8) | !$3._negated'' & !empty(L(#0)') & eq($9, end(L(#2)))
do	loop(#0) ; foreach($1)	exit	!empty(L(#0)') & $3._negated'' & $4
do	loop(#0)	exit	$10 | empty(L(#0)')
dom		init(L(#1), new(`std::unordered_set`))	true
dom		init(L(#0), $11)	true
dom	loop(#0) ; foreach($1)	init(L(#2), $11)	true
ret	L(#2)''	!empty(L(#0)') & $10 & $12
ret	fold(loop(#0), $11, fold($1, $13, L(#2)'', none, false), $13, empty(L(#0)'))	!$10 | !$12 | empty(L(#0)')
== NFA::edge_t::edge_t | NFA<u32>::edge_t | (bool, std::unordered_set<u32, std::hash<u32>, std::equal_to<u32>> &, NFA<u32>::state_t *, NFA<u32>::state_t *, u64) |  | void
-- file: include/pdaaal/NFA.h
-- id: 90
do		do(`push`, param(#2)^._backedges, tuple{#0: param(#3), #1: param(#4)})	true
do		do(`std::sort`, self._symbols)	true
do		set(self._epsilon, false)	true
do		set(self._negated, true)	param(#0)
do		set(self._negated, false)	!param(#0)
do		set(self._symbols, copyof(param(#1)))	true
do		set(self._destination, param(#2))	true
== NFA::edge_t::edge_t | NFA<u32>::edge_t | (NFA<u32>::state_t *, NFA<u32>::state_t *, u64, bool) |  | void
-- file: include/pdaaal/NFA.h
-- id: 91
do		do(`push`, param(#0)^._backedges, tuple{#0: param(#1), #1: param(#2)})	true
do		set(self._epsilon, true)	param(#3)
do		set(self._epsilon, false)	!param(#3)
do		set(self._negated, true)	!param(#3)
do		set(self._negated, false)	param(#3)
do		set(self._symbols, new(`std::vector`))	true
do		set(self._destination, param(#0))	true
== NFA::edge_t::empty | NFA<u32>::edge_t | (u64) const |  | bool
-- file: include/pdaaal/NFA.h
-- id: 92
ret	{!self._negated & empty(self._symbols) | eq(param(#0), size(self._symbols)) & self._negated}	true
== NFA::edge_t::wildcard | NFA<u32>::edge_t | (u64) const |  | bool
-- file: include/pdaaal/NFA.h
-- id: 93
ret	{!self._negated & eq(param(#0), size(self._symbols)) | empty(self._symbols) & self._negated}	true
== NFA::edge_t::contains | NFA<u32>::edge_t | (const u32 &) const |  | bool
-- file: include/pdaaal/NFA.h
-- id: 94
let	$1	end(self._symbols)
let	$2	call(`std::lower_bound`, begin(self._symbols), $1, param(#0))
ret	{!eq($2, $1) & !self._negated & eq($2^, param(#0)) | !eq($2^, param(#0)) & self._negated | eq($2, $1) & self._negated}	true
== NFA::edge_t::follow_epsilon | NFA<u32>::edge_t | () const |  | std::vector<NFA<u32>::state_t *>
-- file: include/pdaaal/NFA.h
-- id: 95
let	$1	list(self._destination)
do		do(`pdaaal::NFA::follow_epsilon`, $1)	true
dom		init(L(#0), $1)	true
ret	L(#0)'	true
== NFA::NFA | NFA<u32> | (bool) |  | void
-- file: include/pdaaal/NFA.h
-- id: 96
let	$1	new(`std::vector`)
let	$2	newobj(pdaaal::NFA::state_t{_accepting: param(#0), _backedges: $1, _edges: $1})
let	$3	self._accepting
do		do(`push`, self._states, $2)	true
do		do(`push`, $3, $2)	param(#0)
do		do(`push`, self._initial, $2)	true
do		set(self._states, $1)	true
do		set(self._initial, $1)	true
do		set($3, $1)	true
== NFA::NFA | NFA<u32> | (std::unordered_set<u32, std::hash<u32>, std::equal_to<u32>> &&, bool) |  | void
-- file: include/pdaaal/NFA.h
-- id: 97
let	$1	new(`std::vector`)
let	$2	newobj(pdaaal::NFA::state_t{_accepting: false, _backedges: $1, _edges: $1})
let	$3	empty(param(#0))
let	$4	newobj(pdaaal::NFA::state_t{_accepting: true, _backedges: $1, _edges: $1})
let	$5	self._accepting
do		do(`push`, self._states, $2)	!$3 | param(#1)
do		do(`push`, self._initial, $2)	!$3 | param(#1)
do		do(`push`, self._states, $4)	!$3 | param(#1)
do		do(`push`, $5, $4)	!$3 | param(#1)
do		do(`push`, $4^._backedges, tuple{#0: $2, #1: 0})	!$3 | param(#1)
do		do(`std::sort`, L(#0))	!$3 | param(#1)
do		do(`push`, $2^._edges, pdaaal::NFA::edge_t{_destination: $4, _epsilon: false, _negated: param(#1), _symbols: L(#0)'})	!$3 | param(#1)
do		set(self._states, $1)	true
do		set(self._initial, $1)	true
do		set($5, $1)	true
dom		init(L(#0), copyof(param(#0)))	true
== NFA::compile | NFA<u32> | () |  | void
-- file: include/pdaaal/NFA.h
-- id: 98
do		do(`std::sort`, self._accepting)	true
do		do(`std::sort`, self._initial)	true
do		do(`pdaaal::NFA::follow_epsilon`, self._initial')	true
do		do(`std::sort`, self._states)	true
== NFA::NFA | NFA<u32> | (const NFA<u32> &) |  | void
-- file: include/pdaaal/NFA.h
-- id: 99
let	$1	eq(addr(param(#0)), addr(self))
let	$2	self._accepting
let	$3	new(`std::vector`)
let	$4	param(#0)._states
let	$5	foreach(self._states)
let	$6	self._states@0''^
let	$7	$6._edges@0._destination
let	$8	$6._backedges@0.#0
let	$9	param(#0)._accepting
let	$10	param(#0)._initial
do		do(`clear`, self._states)	!$1
do		do(`clear`, self._initial)	!$1
do		do(`clear`, $2)	!$1
do		set(self._states, $3)	true
do		set(self._initial, $3)	true
do		set($2, $3)	true
do	foreach($4)	do(`push`, self._states, newobj($4@0^))	!$1
do	foreach($4)	set(L(#0)[$4@0], newobj($4@0^))	!$1
do	$5 ; foreach($6._edges)	set($7, L(#0)[$7'']')	!$1
do	$5 ; foreach($6._backedges)	set($8, L(#0)[$8'']')	!$1
do	foreach($9)	do(`push`, $2, L(#0)[$9@0]')	!$1
do	foreach($10)	do(`push`, self._initial, L(#0)[$10@0]')	!$1
do		do(`std::sort`, $2)	!$1
do		do(`std::sort`, self._initial)	!$1
dom		init(L(#0), new(`std::unordered_map`))	true
== NFA::empty_accept | NFA<u32> | () const |  | bool
-- file: include/pdaaal/NFA.h
-- id: 100
ret	exists(self._initial, self._initial@0^._accepting)	true
== NFA::follow_epsilon | NFA<u32> | (std::vector<NFA<u32>::state_t *> &) | NFA<u32>::state_t * | void
-- file: include/pdaaal/NFA.h
-- id: 101
let	$1	back(L(#0))'^._edges
let	$2	$1@0._destination'
let	$3	call(`std::lower_bound`, begin(param(#0)), end(param(#0)), $2)
let	$4	eq($3, end(param(#0)))
let	$5	lp(#0, #0)^._edges
let	$6	fun({!exists($5, {!empty($5@0._symbols) | $5@0._negated}) & !lp(#0, #0)^._accepting}, [])
do	loop(#0)	do(`pop`, L(#0))	!empty(L(#0)')
do	loop(#0) ; foreach($1)	do(`insert_at`, param(#0), $3, $2)	!empty(L(#0)') & !eq($2, $3^) & $1@0._epsilon' | !empty(L(#0)') & $1@0._epsilon' & $4
do	loop(#0) ; foreach($1)	do(`push`, L(#0), $2)	!empty(L(#0)') & !eq($2, $3^) & $1@0._epsilon' | !empty(L(#0)') & $1@0._epsilon' & $4
do	loop(#0)	exit	empty(L(#0)')
do		do(`std::remove_if`, param(#0), $6)	true
do		do(`erase`, param(#0), res(`std::remove_if`, param(#0), $6), end(param(#0)))	true
dom		init(L(#0), param(#0))	true
== NFA::follow_epsilon | NFA<u32> | (std::vector<const NFA<u32>::state_t *> &) | const NFA<u32>::state_t * | void
-- file: include/pdaaal/NFA.h
-- same: 101
== NFA::successor | NFA<u32> | (const std::vector<const NFA<u32>::state_t *> &, const u32 &) | const NFA<u32>::state_t * | std::vector<const NFA<u32>::state_t *>
-- file: include/pdaaal/NFA.h
-- id: 102
let	$1	param(#0)@0^._edges
let	$2	$1@0._destination
let	$3	call(`std::lower_bound`, begin(L(#0)), end(L(#0)), $2)
let	$4	end($1@0._symbols)
let	$5	call(`std::lower_bound`, begin($1@0._symbols), $4, param(#1))
do	foreach(param(#0)) ; foreach($1)	do(`insert_at`, L(#0), $3, $2)	!$1@0._negated & !eq($3^, $2) & !eq($4, $5) & eq(param(#1), $5^) | !$1@0._negated & !eq($4, $5) & eq(end(L(#0)), $3) & eq(param(#1), $5^) | !eq($3^, $2) & !eq(param(#1), $5^) & $1@0._negated | !eq($3^, $2) & $1@0._negated & eq($4, $5) | !eq(param(#1), $5^) & $1@0._negated & eq(end(L(#0)), $3) | $1@0._negated & eq($4, $5) & eq(end(L(#0)), $3)
do		do(`pdaaal::NFA::follow_epsilon`, L(#0)')	true
dom		init(L(#0), new(`std::vector`))	true
ret	L(#0)''	true
== NFA::has_as_successor | NFA<u32> | (const std::vector<const NFA<u32>::state_t *> &, const u32 &, const NFA<u32>::state_t *) | const NFA<u32>::state_t * | bool
-- file: include/pdaaal/NFA.h
-- id: 103
let	$1	call(`pdaaal::NFA::successor`, param(#0), param(#1))
let	$2	call(`std::lower_bound`, begin($1), end($1), param(#2))
ret	{!eq(end($1), $2) & eq($2^, param(#2))}	true
== NFA::has_as_successor | NFA<u32> | (const NFA<u32>::state_t *, const u32 &, const NFA<u32>::state_t *) |  | bool
-- file: include/pdaaal/NFA.h
-- id: 104
ret	call(`pdaaal::NFA::has_as_successor`, list(param(#0)), param(#1), param(#2))	true
== NFA::leads_to_by_epsilon | NFA<u32> | (const NFA<u32>::state_t *, const NFA<u32>::state_t *) |  | bool
-- file: include/pdaaal/NFA.h
-- id: 105
let	$1	eq(param(#1), param(#0))
let	$2	back(L(#0))'^._edges
let	$3	$2@0._destination'
let	$4	call(`std::lower_bound`, begin(L(#1)), end(L(#1)), $3)
let	$5	eq($3, param(#1))
let	$6	eq(end(L(#1)), $4)
let	$7	exists($2, {$2@0._epsilon' & $5})
let	$8	new(`std::vector`)
do		do(`push`, L(#0), param(#0))	!$1
do		do(`push`, L(#1), param(#0))	!$1
do	loop(#0)	do(`pop`, L(#0))	!$1 & !empty(L(#0)')
do	loop(#0) ; foreach($2)	do(`insert_at`, L(#1), $4, $3)	!$1 & !$5 & !empty(L(#0)') & !eq($3, $4^) & $2@0._epsilon' | !$1 & !$5 & !empty(L(#0)') & $2@0._epsilon' & $6
do	loop(#0) ; foreach($2)	do(`push`, L(#0), $3)	!$1 & !$5 & !empty(L(#0)') & !eq($3, $4^) & $2@0._epsilon' | !$1 & !$5 & !empty(L(#0)') & $2@0._epsilon' & $6
do	loop(#0) ; foreach($2)	exit	!$1 & !empty(L(#0)') & $2@0._epsilon' & $5
do	loop(#0)	exit	!$1 & $7 | !$1 & empty(L(#0)')
dom		init(L(#0), $8)	true
dom		init(L(#1), $8)	true
ret	{!empty(L(#0)') & $7 & exists(loop(#0), true) | $1}	true
== NFA::intersect_edge_labels | NFA<u32> | (const std::vector<const NFA<u32>::state_t *> &, const NFA<u32>::state_t *, const std::vector<u32> &) | const NFA<u32>::state_t * | std::vector<u32>
-- file: include/pdaaal/NFA.h
-- id: 106
let	$1	param(#0)@0^._edges
let	$2	call(`pdaaal::NFA::leads_to_by_epsilon`, $1@0._destination, param(#1))
let	$3	empty($1@0._symbols)
let	$4	size(param(#2))
let	$5	new(`std::vector`)
let	$6	phi(#0, $5, #0)
let	$7	phi(#1, $6, #0)
let	$8	call(`std::set_union`, $7, call(`std::set_difference`, param(#2), $1@0._symbols))
let	$9	eq($4, size($8))
let	$10	call(`std::set_union`, $7, call(`std::set_intersection`, param(#2), $1@0._symbols))
let	$11	eq($4, size($10))
let	$12	exists($1, {!$1@0._negated & $11 & $2 | $1@0._negated & $2 & $3 | $1@0._negated & $2 & $9})
let	$13	exists(param(#0), $12)
ret	firstval(param(#0), $12, firstval($1, {!$1@0._negated & $11 & $2 | $1@0._negated & $2 & $3 | $1@0._negated & $2 & $9}, ite([{!$1@0._negated & $11 & $2}, $10, {!$3 & $1@0._negated & $2 & $9}, $8, {$1@0._negated & $2 & $3}, param(#2)])))	$13
ret	fold(param(#0), $5, fold($1, $6, ite([{!$2 | $1@0._negated & $3}, $7, {!$1@0._negated & $2}, $10, {!$3 & $1@0._negated & $2}, $8]), none, false), none, false)	!$13
== NFA::intersect_edge_labels | NFA<u32> | (const NFA<u32>::state_t *, const NFA<u32>::state_t *, const std::vector<u32> &) |  | std::vector<u32>
-- file: include/pdaaal/NFA.h
-- id: 107
let	$1	list(param(#0))
let	$2	$1@0^._edges@0._symbols
let	$3	size(param(#2))
let	$4	new(`std::vector`)
let	$5	phi(#0, $4, #0)
let	$6	phi(#1, $5, #0)
let	$7	call(`std::set_union`, $6, call(`std::set_difference`, param(#2), $2))
let	$8	eq($3, size($7))
let	$9	$1@0^._edges@0._negated
let	$10	call(`std::set_union`, $6, call(`std::set_intersection`, param(#2), $2))
let	$11	eq(size($10), $3)
let	$12	call(`pdaaal::NFA::leads_to_by_epsilon`, $1@0^._edges@0._destination, param(#1))
let	$13	exists($1@0^._edges, {!$9 & $11 & $12 | $12 & $8 & $9 | $12 & $9 & empty($2)})
let	$14	exists($1, $13)
ret	firstval($1, $13, firstval($1@0^._edges, {!$9 & $11 & $12 | $12 & $8 & $9 | $12 & $9 & empty($2)}, ite([{!empty($2) & $12 & $8 & $9}, $7, {$12 & $9 & empty($2)}, param(#2), {!$9 & $11 & $12}, $10])))	$14
ret	fold($1, $4, fold($1@0^._edges, $5, ite([{!empty($2) & $12 & $9}, $7, {!$12 | $9 & empty($2)}, $6, {!$9 & $12}, $10]), none, false), none, false)	!$14
== NFA::operator= | NFA<u32> | (const NFA<u32> &) |  | NFA<u32> &
-- file: include/pdaaal/NFA.h
-- id: 108
let	$1	eq(addr(param(#0)), addr(self))
let	$2	self._accepting
let	$3	param(#0)._states
let	$4	foreach(self._states)
let	$5	self._states@0''^
let	$6	$5._edges@0._destination
let	$7	$5._backedges@0.#0
let	$8	param(#0)._accepting
let	$9	param(#0)._initial
do		do(`clear`, self._states)	!$1
do		do(`clear`, self._initial)	!$1
do		do(`clear`, $2)	!$1
do	foreach($3)	do(`push`, self._states, newobj($3@0^))	!$1
do	foreach($3)	set(L(#0)[$3@0], newobj($3@0^))	!$1
do	$4 ; foreach($5._edges)	set($6, L(#0)[$6'']')	!$1
do	$4 ; foreach($5._backedges)	set($7, L(#0)[$7'']')	!$1
do	foreach($8)	do(`push`, $2, L(#0)[$8@0]')	!$1
do	foreach($9)	do(`push`, self._initial, L(#0)[$9@0]')	!$1
do		do(`std::sort`, $2)	!$1
do		do(`std::sort`, self._initial)	!$1
dom		init(L(#0), new(`std::unordered_map`))	true
ret	self	true
== NFA::concat | NFA<u32> | (NFA<u32> &&) |  | void
-- file: include/pdaaal/NFA.h
-- id: 109
let	$1	param(#0)._states
let	$2	self._accepting
let	$3	param(#0)._initial
do	foreach($1)	do(`release`, $1@0)	true
do	foreach($1)	do(`push`, self._states, $1@0)	true
do	foreach($2) ; foreach($3)	do(`pdaaal::NFA::state_t::add_epsilon_edge`, $2@0^, $3@0)	true
do	foreach($2)	set($2@0^._accepting, false)	true
do		set($2, param(#0)._accepting)	true
== NFA::question_extend | NFA<u32> | () |  | void
-- file: include/pdaaal/NFA.h
-- id: 110
let	$1	new(`std::vector`)
let	$2	newobj(pdaaal::NFA::state_t{_accepting: false, _backedges: $1, _edges: $1})
let	$3	self._initial@0
let	$4	exists(self._initial, {!empty($3^._backedges)})
let	$5	empty(self._initial)
let	$6	foreach(self._initial)
let	$7	$3''^._accepting
do		do(`push`, self._states, $2)	$4 | $5
do	$6	do(`pdaaal::NFA::state_t::add_epsilon_edge`, $2^, $3)	$4
do		do(`clear`, self._initial)	$4 | $5
do		do(`push`, self._initial, $2)	$4 | $5
do	$6	do(`push`, self._accepting, $3'')	!$7''
do	$6	set($7, true)	true
== NFA::plus_extend | NFA<u32> | () |  | void
-- file: include/pdaaal/NFA.h
-- id: 111
let	$1	self._accepting
let	$2	foreach(self._initial)
let	$3	$1@0^._edges@0._epsilon
let	$4	self._initial@0
let	$5	eq($4, $1@0^._edges@0._destination')
do	foreach($1) ; $2 ; foreach($1@0^._edges)	set($3, true)	!$3' & $5
do	foreach($1) ; $2	do(`pdaaal::NFA::state_t::add_epsilon_edge`, $1@0^, $4)	!exists($1@0^._edges, $5)
== NFA::star_extend | NFA<u32> | () |  | void
-- file: include/pdaaal/NFA.h
-- id: 112
do		do(`pdaaal::NFA::question_extend`, self)	true
do		do(`pdaaal::NFA::plus_extend`, self)	true
== NFA::and_extend | NFA<u32> | (NFA<u32> &&) |  | void
-- file: include/pdaaal/NFA.h
-- id: 113
do		throw(`std::logic_error`)	true
== NFA::or_extend | NFA<u32> | (NFA<u32> &&) |  | void
-- file: include/pdaaal/NFA.h
-- id: 114
let	$1	param(#0)._states
let	$2	new(`std::vector`)
let	$3	newobj(pdaaal::NFA::state_t{_accepting: false, _backedges: $2, _edges: $2})
let	$4	param(#0)._initial
let	$5	param(#0)._accepting
do	foreach($1)	do(`release`, $1@0)	true
do	foreach($1)	do(`push`, self._states, $1@0)	true
do		do(`push`, self._states, $3)	true
do	foreach(self._initial)	do(`pdaaal::NFA::state_t::add_epsilon_edge`, $3^, self._initial@0)	true
do	foreach($4)	do(`pdaaal::NFA::state_t::add_epsilon_edge`, $3^, $4@0)	true
do		do(`clear`, self._initial)	true
do		do(`push`, self._initial, $3)	true
do	foreach($5)	do(`push`, self._accepting, $5@0)	true
== NFA::to_dot | NFA<u32> | (std::basic_ostream<char, std::char_traits<char>> &, std::function<void (std::basic_ostream<char, std::char_traits<char>> &, const u32 &)>) const |  | void
-- file: include/pdaaal/NFA.h
-- id: 115
let	$1	foreach(self._states)
let	$2	out(`<<`, param(#0), "\"")
let	$3	do(`operator<<`, param(#0), bitcast(`const void *`, self._states@0))
let	$4	self._states@0^
let	$5	foreach($4._edges)
let	$6	out(`<<`, param(#0), "\" -> \"")
let	$7	$4._edges@0._negated
let	$8	$4._edges@0._symbols
let	$9	$4._edges@0._epsilon
let	$10	foreach(self._initial)
do		out(`<<`, param(#0), "digraph NFA {\n")	true
do	$1	$2	true
do	$1	$3	true
do	$1	out(`<<`, param(#0), "\" [shape=")	true
do	$1	out(`<<`, param(#0), "double")	$4._accepting
do	$1	out(`<<`, param(#0), "circle];\n")	true
do	$1 ; $5	$2	true
do	$1 ; $5	$3	true
do	$1 ; $5	$6	true
do	$1 ; $5	do(`operator<<`, param(#0), bitcast(`const void *`, $4._edges@0._destination))	true
do	$1 ; $5	out(`<<`, param(#0), "\" [ label=\"")	true
do	$1 ; $5	out(`<<`, param(#0), "^")	!empty($8) & $7
do	$1 ; $5	out(`<<`, param(#0), "\\[")	!empty($8)
do	$1 ; $5 ; foreach($8)	out(`<<`, param(#0), ", ")	!phi(#2, true, #0)
do	$1 ; $5 ; foreach($8)	invoke(param(#1), param(#0)'', $8@0)	true
do	$1 ; $5	out(`<<`, param(#0), "\\]")	!empty($8)
do	$1 ; $5	out(`<<`, param(#0), "*")	$7 & empty($8)
do	$1 ; $5	out(`<<`, param(#0), " ")	!empty($8) & $9 | $7 & $9
do	$1 ; $5	out(`<<`, param(#0), "𝜀")	$9
do	$1 ; $5	out(`<<`, param(#0), "\"];\n")	true
dom	$10	out(`<<`, param(#0), "\"I")	true
dom	$10	do(`operator<<`, param(#0), bitcast(`const void *`, self._initial@0))	true
do	$10	$6	true
do	$10	out(`<<`, param(#0), "\";\n")	true
do	$10	out(`<<`, param(#0), "\" [style=invisible];\n")	true
do		out(`<<`, param(#0), "}\n")	true
== NFA::initial | NFA<u32> | () const |  | const std::vector<NFA<u32>::state_t *> &
-- file: include/pdaaal/NFA.h
-- id: 116
ret	self._initial	true
== NFA::accepting | NFA<u32> | () const |  | const std::vector<NFA<u32>::state_t *> &
-- file: include/pdaaal/NFA.h
-- id: 117
ret	self._accepting	true
== NFA::states | NFA<u32> | () |  | const std::vector<std::unique_ptr<NFA<u32>::state_t, std::default_delete<NFA<u32>::state_t>>> &
-- file: include/pdaaal/NFA.h
-- id: 118
ret	self._states	true
== NFA::state_t::state_t | NFA<std::string>::state_t | (bool) |  | void
-- file: include/pdaaal/NFA.h
-- same: 86
== NFA::state_t::has_non_epsilon | NFA<std::string>::state_t | () const |  | bool
-- file: include/pdaaal/NFA.h
-- same: 87
== NFA::state_t::add_epsilon_edge | NFA<std::string>::state_t | (NFA<std::string>::state_t *) |  | void
-- file: include/pdaaal/NFA.h
-- same: 88
== NFA::state_t::prelabels | NFA<std::string>::state_t | (const std::unordered_set<std::string, std::hash<std::string>, std::equal_to<std::string>> &) const |  | std::vector<std::string>
-- file: include/pdaaal/NFA.h
-- same: 89
== NFA::edge_t::edge_t | NFA<std::string>::edge_t | (bool, std::unordered_set<std::string, std::hash<std::string>, std::equal_to<std::string>> &, NFA<std::string>::state_t *, NFA<std::string>::state_t *, u64) |  | void
-- file: include/pdaaal/NFA.h
-- same: 90
== NFA::edge_t::edge_t | NFA<std::string>::edge_t | (NFA<std::string>::state_t *, NFA<std::string>::state_t *, u64, bool) |  | void
-- file: include/pdaaal/NFA.h
-- same: 91
== NFA::edge_t::empty | NFA<std::string>::edge_t | (u64) const |  | bool
-- file: include/pdaaal/NFA.h
-- same: 92
== NFA::edge_t::wildcard | NFA<std::string>::edge_t | (u64) const |  | bool
-- file: include/pdaaal/NFA.h
-- same: 93
== NFA::edge_t::contains | NFA<std::string>::edge_t | (const std::string &) const |  | bool
-- file: include/pdaaal/NFA.h
-- same: 94
== NFA::edge_t::follow_epsilon | NFA<std::string>::edge_t | () const |  | std::vector<NFA<std::string>::state_t *>
-- file: include/pdaaal/NFA.h
-- same: 95
== NFA::NFA | NFA<std::string> | (bool) |  | void
-- file: include/pdaaal/NFA.h
-- same: 96
== NFA::NFA | NFA<std::string> | (std::unordered_set<std::string, std::hash<std::string>, std::equal_to<std::string>> &&, bool) |  | void
-- file: include/pdaaal/NFA.h
-- same: 97
== NFA::compile | NFA<std::string> | () |  | void
-- file: include/pdaaal/NFA.h
-- same: 98
== NFA::NFA | NFA<std::string> | (const NFA<std::string> &) |  | void
-- file: include/pdaaal/NFA.h
-- same: 99
== NFA::empty_accept | NFA<std::string> | () const |  | bool
-- file: include/pdaaal/NFA.h
-- same: 100
== NFA::follow_epsilon | NFA<std::string> | (std::vector<NFA<std::string>::state_t *> &) | NFA<std::string>::state_t * | void
-- file: include/pdaaal/NFA.h
-- same: 101
== NFA::follow_epsilon | NFA<std::string> | (std::vector<const NFA<std::string>::state_t *> &) | const NFA<std::string>::state_t * | void
-- file: include/pdaaal/NFA.h
-- same: 101
== NFA::successor | NFA<std::string> | (const std::vector<const NFA<std::string>::state_t *> &, const std::string &) | const NFA<std::string>::state_t * | std::vector<const NFA<std::string>::state_t *>
-- file: include/pdaaal/NFA.h
-- same: 102
== NFA::has_as_successor | NFA<std::string> | (const std::vector<const NFA<std::string>::state_t *> &, const std::string &, const NFA<std::string>::state_t *) | const NFA<std::string>::state_t * | bool
-- file: include/pdaaal/NFA.h
-- same: 103
== NFA::has_as_successor | NFA<std::string> | (const NFA<std::string>::state_t *, const std::string &, const NFA<std::string>::state_t *) |  | bool
-- file: include/pdaaal/NFA.h
-- same: 104
== NFA::leads_to_by_epsilon | NFA<std::string> | (const NFA<std::string>::state_t *, const NFA<std::string>::state_t *) |  | bool
-- file: include/pdaaal/NFA.h
-- same: 105
== NFA::intersect_edge_labels | NFA<std::string> | (const std::vector<const NFA<std::string>::state_t *> &, const NFA<std::string>::state_t *, const std::vector<std::string> &) | const NFA<std::string>::state_t * | std::vector<std::string>
-- file: include/pdaaal/NFA.h
-- same: 106
== NFA::intersect_edge_labels | NFA<std::string> | (const NFA<std::string>::state_t *, const NFA<std::string>::state_t *, const std::vector<std::string> &) |  | std::vector<std::string>
-- file: include/pdaaal/NFA.h
-- same: 107
== NFA::operator= | NFA<std::string> | (const NFA<std::string> &) |  | NFA<std::string> &
-- file: include/pdaaal/NFA.h
-- same: 108
== NFA::concat | NFA<std::string> | (NFA<std::string> &&) |  | void
-- file: include/pdaaal/NFA.h
-- same: 109
== NFA::question_extend | NFA<std::string> | () |  | void
-- file: include/pdaaal/NFA.h
-- same: 110
== NFA::plus_extend | NFA<std::string> | () |  | void
-- file: include/pdaaal/NFA.h
-- same: 111
== NFA::star_extend | NFA<std::string> | () |  | void
-- file: include/pdaaal/NFA.h
-- same: 112
== NFA::and_extend | NFA<std::string> | (NFA<std::string> &&) |  | void
-- file: include/pdaaal/NFA.h
-- same: 113
== NFA::or_extend | NFA<std::string> | (NFA<std::string> &&) |  | void
-- file: include/pdaaal/NFA.h
-- same: 114
== NFA::to_dot | NFA<std::string> | (std::basic_ostream<char, std::char_traits<char>> &, std::function<void (std::basic_ostream<char, std::char_traits<char>> &, const std::string &)>) const |  | void
-- file: include/pdaaal/NFA.h
-- same: 115
== NFA::initial | NFA<std::string> | () const |  | const std::vector<NFA<std::string>::state_t *> &
-- file: include/pdaaal/NFA.h
-- same: 116
== NFA::accepting | NFA<std::string> | () const |  | const std::vector<NFA<std::string>::state_t *> &
-- file: include/pdaaal/NFA.h
-- same: 117
== NFA::states | NFA<std::string> | () |  | const std::vector<std::unique_ptr<NFA<std::string>::state_t, std::default_delete<NFA<std::string>::state_t>>> &
-- file: include/pdaaal/NFA.h
-- same: 118
== i::PreStarSaturation::weighted_edge_t::weighted_edge_t | i::PreStarSaturation<W0, true, false>::weighted_edge_t | (u64, u32, u64, int &&, i::trace_t) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 50
== i::PreStarSaturation::weighted_edge_t_comp::operator() | i::PreStarSaturation<W0, true, false>::weighted_edge_t_comp | (const i::PreStarSaturation<W0, true, false>::weighted_edge_t &, const i::PreStarSaturation<W0, true, false>::weighted_edge_t &) |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 119
ret	false	true
== i::PreStarSaturation::PreStarSaturation | i::PreStarSaturation<W0, true, false> | (i::PAutomaton<W0, TI::Single> &, const std::function<bool (u64, u32, u64, i::trace_t, const bool &)> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 120
let	$1	self._automaton
let	$2	addrof(param(#0))
let	$3	self._pda_states
let	$4	addrof($1._pda._states)
let	$5	size($2._states)
let	$6	call(`pdaaal::internal::PDA::number_of_labels`, $2._pda)
let	$7	ctor(`std::vector`, $5)
let	$8	foreach($1._states)
let	$9	$1._states@0'^._edges
let	$10	$1._states@0'^._id'
let	$11	$3[$10]._pre_states
let	$12	$3[$11@0']._rules
let	$13	range(call(`std::lower_bound`, begin($12), end($12), $10, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($12))
let	$14	foreach(range(0, $6))
let	$15	$1._states[$11@0']'^._edges
let	$16	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: lin(#0, $13@0, mul(#-1, begin($12))), _state: 18446744073709551615}
let	$17	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $13@0^.#0._operation)
let	$18	eq($10, $13@0^.#0._to)
let	$19	lt($10, size($4))
let	$20	self._popped[$10]
let	$21	$1._states@0'^._accepting'
let	$22	$13@0^.#1._wildcard
let	$23	contains($15', $10, range(0, $6)@0)
let	$24	set(self._found, true)
let	$25	$13@0^.#1._labels
let	$26	contains($15', $10, $25@0)
do		set($1, $2)	true
do		set(self._early_termination, param(#1))	true
do		set($3, $4)	true
do		set(self._n_pda_states, size($4))	true
do		set(self._n_automaton_states, $5)	true
do		set(self._n_pda_labels, $6)	true
do		set(self._workset, new(`std::stack`))	true
do		set(self._rel, $7)	true
do		set(self._delta_prime, $7)	true
do		set(self._found, false)	true
do		set(self._minpath, new(`std::vector`))	true
do		set(self._popped, ctor(`std::vector`, size($4)))	true
do	$8 ; foreach($9) ; foreach($9@0.#1)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $10, _label: $9@0.#1@0.#0', _to: $9@0.#0'})	true
do	$8 ; foreach($11) ; foreach($13) ; $14	do(`insert`, $15, $10, range(0, $6)@0, $16)	!$20' & $17 & $18 & $19 & $21 & $22
do	$8 ; foreach($11) ; foreach($13) ; $14	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $11@0', _label: range(0, $6)@0, _to: $10})	!$20' & !$23 & $17 & $18 & $19 & $21 & $22
do	$8 ; foreach($11) ; foreach($13) ; $14	invoke(param(#1), $11@0', range(0, $6)@0, $10, $16, false)	!$20' & !$23 & !self._found' & $17 & $18 & $19 & $21 & $22
do	$8 ; foreach($11) ; foreach($13) ; $14	$24	!$20' & !$23 & !self._found' & $17 & $18 & $19 & $21 & $22 & res_invoke(param(#1), $11@0', range(0, $6)@0, $10, $16, false)
do	$8 ; foreach($11) ; foreach($13) ; foreach($25)	do(`insert`, $15, $10, $25@0, $16)	!$20' & !$22 & $17 & $18 & $19 & $21
do	$8 ; foreach($11) ; foreach($13) ; foreach($25)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $11@0', _label: $25@0, _to: $10})	!$20' & !$22 & !$26 & $17 & $18 & $19 & $21
do	$8 ; foreach($11) ; foreach($13) ; foreach($25)	invoke(param(#1), $11@0', $25@0, $10, $16, false)	!$20' & !$22 & !$26 & !self._found' & $17 & $18 & $19 & $21
do	$8 ; foreach($11) ; foreach($13) ; foreach($25)	$24	!$20' & !$22 & !$26 & !self._found' & $17 & $18 & $19 & $21 & res_invoke(param(#1), $11@0', $25@0, $10, $16, false)
do	$8 ; foreach($11) ; foreach($13)	exit	!$18 & !$20' & $19 & $21
do	$8	set($20, true)	!$20' & $19 & $21
== i::PreStarSaturation::has_negative_weight | i::PreStarSaturation<W0, true, false> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 121
ret	false	true
== i::PreStarSaturation::step | i::PreStarSaturation<W0, true, false> | () |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 122
let	$1	top(self._workset)
let	$2	self._delta_prime
let	$3	foreach($2[$1._from])
let	$4	self._automaton._states
let	$5	$2[$1._from]@0.#0
let	$6	$2[$1._from]@0.#1
let	$7	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $6, _state: $1._from}
let	$8	self._pda_states
let	$9	call(`pdaaal::internal::labels_t::contains`, $8[$5]._rules[$6].#1, $1._label)
let	$10	contains($4[$5]^._edges', $1._to, $1._label)
let	$11	self._early_termination
let	$12	set(self._found, true)
let	$13	$8[$1._from]._pre_states
let	$14	$8[$13@0]._rules
let	$15	range(call(`std::lower_bound`, begin($14), end($14), $1._from, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($14))
let	$16	range(0, self._n_pda_labels)
let	$17	$4[$13@0]^._edges
let	$18	lin(#0, $15@0, mul(#-1, begin($14)))
let	$19	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $18, _state: 18446744073709551615}
let	$20	self._popped[$1._from]
let	$21	$15@0^.#1._wildcard
let	$22	eq($15@0^.#0._to, $1._from)
let	$23	lt($1._from, self._n_pda_states)
let	$24	$15@0^.#0._operation
let	$25	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $24)
let	$26	contains($17', $1._from, $16@0)
let	$27	contains($17', $1._to, $16@0)
let	$28	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $24)
let	$29	eq($1._label, $15@0^.#0._op_label)
let	$30	$15@0^.#1._labels
let	$31	contains($17', $1._from, $30@0)
let	$32	contains($17', $1._to, $30@0)
let	$33	call(`pdaaal::internal::labels_t::contains`, $15@0^.#1, $1._label)
let	$34	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $24)
let	$35	contains($17', $1._to, $1._label)
let	$36	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $24)
let	$37	self._rel[$1._to]
let	$38	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $18, _state: $1._to}
let	$39	call(`pdaaal::internal::labels_t::contains`, $15@0^.#1, $37@0.#1')
let	$40	contains($17', $37@0.#0', $37@0.#1')
do		do(`pop`, self._workset)	true
do		do(`push`, self._rel[$1._from], tuple{#0: $1._to, #1: $1._label})	true
do	$3	do(`insert`, $4[$5]^._edges, $1._to, $1._label, $7)	$9
do	$3	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $5, _label: $1._label, _to: $1._to})	!$10 & $9
do	$3	invoke($11, $5, $1._label, $1._to, $7, false)	!$10 & !self._found' & $9
do	$3	$12	!$10 & !self._found' & $9 & res_invoke($11, $5, $1._label, $1._to, $7, false)
do	foreach($13) ; foreach($15) ; foreach($16)	do(`insert`, $17, $1._from, $16@0, $19)	!$20 & $21 & $22 & $23 & $25
do	foreach($13) ; foreach($15) ; foreach($16)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $13@0, _label: $16@0, _to: $1._from})	!$20 & !$26 & $21 & $22 & $23 & $25
do	foreach($13) ; foreach($15) ; foreach($16)	invoke($11, $13@0, $16@0, $1._from, $19, false)	!$20 & !$26 & !self._found' & $21 & $22 & $23 & $25
dom	foreach($13) ; foreach($15) ; foreach($16)	$12	!$20 & !$26 & !self._found' & $21 & $22 & $23 & $25 & res_invoke($11, $13@0, $16@0, $1._from, $19, false) | !$27 & !self._found' & $21 & $22 & $23 & $28 & $29 & res_invoke($11, $13@0, $16@0, $1._to, $19, false)
do	foreach($13) ; foreach($15) ; foreach($30)	do(`insert`, $17, $1._from, $30@0, $19)	!$20 & !$21 & $22 & $23 & $25
do	foreach($13) ; foreach($15) ; foreach($30)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $13@0, _label: $30@0, _to: $1._from})	!$20 & !$21 & !$31 & $22 & $23 & $25
do	foreach($13) ; foreach($15) ; foreach($30)	invoke($11, $13@0, $30@0, $1._from, $19, false)	!$20 & !$21 & !$31 & !self._found' & $22 & $23 & $25
dom	foreach($13) ; foreach($15) ; foreach($30)	$12	!$20 & !$21 & !$31 & !self._found' & $22 & $23 & $25 & res_invoke($11, $13@0, $30@0, $1._from, $19, false) | !$21 & !$32 & !self._found' & $22 & $23 & $28 & $29 & res_invoke($11, $13@0, $30@0, $1._to, $19, false)
do	foreach($13) ; foreach($15) ; foreach($16)	do(`insert`, $17, $1._to, $16@0, $19)	$21 & $22 & $23 & $28 & $29
do	foreach($13) ; foreach($15) ; foreach($16)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $13@0, _label: $16@0, _to: $1._to})	!$27 & $21 & $22 & $23 & $28 & $29
do	foreach($13) ; foreach($15) ; foreach($16)	invoke($11, $13@0, $16@0, $1._to, $19, false)	!$27 & !self._found' & $21 & $22 & $23 & $28 & $29
do	foreach($13) ; foreach($15) ; foreach($30)	do(`insert`, $17, $1._to, $30@0, $19)	!$21 & $22 & $23 & $28 & $29
do	foreach($13) ; foreach($15) ; foreach($30)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $13@0, _label: $30@0, _to: $1._to})	!$21 & !$32 & $22 & $23 & $28 & $29
do	foreach($13) ; foreach($15) ; foreach($30)	invoke($11, $13@0, $30@0, $1._to, $19, false)	!$21 & !$32 & !self._found' & $22 & $23 & $28 & $29
do	foreach($13) ; foreach($15)	do(`insert`, $17, $1._to, $1._label, $19)	$22 & $23 & $33 & $34
do	foreach($13) ; foreach($15)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $13@0, _label: $1._label, _to: $1._to})	!$35 & $22 & $23 & $33 & $34
do	foreach($13) ; foreach($15)	invoke($11, $13@0, $1._label, $1._to, $19, false)	!$35 & !self._found' & $22 & $23 & $33 & $34
do	foreach($13) ; foreach($15)	do(`push`, $2[$1._to], tuple{#0: $13@0, #1: $18})	$22 & $23 & $29 & $36
do	foreach($13) ; foreach($15)	$12	!$35 & !self._found' & $22 & $23 & $33 & $34 & res_invoke($11, $13@0, $1._label, $1._to, $19, false)
do	foreach($13) ; foreach($15) ; foreach($37)	do(`insert`, $17, $37@0.#0', $37@0.#1', $38)	$22 & $23 & $29 & $36 & $39
do	foreach($13) ; foreach($15) ; foreach($37)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $13@0, _label: $37@0.#1', _to: $37@0.#0'})	!$40 & $22 & $23 & $29 & $36 & $39
do	foreach($13) ; foreach($15) ; foreach($37)	invoke($11, $13@0, $37@0.#1', $37@0.#0', $38, false)	!$40 & !self._found' & $22 & $23 & $29 & $36 & $39
do	foreach($13) ; foreach($15) ; foreach($37)	$12	!$40 & !self._found' & $22 & $23 & $29 & $36 & $39 & res_invoke($11, $13@0, $37@0.#1', $37@0.#0', $38, false)
do	foreach($13) ; foreach($15)	exit	!$22 & $23
do		set($20, true)	!$20 & $23
== i::PreStarSaturation::workset_empty | i::PreStarSaturation<W0, true, false> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 48
== i::PreStarSaturation::found | i::PreStarSaturation<W0, true, false> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 49
== i::PreStarSaturation::weighted_edge_t::weighted_edge_t | i::PreStarSaturation<W0, false, false>::weighted_edge_t | (u64, u32, u64, int &&, i::trace_t) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 50
== i::PreStarSaturation::weighted_edge_t_comp::operator() | i::PreStarSaturation<W0, false, false>::weighted_edge_t_comp | (const i::PreStarSaturation<W0, false, false>::weighted_edge_t &, const i::PreStarSaturation<W0, false, false>::weighted_edge_t &) |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 119
== i::PreStarSaturation::PreStarSaturation | i::PreStarSaturation<W0, false, false> | (i::PAutomaton<W0, TI::Single> &, const std::function<bool (u64, u32, u64, i::trace_t, const bool &)> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 123
let	$1	self._automaton
let	$2	addrof(param(#0))
let	$3	self._pda_states
let	$4	addrof($1._pda._states)
let	$5	size($2._states)
let	$6	call(`pdaaal::internal::PDA::number_of_labels`, $2._pda)
let	$7	ctor(`std::vector`, $5)
let	$8	foreach($1._states)
let	$9	$1._states@0'^._edges
let	$10	$1._states@0'^._id'
let	$11	$3[$10]._pre_states
let	$12	$3[$11@0']._rules
let	$13	range(call(`std::lower_bound`, begin($12), end($12), $10, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($12))
let	$14	foreach(range(0, $6))
let	$15	$1._states[$11@0']'^._edges
let	$16	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: lin(#0, $13@0, mul(#-1, begin($12))), _state: 18446744073709551615}
let	$17	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $13@0^.#0._operation)
let	$18	eq($10, $13@0^.#0._to)
let	$19	lt($10, size($4))
let	$20	self._popped[$10]
let	$21	$1._states@0'^._accepting'
let	$22	$13@0^.#1._wildcard
let	$23	$13@0^.#1._labels
do		set($1, $2)	true
do		set(self._early_termination, param(#1))	true
do		set($3, $4)	true
do		set(self._n_pda_states, size($4))	true
do		set(self._n_automaton_states, $5)	true
do		set(self._n_pda_labels, $6)	true
do		set(self._workset, new(`std::stack`))	true
do		set(self._rel, $7)	true
do		set(self._delta_prime, $7)	true
do		set(self._found, false)	true
do		set(self._minpath, new(`std::vector`))	true
do		set(self._popped, ctor(`std::vector`, size($4)))	true
do	$8 ; foreach($9) ; foreach($9@0.#1)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $10, _label: $9@0.#1@0.#0', _to: $9@0.#0'})	true
do	$8 ; foreach($11) ; foreach($13) ; $14	do(`insert`, $15, $10, range(0, $6)@0, $16)	!$20' & $17 & $18 & $19 & $21 & $22
do	$8 ; foreach($11) ; foreach($13) ; $14	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $11@0', _label: range(0, $6)@0, _to: $10})	!$20' & !contains($15', $10, range(0, $6)@0) & $17 & $18 & $19 & $21 & $22
do	$8 ; foreach($11) ; foreach($13) ; foreach($23)	do(`insert`, $15, $10, $23@0, $16)	!$20' & !$22 & $17 & $18 & $19 & $21
do	$8 ; foreach($11) ; foreach($13) ; foreach($23)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $11@0', _label: $23@0, _to: $10})	!$20' & !$22 & !contains($15', $10, $23@0) & $17 & $18 & $19 & $21
do	$8 ; foreach($11) ; foreach($13)	exit	!$18 & !$20' & $19 & $21
do	$8	set($20, true)	!$20' & $19 & $21
== i::PreStarSaturation::has_negative_weight | i::PreStarSaturation<W0, false, false> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 121
== i::PreStarSaturation::step | i::PreStarSaturation<W0, false, false> | () |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 124
let	$1	top(self._workset)
let	$2	self._delta_prime
let	$3	foreach($2[$1._from])
let	$4	self._automaton._states
let	$5	$2[$1._from]@0.#0
let	$6	$2[$1._from]@0.#1
let	$7	self._pda_states
let	$8	call(`pdaaal::internal::labels_t::contains`, $7[$5]._rules[$6].#1, $1._label)
let	$9	$7[$1._from]._pre_states
let	$10	$7[$9@0]._rules
let	$11	range(call(`std::lower_bound`, begin($10), end($10), $1._from, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($10))
let	$12	range(0, self._n_pda_labels)
let	$13	$4[$9@0]^._edges
let	$14	lin(#0, $11@0, mul(#-1, begin($10)))
let	$15	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $14, _state: 18446744073709551615}
let	$16	self._popped[$1._from]
let	$17	$11@0^.#1._wildcard
let	$18	eq($11@0^.#0._to, $1._from)
let	$19	lt($1._from, self._n_pda_states)
let	$20	$11@0^.#0._operation
let	$21	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $20)
let	$22	$11@0^.#1._labels
let	$23	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $20)
let	$24	eq($1._label, $11@0^.#0._op_label)
let	$25	call(`pdaaal::internal::labels_t::contains`, $11@0^.#1, $1._label)
let	$26	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $20)
let	$27	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $20)
let	$28	self._rel[$1._to]
let	$29	call(`pdaaal::internal::labels_t::contains`, $11@0^.#1, $28@0.#1')
do		do(`pop`, self._workset)	true
do		do(`push`, self._rel[$1._from], tuple{#0: $1._to, #1: $1._label})	true
do	$3	do(`insert`, $4[$5]^._edges, $1._to, $1._label, pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $6, _state: $1._from})	$8
do	$3	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $5, _label: $1._label, _to: $1._to})	!contains($4[$5]^._edges', $1._to, $1._label) & $8
do	foreach($9) ; foreach($11) ; foreach($12)	do(`insert`, $13, $1._from, $12@0, $15)	!$16 & $17 & $18 & $19 & $21
do	foreach($9) ; foreach($11) ; foreach($12)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $9@0, _label: $12@0, _to: $1._from})	!$16 & !contains($13', $1._from, $12@0) & $17 & $18 & $19 & $21
do	foreach($9) ; foreach($11) ; foreach($22)	do(`insert`, $13, $1._from, $22@0, $15)	!$16 & !$17 & $18 & $19 & $21
do	foreach($9) ; foreach($11) ; foreach($22)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $9@0, _label: $22@0, _to: $1._from})	!$16 & !$17 & !contains($13', $1._from, $22@0) & $18 & $19 & $21
do	foreach($9) ; foreach($11) ; foreach($12)	do(`insert`, $13, $1._to, $12@0, $15)	$17 & $18 & $19 & $23 & $24
do	foreach($9) ; foreach($11) ; foreach($12)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $9@0, _label: $12@0, _to: $1._to})	!contains($13', $1._to, $12@0) & $17 & $18 & $19 & $23 & $24
do	foreach($9) ; foreach($11) ; foreach($22)	do(`insert`, $13, $1._to, $22@0, $15)	!$17 & $18 & $19 & $23 & $24
do	foreach($9) ; foreach($11) ; foreach($22)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $9@0, _label: $22@0, _to: $1._to})	!$17 & !contains($13', $1._to, $22@0) & $18 & $19 & $23 & $24
do	foreach($9) ; foreach($11)	do(`insert`, $13, $1._to, $1._label, $15)	$18 & $19 & $25 & $26
do	foreach($9) ; foreach($11)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $9@0, _label: $1._label, _to: $1._to})	!contains($13', $1._to, $1._label) & $18 & $19 & $25 & $26
do	foreach($9) ; foreach($11)	do(`push`, $2[$1._to], tuple{#0: $9@0, #1: $14})	$18 & $19 & $24 & $27
do	foreach($9) ; foreach($11) ; foreach($28)	do(`insert`, $13, $28@0.#0', $28@0.#1', pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $14, _state: $1._to})	$18 & $19 & $24 & $27 & $29
do	foreach($9) ; foreach($11) ; foreach($28)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $9@0, _label: $28@0.#1', _to: $28@0.#0'})	!contains($13', $28@0.#0', $28@0.#1') & $18 & $19 & $24 & $27 & $29
do	foreach($9) ; foreach($11)	exit	!$18 & $19
do		set($16, true)	!$16 & $19
== i::PreStarSaturation::workset_empty | i::PreStarSaturation<W0, false, false> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 48
== i::PreStarSaturation::found | i::PreStarSaturation<W0, false, false> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 49
== i::PreStarSaturation::weighted_edge_t::weighted_edge_t | i::PreStarSaturation<Wu, true, false>::weighted_edge_t | (u64, u32, u64, u32 &&, i::trace_t) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 50
== i::PreStarSaturation::weighted_edge_t_comp::operator() | i::PreStarSaturation<Wu, true, false>::weighted_edge_t_comp | (const i::PreStarSaturation<Wu, true, false>::weighted_edge_t &, const i::PreStarSaturation<Wu, true, false>::weighted_edge_t &) |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 51
== i::PreStarSaturation::PreStarSaturation | i::PreStarSaturation<Wu, true, false> | (i::PAutomaton<Wu, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &)> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 125
let	$1	self._automaton
let	$2	addrof(param(#0))
let	$3	self._pda_states
let	$4	addrof($1._pda._states)
let	$5	size($2._states)
let	$6	call(`pdaaal::internal::PDA::number_of_labels`, $2._pda)
let	$7	ctor(`std::vector`, $5)
let	$8	foreach($1._states)
let	$9	$1._states@0'^._edges
let	$10	$1._states@0'^._id'
let	$11	$3[$10]._pre_states
let	$12	$3[$11@0']._rules
let	$13	range(call(`std::lower_bound`, begin($12), end($12), $10, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($12))
let	$14	foreach(range(0, $6))
let	$15	$1._states[$11@0']'^._edges
let	$16	tuple{#0: pdaaal::internal::trace_t{_label: 4294967294, _rule_id: lin(#0, $13@0, mul(#-1, begin($12))), _state: 18446744073709551615}, #1: 0}
let	$17	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $13@0^.#0._operation)
let	$18	eq($10, $13@0^.#0._to)
let	$19	lt($10, size($4))
let	$20	self._popped[$10]
let	$21	$1._states@0'^._accepting'
let	$22	$13@0^.#1._wildcard
let	$23	contains($15', $10, range(0, $6)@0)
let	$24	set(self._found, true)
let	$25	$13@0^.#1._labels
let	$26	contains($15', $10, $25@0)
do		set($1, $2)	true
do		set(self._early_termination, param(#1))	true
do		set($3, $4)	true
do		set(self._n_pda_states, size($4))	true
do		set(self._n_automaton_states, $5)	true
do		set(self._n_pda_labels, $6)	true
do		set(self._workset, new(`std::stack`))	true
do		set(self._rel, $7)	true
do		set(self._delta_prime, $7)	true
do		set(self._found, false)	true
do		set(self._minpath, new(`std::vector`))	true
do		set(self._popped, ctor(`std::vector`, size($4)))	true
do	$8 ; foreach($9) ; foreach($9@0.#1)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $10, _label: $9@0.#1@0.#0', _to: $9@0.#0'})	true
do	$8 ; foreach($11) ; foreach($13) ; $14	do(`insert`, $15, $10, range(0, $6)@0, $16)	!$20' & $17 & $18 & $19 & $21 & $22
do	$8 ; foreach($11) ; foreach($13) ; $14	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $11@0', _label: range(0, $6)@0, _to: $10})	!$20' & !$23 & $17 & $18 & $19 & $21 & $22
do	$8 ; foreach($11) ; foreach($13) ; $14	invoke(param(#1), $11@0', range(0, $6)@0, $10, $16, 0)	!$20' & !$23 & !self._found' & $17 & $18 & $19 & $21 & $22
do	$8 ; foreach($11) ; foreach($13) ; $14	$24	!$20' & !$23 & !self._found' & $17 & $18 & $19 & $21 & $22 & res_invoke(param(#1), $11@0', range(0, $6)@0, $10, $16, 0)
do	$8 ; foreach($11) ; foreach($13) ; foreach($25)	do(`insert`, $15, $10, $25@0, $16)	!$20' & !$22 & $17 & $18 & $19 & $21
do	$8 ; foreach($11) ; foreach($13) ; foreach($25)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $11@0', _label: $25@0, _to: $10})	!$20' & !$22 & !$26 & $17 & $18 & $19 & $21
do	$8 ; foreach($11) ; foreach($13) ; foreach($25)	invoke(param(#1), $11@0', $25@0, $10, $16, 0)	!$20' & !$22 & !$26 & !self._found' & $17 & $18 & $19 & $21
do	$8 ; foreach($11) ; foreach($13) ; foreach($25)	$24	!$20' & !$22 & !$26 & !self._found' & $17 & $18 & $19 & $21 & res_invoke(param(#1), $11@0', $25@0, $10, $16, 0)
do	$8 ; foreach($11) ; foreach($13)	exit	!$18 & !$20' & $19 & $21
do	$8	set($20, true)	!$20' & $19 & $21
== i::PreStarSaturation::has_negative_weight | i::PreStarSaturation<Wu, true, false> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 121
== i::PreStarSaturation::step | i::PreStarSaturation<Wu, true, false> | () |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 126
let	$1	top(self._workset)
let	$2	self._delta_prime
let	$3	foreach($2[$1._from])
let	$4	self._automaton._states
let	$5	$2[$1._from]@0.#0
let	$6	$2[$1._from]@0.#1
let	$7	tuple{#0: pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $6, _state: $1._from}, #1: 0}
let	$8	self._pda_states
let	$9	call(`pdaaal::internal::labels_t::contains`, $8[$5]._rules[$6].#1, $1._label)
let	$10	contains($4[$5]^._edges', $1._to, $1._label)
let	$11	self._early_termination
let	$12	set(self._found, true)
let	$13	$8[$1._from]._pre_states
let	$14	$8[$13@0]._rules
let	$15	range(call(`std::lower_bound`, begin($14), end($14), $1._from, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($14))
let	$16	range(0, self._n_pda_labels)
let	$17	$4[$13@0]^._edges
let	$18	lin(#0, $15@0, mul(#-1, begin($14)))
let	$19	tuple{#0: pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $18, _state: 18446744073709551615}, #1: 0}
let	$20	self._popped[$1._from]
let	$21	$15@0^.#1._wildcard
let	$22	eq($15@0^.#0._to, $1._from)
let	$23	lt($1._from, self._n_pda_states)
let	$24	$15@0^.#0._operation
let	$25	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $24)
let	$26	contains($17', $1._from, $16@0)
let	$27	contains($17', $1._to, $16@0)
let	$28	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $24)
let	$29	eq($1._label, $15@0^.#0._op_label)
let	$30	$15@0^.#1._labels
let	$31	contains($17', $1._from, $30@0)
let	$32	contains($17', $1._to, $30@0)
let	$33	call(`pdaaal::internal::labels_t::contains`, $15@0^.#1, $1._label)
let	$34	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $24)
let	$35	contains($17', $1._to, $1._label)
let	$36	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $24)
let	$37	self._rel[$1._to]
let	$38	tuple{#0: pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $18, _state: $1._to}, #1: 0}
let	$39	call(`pdaaal::internal::labels_t::contains`, $15@0^.#1, $37@0.#1')
let	$40	contains($17', $37@0.#0', $37@0.#1')
do		do(`pop`, self._workset)	true
do		do(`push`, self._rel[$1._from], tuple{#0: $1._to, #1: $1._label})	true
do	$3	do(`insert`, $4[$5]^._edges, $1._to, $1._label, $7)	$9
do	$3	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $5, _label: $1._label, _to: $1._to})	!$10 & $9
do	$3	invoke($11, $5, $1._label, $1._to, $7, 0)	!$10 & !self._found' & $9
do	$3	$12	!$10 & !self._found' & $9 & res_invoke($11, $5, $1._label, $1._to, $7, 0)
do	foreach($13) ; foreach($15) ; foreach($16)	do(`insert`, $17, $1._from, $16@0, $19)	!$20 & $21 & $22 & $23 & $25
do	foreach($13) ; foreach($15) ; foreach($16)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $13@0, _label: $16@0, _to: $1._from})	!$20 & !$26 & $21 & $22 & $23 & $25
do	foreach($13) ; foreach($15) ; foreach($16)	invoke($11, $13@0, $16@0, $1._from, $19, 0)	!$20 & !$26 & !self._found' & $21 & $22 & $23 & $25
dom	foreach($13) ; foreach($15) ; foreach($16)	$12	!$20 & !$26 & !self._found' & $21 & $22 & $23 & $25 & res_invoke($11, $13@0, $16@0, $1._from, $19, 0) | !$27 & !self._found' & $21 & $22 & $23 & $28 & $29 & res_invoke($11, $13@0, $16@0, $1._to, $19, 0)
do	foreach($13) ; foreach($15) ; foreach($30)	do(`insert`, $17, $1._from, $30@0, $19)	!$20 & !$21 & $22 & $23 & $25
do	foreach($13) ; foreach($15) ; foreach($30)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $13@0, _label: $30@0, _to: $1._from})	!$20 & !$21 & !$31 & $22 & $23 & $25
do	foreach($13) ; foreach($15) ; foreach($30)	invoke($11, $13@0, $30@0, $1._from, $19, 0)	!$20 & !$21 & !$31 & !self._found' & $22 & $23 & $25
dom	foreach($13) ; foreach($15) ; foreach($30)	$12	!$20 & !$21 & !$31 & !self._found' & $22 & $23 & $25 & res_invoke($11, $13@0, $30@0, $1._from, $19, 0) | !$21 & !$32 & !self._found' & $22 & $23 & $28 & $29 & res_invoke($11, $13@0, $30@0, $1._to, $19, 0)
do	foreach($13) ; foreach($15) ; foreach($16)	do(`insert`, $17, $1._to, $16@0, $19)	$21 & $22 & $23 & $28 & $29
do	foreach($13) ; foreach($15) ; foreach($16)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $13@0, _label: $16@0, _to: $1._to})	!$27 & $21 & $22 & $23 & $28 & $29
do	foreach($13) ; foreach($15) ; foreach($16)	invoke($11, $13@0, $16@0, $1._to, $19, 0)	!$27 & !self._found' & $21 & $22 & $23 & $28 & $29
do	foreach($13) ; foreach($15) ; foreach($30)	do(`insert`, $17, $1._to, $30@0, $19)	!$21 & $22 & $23 & $28 & $29
do	foreach($13) ; foreach($15) ; foreach($30)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $13@0, _label: $30@0, _to: $1._to})	!$21 & !$32 & $22 & $23 & $28 & $29
do	foreach($13) ; foreach($15) ; foreach($30)	invoke($11, $13@0, $30@0, $1._to, $19, 0)	!$21 & !$32 & !self._found' & $22 & $23 & $28 & $29
do	foreach($13) ; foreach($15)	do(`insert`, $17, $1._to, $1._label, $19)	$22 & $23 & $33 & $34
do	foreach($13) ; foreach($15)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $13@0, _label: $1._label, _to: $1._to})	!$35 & $22 & $23 & $33 & $34
do	foreach($13) ; foreach($15)	invoke($11, $13@0, $1._label, $1._to, $19, 0)	!$35 & !self._found' & $22 & $23 & $33 & $34
do	foreach($13) ; foreach($15)	do(`push`, $2[$1._to], tuple{#0: $13@0, #1: $18})	$22 & $23 & $29 & $36
do	foreach($13) ; foreach($15)	$12	!$35 & !self._found' & $22 & $23 & $33 & $34 & res_invoke($11, $13@0, $1._label, $1._to, $19, 0)
do	foreach($13) ; foreach($15) ; foreach($37)	do(`insert`, $17, $37@0.#0', $37@0.#1', $38)	$22 & $23 & $29 & $36 & $39
do	foreach($13) ; foreach($15) ; foreach($37)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $13@0, _label: $37@0.#1', _to: $37@0.#0'})	!$40 & $22 & $23 & $29 & $36 & $39
do	foreach($13) ; foreach($15) ; foreach($37)	invoke($11, $13@0, $37@0.#1', $37@0.#0', $38, 0)	!$40 & !self._found' & $22 & $23 & $29 & $36 & $39
do	foreach($13) ; foreach($15) ; foreach($37)	$12	!$40 & !self._found' & $22 & $23 & $29 & $36 & $39 & res_invoke($11, $13@0, $37@0.#1', $37@0.#0', $38, 0)
do	foreach($13) ; foreach($15)	exit	!$22 & $23
do		set($20, true)	!$20 & $23
== i::PreStarSaturation::workset_empty | i::PreStarSaturation<Wu, true, false> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 48
== i::PreStarSaturation::found | i::PreStarSaturation<Wu, true, false> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 49
== i::PreStarSaturation::weighted_edge_t::weighted_edge_t | i::PreStarSaturation<Wu, true, true>::weighted_edge_t | (u64, u32, u64, u32 &&, i::trace_t) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 50
== i::PreStarSaturation::weighted_edge_t_comp::operator() | i::PreStarSaturation<Wu, true, true>::weighted_edge_t_comp | (const i::PreStarSaturation<Wu, true, true>::weighted_edge_t &, const i::PreStarSaturation<Wu, true, true>::weighted_edge_t &) |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 51
== i::PreStarSaturation::PreStarSaturation | i::PreStarSaturation<Wu, true, true> | (i::PAutomaton<Wu, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &)> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 52
== i::PreStarSaturation::has_negative_weight | i::PreStarSaturation<Wu, true, true> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 121
== i::PreStarSaturation::step | i::PreStarSaturation<Wu, true, true> | () |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 127
let	$1	self._early_termination
let	$2	top(self._workset)
let	$3	self._automaton._states
let	$4	$3[$2._from]^._edges
let	$5	$4[$2._to, $2._label].#1
let	$6	tuple{#0: $2._trace, #1: $5}
let	$7	self._minpath[$2._to]
let	$8	call(`pdaaal::details::weight_impl::less`, call(`pdaaal::details::weight_impl::add`, $5, $7), $2._weight)
let	$9	contains($4, $2._to, $2._label)
let	$10	tuple{#0: $2._trace, #1: 0^.#1}
let	$11	call(`pdaaal::details::weight_impl::less`, call(`pdaaal::details::weight_impl::add`, 0^.#1, $7), $2._weight)
let	$12	self._minpath[$2._from]
let	$13	self._popped[$2._from]
let	$14	empty(self._workset'')
let	$15	res_invoke($1, $2._from, $2._label, $2._to, $10, 4294967295)
let	$16	lt($2._from, self._n_pda_states)
let	$17	res_invoke($1, $2._from, $2._label, $2._to, $6, 4294967295)
let	$18	self._delta_prime
let	$19	foreach($18[$2._from])
let	$20	$18[$2._from]@0
let	$21	$3[$20.#0]^._edges
let	$22	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $20.#1, _state: $2._from}
let	$23	self._pda_states
let	$24	$23[$20.#0]._rules[$20.#1]
let	$25	$3[$24.#0._to]^._edges
let	$26	$24.#0._op_label
let	$27	call(`pdaaal::details::weight_impl::add`, $24.#0._weight, $25[$2._from, $26].#1')
let	$28	call(`pdaaal::details::weight_impl::add`, $27, $5)
let	$29	tuple{#0: $22, #1: $28}
let	$30	call(`pdaaal::internal::labels_t::contains`, $24.#1, $2._label)
let	$31	contains($25', $2._from, $26)
let	$32	call(`pdaaal::details::weight_impl::add`, $27, 0^.#1)
let	$33	tuple{#0: $22, #1: $32}
let	$34	call(`pdaaal::details::weight_impl::add`, $24.#0._weight, 0^.#1)
let	$35	call(`pdaaal::details::weight_impl::add`, $34, $5)
let	$36	tuple{#0: $22, #1: $35}
let	$37	call(`pdaaal::details::weight_impl::add`, $34, 0^.#1)
let	$38	tuple{#0: $22, #1: $37}
let	$39	call(`pdaaal::details::weight_impl::add`, $28, $7')
let	$40	$21[$2._to, $2._label]
let	$41	call(`pdaaal::details::weight_impl::less`, $28, $40.#1'')
let	$42	contains($21', $2._to, $2._label)
let	$43	call(`pdaaal::details::weight_impl::add`, $32, $7')
let	$44	call(`pdaaal::details::weight_impl::less`, $32, $40.#1'')
let	$45	call(`pdaaal::details::weight_impl::add`, $35, $7')
let	$46	call(`pdaaal::details::weight_impl::less`, $35, $40.#1'')
let	$47	call(`pdaaal::details::weight_impl::add`, $37, $7')
let	$48	call(`pdaaal::details::weight_impl::less`, $37, $40.#1'')
let	$49	self._minpath[$20.#0]
let	$50	$23[$2._from]._pre_states
let	$51	$23[$50@0]._rules
let	$52	range(call(`std::lower_bound`, begin($51), end($51), $2._from, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($51))
let	$53	range(0, self._n_pda_labels)
let	$54	$3[$50@0]^._edges
let	$55	lin(#0, $52@0, mul(#-1, begin($51)))
let	$56	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $55, _state: 18446744073709551615}
let	$57	$52@0^.#0._weight
let	$58	tuple{#0: $56, #1: $57}
let	$59	$52@0^.#1._wildcard
let	$60	eq($52@0^.#0._to, $2._from)
let	$61	$52@0^.#0._operation
let	$62	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $61)
let	$63	call(`pdaaal::details::weight_impl::add`, $57, $12')
let	$64	$54[$2._from, $53@0]
let	$65	call(`pdaaal::details::weight_impl::less`, $57, $64.#1'')
let	$66	contains($54', $2._from, $53@0)
let	$67	self._minpath[$50@0]
let	$68	call(`pdaaal::details::weight_impl::less`, $63, $67')
let	$69	$52@0^.#1._labels
let	$70	$54[$2._from, $69@0]
let	$71	call(`pdaaal::details::weight_impl::less`, $57, $70.#1'')
let	$72	contains($54', $2._from, $69@0)
let	$73	call(`pdaaal::details::weight_impl::add`, $5, $57)
let	$74	tuple{#0: $56, #1: $73}
let	$75	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $61)
let	$76	eq($2._label, $52@0^.#0._op_label)
let	$77	call(`pdaaal::details::weight_impl::add`, 0^.#1, $57)
let	$78	tuple{#0: $56, #1: $77}
let	$79	call(`pdaaal::details::weight_impl::add`, $73, $7')
let	$80	$54[$2._to, $53@0]
let	$81	call(`pdaaal::details::weight_impl::less`, $73, $80.#1'')
let	$82	contains($54', $2._to, $53@0)
let	$83	call(`pdaaal::details::weight_impl::add`, $77, $7')
let	$84	call(`pdaaal::details::weight_impl::less`, $77, $80.#1'')
let	$85	call(`pdaaal::details::weight_impl::less`, $79, $67')
let	$86	call(`pdaaal::details::weight_impl::less`, $83, $67')
let	$87	$54[$2._to, $69@0]
let	$88	call(`pdaaal::details::weight_impl::less`, $73, $87.#1'')
let	$89	contains($54', $2._to, $69@0)
let	$90	call(`pdaaal::details::weight_impl::less`, $77, $87.#1'')
let	$91	call(`pdaaal::internal::labels_t::contains`, $52@0^.#1, $2._label)
let	$92	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $61)
let	$93	$54[$2._to, $2._label]
let	$94	call(`pdaaal::details::weight_impl::less`, $73, $93.#1'')
let	$95	contains($54', $2._to, $2._label)
let	$96	call(`pdaaal::details::weight_impl::less`, $77, $93.#1'')
let	$97	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $61)
let	$98	self._rel[$2._to]
let	$99	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $55, _state: $2._to}
let	$100	$3[$2._to]^._edges
let	$101	$100[$98@0.#0', $98@0.#1'].#1'
let	$102	call(`pdaaal::details::weight_impl::add`, call(`pdaaal::details::weight_impl::add`, $101, $5), $57)
let	$103	tuple{#0: $99, #1: $102}
let	$104	contains($100', $98@0.#0', $98@0.#1')
let	$105	call(`pdaaal::internal::labels_t::contains`, $52@0^.#1, $98@0.#1')
let	$106	call(`pdaaal::details::weight_impl::add`, call(`pdaaal::details::weight_impl::add`, $101, 0^.#1), $57)
let	$107	tuple{#0: $99, #1: $106}
let	$108	call(`pdaaal::details::weight_impl::add`, call(`pdaaal::details::weight_impl::add`, 0^.#1, $5), $57)
let	$109	tuple{#0: $99, #1: $108}
let	$110	call(`pdaaal::details::weight_impl::add`, call(`pdaaal::details::weight_impl::add`, 0^.#1, 0^.#1), $57)
let	$111	tuple{#0: $99, #1: $110}
let	$112	self._minpath[$98@0.#0']'
let	$113	call(`pdaaal::details::weight_impl::add`, $102, $112)
let	$114	contains($54', $98@0.#0', $98@0.#1')
let	$115	$54[$98@0.#0', $98@0.#1']
let	$116	call(`pdaaal::details::weight_impl::less`, $102, $115.#1'')
let	$117	call(`pdaaal::details::weight_impl::add`, $106, $112)
let	$118	call(`pdaaal::details::weight_impl::less`, $106, $115.#1'')
let	$119	call(`pdaaal::details::weight_impl::add`, $108, $112)
let	$120	call(`pdaaal::details::weight_impl::less`, $108, $115.#1'')
let	$121	call(`pdaaal::details::weight_impl::add`, $110, $112)
let	$122	call(`pdaaal::details::weight_impl::less`, $110, $115.#1'')
do		do(`pop`, self._workset)	true
do		invoke($1, $2._from, $2._label, $2._to, $6, $2._weight)	!$8 & $9
do		invoke($1, $2._from, $2._label, $2._to, $10, $2._weight)	!$11 & !$9
do		do(`push`, self._rel[$2._from], tuple{#0: $2._to, #1: $2._label})	!$11 & !$9 | !$8 & $9
do		set($12, $2._weight)	!$13
dom		set(self._found, true)	!$11 & !$9 & !self._found & $14 & $15 & $16 | !$11 & !$9 & !self._found & res_invoke($1, $2._from, $2._label, $2._to, $10, $2._weight) | !$8 & !self._found & $14 & $16 & $17 & $9 | !$8 & !self._found & $9 & res_invoke($1, $2._from, $2._label, $2._to, $6, $2._weight)
do	$19	do(`insert`, $21, $2._to, $2._label, $29)	!$8 & $30 & $31 & $9
do	$19	do(`insert`, $21, $2._to, $2._label, $33)	!$11 & !$9 & $30 & $31
do	$19	do(`insert`, $21, $2._to, $2._label, $36)	!$31 & !$8 & $30 & $9
do	$19	do(`insert`, $21, $2._to, $2._label, $38)	!$11 & !$31 & !$9 & $30
dom	$19	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $20.#0, _label: $2._label, _to: $2._to, _trace: $22, _weight: $39})	!$42 & !$8 & $30 & $31 & $9 | !$8 & $30 & $31 & $41 & $9
dom	$19	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $20.#0, _label: $2._label, _to: $2._to, _trace: $22, _weight: $43})	!$11 & !$42 & !$9 & $30 & $31 | !$11 & !$9 & $30 & $31 & $44
dom	$19	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $20.#0, _label: $2._label, _to: $2._to, _trace: $22, _weight: $45})	!$31 & !$42 & !$8 & $30 & $9 | !$31 & !$8 & $30 & $46 & $9
dom	$19	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $20.#0, _label: $2._label, _to: $2._to, _trace: $22, _weight: $47})	!$11 & !$31 & !$42 & !$9 & $30 | !$11 & !$31 & !$9 & $30 & $48
do	$19	set($49, $39)	!$42 & !$8 & $30 & $31 & $9 & call(`pdaaal::details::weight_impl::less`, $39, $49')
do	$19	set($49, $43)	!$11 & !$42 & !$9 & $30 & $31 & call(`pdaaal::details::weight_impl::less`, $43, $49')
do	$19	set($49, $45)	!$31 & !$42 & !$8 & $30 & $9 & call(`pdaaal::details::weight_impl::less`, $45, $49')
do	$19	set($49, $47)	!$11 & !$31 & !$42 & !$9 & $30 & call(`pdaaal::details::weight_impl::less`, $47, $49')
do	$19	set($40, $29)	!$8 & $30 & $31 & $41 & $42 & $9
do	$19	set($40, $33)	!$11 & !$9 & $30 & $31 & $42 & $44
do	$19	set($40, $36)	!$31 & !$8 & $30 & $42 & $46 & $9
do	$19	set($40, $38)	!$11 & !$31 & !$9 & $30 & $42 & $48
do	foreach($50) ; foreach($52) ; foreach($53)	do(`insert`, $54, $2._from, $53@0, $58)	!$11 & !$13 & !$9 & $16 & $59 & $60 & $62 | !$13 & !$8 & $16 & $59 & $60 & $62 & $9
dom	foreach($50) ; foreach($52) ; foreach($53)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $50@0, _label: $53@0, _to: $2._from, _trace: $56, _weight: $63})	!$11 & !$13 & !$66 & !$9 & $16 & $59 & $60 & $62 | !$11 & !$13 & !$9 & $16 & $59 & $60 & $62 & $65 | !$13 & !$66 & !$8 & $16 & $59 & $60 & $62 & $9 | !$13 & !$8 & $16 & $59 & $60 & $62 & $65 & $9
do	foreach($50) ; foreach($52) ; foreach($53)	set($67, $63)	!$11 & !$13 & !$66 & !$9 & $16 & $59 & $60 & $62 & $68 | !$13 & !$66 & !$8 & $16 & $59 & $60 & $62 & $68 & $9
do	foreach($50) ; foreach($52) ; foreach($53)	set($64, $58)	!$11 & !$13 & !$9 & $16 & $59 & $60 & $62 & $65 & $66 | !$13 & !$8 & $16 & $59 & $60 & $62 & $65 & $66 & $9
do	foreach($50) ; foreach($52) ; foreach($69)	do(`insert`, $54, $2._from, $69@0, $58)	!$11 & !$13 & !$59 & !$9 & $16 & $60 & $62 | !$13 & !$59 & !$8 & $16 & $60 & $62 & $9
dom	foreach($50) ; foreach($52) ; foreach($69)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $50@0, _label: $69@0, _to: $2._from, _trace: $56, _weight: $63})	!$11 & !$13 & !$59 & !$72 & !$9 & $16 & $60 & $62 | !$11 & !$13 & !$59 & !$9 & $16 & $60 & $62 & $71 | !$13 & !$59 & !$72 & !$8 & $16 & $60 & $62 & $9 | !$13 & !$59 & !$8 & $16 & $60 & $62 & $71 & $9
do	foreach($50) ; foreach($52) ; foreach($69)	set($67, $63)	!$11 & !$13 & !$59 & !$72 & !$9 & $16 & $60 & $62 & $68 | !$13 & !$59 & !$72 & !$8 & $16 & $60 & $62 & $68 & $9
do	foreach($50) ; foreach($52) ; foreach($69)	set($70, $58)	!$11 & !$13 & !$59 & !$9 & $16 & $60 & $62 & $71 & $72 | !$13 & !$59 & !$8 & $16 & $60 & $62 & $71 & $72 & $9
do	foreach($50) ; foreach($52) ; foreach($53)	do(`insert`, $54, $2._to, $53@0, $74)	!$8 & $16 & $59 & $60 & $75 & $76 & $9
do	foreach($50) ; foreach($52) ; foreach($53)	do(`insert`, $54, $2._to, $53@0, $78)	!$11 & !$9 & $16 & $59 & $60 & $75 & $76
dom	foreach($50) ; foreach($52) ; foreach($53)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $50@0, _label: $53@0, _to: $2._to, _trace: $56, _weight: $79})	!$8 & !$82 & $16 & $59 & $60 & $75 & $76 & $9 | !$8 & $16 & $59 & $60 & $75 & $76 & $81 & $9
dom	foreach($50) ; foreach($52) ; foreach($53)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $50@0, _label: $53@0, _to: $2._to, _trace: $56, _weight: $83})	!$11 & !$82 & !$9 & $16 & $59 & $60 & $75 & $76 | !$11 & !$9 & $16 & $59 & $60 & $75 & $76 & $84
do	foreach($50) ; foreach($52) ; foreach($53)	set($67, $79)	!$8 & !$82 & $16 & $59 & $60 & $75 & $76 & $85 & $9
do	foreach($50) ; foreach($52) ; foreach($53)	set($67, $83)	!$11 & !$82 & !$9 & $16 & $59 & $60 & $75 & $76 & $86
do	foreach($50) ; foreach($52) ; foreach($53)	set($80, $74)	!$8 & $16 & $59 & $60 & $75 & $76 & $81 & $82 & $9
do	foreach($50) ; foreach($52) ; foreach($53)	set($80, $78)	!$11 & !$9 & $16 & $59 & $60 & $75 & $76 & $82 & $84
do	foreach($50) ; foreach($52) ; foreach($69)	do(`insert`, $54, $2._to, $69@0, $74)	!$59 & !$8 & $16 & $60 & $75 & $76 & $9
do	foreach($50) ; foreach($52) ; foreach($69)	do(`insert`, $54, $2._to, $69@0, $78)	!$11 & !$59 & !$9 & $16 & $60 & $75 & $76
dom	foreach($50) ; foreach($52) ; foreach($69)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $50@0, _label: $69@0, _to: $2._to, _trace: $56, _weight: $79})	!$59 & !$8 & !$89 & $16 & $60 & $75 & $76 & $9 | !$59 & !$8 & $16 & $60 & $75 & $76 & $88 & $9
dom	foreach($50) ; foreach($52) ; foreach($69)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $50@0, _label: $69@0, _to: $2._to, _trace: $56, _weight: $83})	!$11 & !$59 & !$89 & !$9 & $16 & $60 & $75 & $76 | !$11 & !$59 & !$9 & $16 & $60 & $75 & $76 & $90
do	foreach($50) ; foreach($52) ; foreach($69)	set($67, $79)	!$59 & !$8 & !$89 & $16 & $60 & $75 & $76 & $85 & $9
do	foreach($50) ; foreach($52) ; foreach($69)	set($67, $83)	!$11 & !$59 & !$89 & !$9 & $16 & $60 & $75 & $76 & $86
do	foreach($50) ; foreach($52) ; foreach($69)	set($87, $74)	!$59 & !$8 & $16 & $60 & $75 & $76 & $88 & $89 & $9
do	foreach($50) ; foreach($52) ; foreach($69)	set($87, $78)	!$11 & !$59 & !$9 & $16 & $60 & $75 & $76 & $89 & $90
do	foreach($50) ; foreach($52)	do(`insert`, $54, $2._to, $2._label, $74)	!$8 & $16 & $60 & $9 & $91 & $92
do	foreach($50) ; foreach($52)	do(`insert`, $54, $2._to, $2._label, $78)	!$11 & !$9 & $16 & $60 & $91 & $92
dom	foreach($50) ; foreach($52)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $50@0, _label: $2._label, _to: $2._to, _trace: $56, _weight: $79})	!$8 & !$95 & $16 & $60 & $9 & $91 & $92 | !$8 & $16 & $60 & $9 & $91 & $92 & $94
dom	foreach($50) ; foreach($52)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $50@0, _label: $2._label, _to: $2._to, _trace: $56, _weight: $83})	!$11 & !$9 & !$95 & $16 & $60 & $91 & $92 | !$11 & !$9 & $16 & $60 & $91 & $92 & $96
do	foreach($50) ; foreach($52)	do(`push`, $18[$2._to], tuple{#0: $50@0, #1: $55})	!$11 & !$9 & $16 & $60 & $76 & $97 | !$8 & $16 & $60 & $76 & $9 & $97
do	foreach($50) ; foreach($52)	set($67, $79)	!$8 & !$95 & $16 & $60 & $85 & $9 & $91 & $92
do	foreach($50) ; foreach($52)	set($67, $83)	!$11 & !$9 & !$95 & $16 & $60 & $86 & $91 & $92
do	foreach($50) ; foreach($52)	set($93, $74)	!$8 & $16 & $60 & $9 & $91 & $92 & $94 & $95
do	foreach($50) ; foreach($52)	set($93, $78)	!$11 & !$9 & $16 & $60 & $91 & $92 & $95 & $96
do	foreach($50) ; foreach($52) ; foreach($98)	do(`insert`, $54, $98@0.#0', $98@0.#1', $103)	!$8 & $104 & $105 & $16 & $60 & $76 & $9 & $97
do	foreach($50) ; foreach($52) ; foreach($98)	do(`insert`, $54, $98@0.#0', $98@0.#1', $107)	!$11 & !$9 & $104 & $105 & $16 & $60 & $76 & $97
do	foreach($50) ; foreach($52) ; foreach($98)	do(`insert`, $54, $98@0.#0', $98@0.#1', $109)	!$104 & !$8 & $105 & $16 & $60 & $76 & $9 & $97
do	foreach($50) ; foreach($52) ; foreach($98)	do(`insert`, $54, $98@0.#0', $98@0.#1', $111)	!$104 & !$11 & !$9 & $105 & $16 & $60 & $76 & $97
dom	foreach($50) ; foreach($52) ; foreach($98)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $50@0, _label: $98@0.#1', _to: $98@0.#0', _trace: $99, _weight: $113})	!$114 & !$8 & $104 & $105 & $16 & $60 & $76 & $9 & $97 | !$8 & $104 & $105 & $116 & $16 & $60 & $76 & $9 & $97
dom	foreach($50) ; foreach($52) ; foreach($98)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $50@0, _label: $98@0.#1', _to: $98@0.#0', _trace: $99, _weight: $117})	!$11 & !$114 & !$9 & $104 & $105 & $16 & $60 & $76 & $97 | !$11 & !$9 & $104 & $105 & $118 & $16 & $60 & $76 & $97
dom	foreach($50) ; foreach($52) ; foreach($98)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $50@0, _label: $98@0.#1', _to: $98@0.#0', _trace: $99, _weight: $119})	!$104 & !$114 & !$8 & $105 & $16 & $60 & $76 & $9 & $97 | !$104 & !$8 & $105 & $120 & $16 & $60 & $76 & $9 & $97
dom	foreach($50) ; foreach($52) ; foreach($98)	do(`push`, self._workset, pdaaal::internal::PreStarSaturation::weighted_edge_t{_from: $50@0, _label: $98@0.#1', _to: $98@0.#0', _trace: $99, _weight: $121})	!$104 & !$11 & !$114 & !$9 & $105 & $16 & $60 & $76 & $97 | !$104 & !$11 & !$9 & $105 & $122 & $16 & $60 & $76 & $97
do	foreach($50) ; foreach($52) ; foreach($98)	set($67, $113)	!$114 & !$8 & $104 & $105 & $16 & $60 & $76 & $9 & $97 & call(`pdaaal::details::weight_impl::less`, $113, $67')
do	foreach($50) ; foreach($52) ; foreach($98)	set($67, $117)	!$11 & !$114 & !$9 & $104 & $105 & $16 & $60 & $76 & $97 & call(`pdaaal::details::weight_impl::less`, $117, $67')
do	foreach($50) ; foreach($52) ; foreach($98)	set($67, $119)	!$104 & !$114 & !$8 & $105 & $16 & $60 & $76 & $9 & $97 & call(`pdaaal::details::weight_impl::less`, $119, $67')
do	foreach($50) ; foreach($52) ; foreach($98)	set($67, $121)	!$104 & !$11 & !$114 & !$9 & $105 & $16 & $60 & $76 & $97 & call(`pdaaal::details::weight_impl::less`, $121, $67')
do	foreach($50) ; foreach($52) ; foreach($98)	set($115, $103)	!$8 & $104 & $105 & $114 & $116 & $16 & $60 & $76 & $9 & $97
do	foreach($50) ; foreach($52) ; foreach($98)	set($115, $107)	!$11 & !$9 & $104 & $105 & $114 & $118 & $16 & $60 & $76 & $97
do	foreach($50) ; foreach($52) ; foreach($98)	set($115, $109)	!$104 & !$8 & $105 & $114 & $120 & $16 & $60 & $76 & $9 & $97
do	foreach($50) ; foreach($52) ; foreach($98)	set($115, $111)	!$104 & !$11 & !$9 & $105 & $114 & $122 & $16 & $60 & $76 & $97
do	foreach($50) ; foreach($52)	exit	!$11 & !$60 & !$9 & $16 | !$60 & !$8 & $16 & $9
do		invoke($1, $2._from, $2._label, $2._to, $6, 4294967295)	!$8 & $14 & $16 & $9
do		invoke($1, $2._from, $2._label, $2._to, $10, 4294967295)	!$11 & !$9 & $14 & $16
do		set(self._found, false)	!$11 & !$15 & !$9 & $14 & $16 & self._found | !$17 & !$8 & $14 & $16 & $9 & self._found
do		set($13, true)	!$11 & !$13 & !$9 & $16 | !$13 & !$8 & $16 & $9
== i::PreStarSaturation::workset_empty | i::PreStarSaturation<Wu, true, true> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 48
== i::PreStarSaturation::found | i::PreStarSaturation<Wu, true, true> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 49
== i::PostStarSaturation::PostStarSaturation | i::PostStarSaturation<W0, true> | (i::PAutomaton<W0, TI::Single> &, const std::function<bool (u64, u32, u64, i::trace_t)> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 54
== i::PostStarSaturation::step | i::PostStarSaturation<W0, true> | () |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 128
let	$1	self._n_pda_states
let	$2	front(self._workset)
let	$3	tuple{#0: $2._to, #1: $2._label}
let	$4	mul(#-1, self._n_Q)
let	$5	eq(4294967295, $2._label)
let	$6	self._pda_states[$2._from]._rules
let	$7	self._automaton._states
let	$8	$7[$6@0.#0._to]^._edges
let	$9	pdaaal::internal::trace_t{_label: $2._label, _rule_id: ix($6, #0), _state: $2._from}
let	$10	call(`pdaaal::internal::labels_t::contains`, $6@0.#1, $2._label)
let	$11	$6@0.#0._operation
let	$12	eq($11, enum(`pdaaal::POP`, `pdaaal::op_t`))
let	$13	contains($8', $2._to, 4294967295)
let	$14	self._early_termination
let	$15	$6@0.#0._op_label
let	$16	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $11)
let	$17	contains($8', $2._to, $15)
let	$18	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $11)
let	$19	contains($8', $2._to, $2._label)
let	$20	self._q_prime[tuple{#0: $6@0.#0._to, #1: $15}]
let	$21	eq($11, enum(`pdaaal::PUSH`, `pdaaal::op_t`))
let	$22	contains($8', $20, $15)
let	$23	$7[$20]^._edges
let	$24	contains($23'', $2._to, $2._label)
let	$25	res_invoke($14, $6@0.#0._to, $15, $20, $9)
let	$26	set(self._found, true)
let	$27	self._rel2[lin(#0, $4, $20)]
let	$28	$7[$27@0]^._edges
let	$29	18446744073709551615
let	$30	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $29, _state: $20}
let	$31	contains($28'', $2._to, $2._label)
let	$32	self._rel1[lin(#0, mul(#-1, $1), $2._to)]
let	$33	$7[$2._from]^._edges
let	$34	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $29, _state: $2._to}
let	$35	contains($33', $32@0.#0', $32@0.#1')
do		do(`pop`, self._workset)	true
do		do(`push`, self._rel1[lin(#0, mul(#-1, $1), $2._from)], $3)	!lt($2._from, $1)
do		do(`push`, self._rel2[lin(#0, $4, $2._to)], $2._from)	!lt($2._to, self._n_Q) & $5
do	foreach($6)	do(`insert`, $8, $2._to, 4294967295, $9)	!$5 & $10 & $12
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: 4294967295, _to: $2._to})	!$13 & !$5 & $10 & $12
do	foreach($6)	invoke($14, $6@0.#0._to, 4294967295, $2._to, $9)	!$13 & !$5 & !self._found' & $10 & $12
do	foreach($6)	do(`insert`, $8, $2._to, $15, $9)	!$5 & $10 & $16
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: $15, _to: $2._to})	!$17 & !$5 & $10 & $16
do	foreach($6)	invoke($14, $6@0.#0._to, $15, $2._to, $9)	!$17 & !$5 & !self._found' & $10 & $16
do	foreach($6)	do(`insert`, $8, $2._to, $2._label, $9)	!$5 & $10 & $18
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: $2._label, _to: $2._to})	!$19 & !$5 & $10 & $18
do	foreach($6)	invoke($14, $6@0.#0._to, $2._label, $2._to, $9)	!$19 & !$5 & !self._found' & $10 & $18
do	foreach($6)	do(`insert`, $8, $20, $15, $9)	!$5 & $10 & $21
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: $15, _to: $20})	!$22 & !$5 & $10 & $21
do	foreach($6)	invoke($14, $6@0.#0._to, $15, $20, $9)	!$22 & !$5 & !self._found' & $10 & $21
do	foreach($6)	do(`insert`, $23, $2._to, $2._label, $9)	!$5 & $10 & $21
do	foreach($6)	do(`push`, self._rel1[lin(#0, mul(#-1, $1), $20)], $3)	!$24 & !$5 & !lt($20, $1) & $10 & $21
do	foreach($6)	invoke($14, $20, $2._label, $2._to, $9)	!$24 & !$25 & !$5 & !self._found' & $10 & $21 | !$24 & !$5 & !self._found' & $10 & $21 & $22
do	foreach($6)	$26	!$12 & !$16 & !$19 & !$21 & !$5 & !self._found' & $10 & res_invoke($14, $6@0.#0._to, $2._label, $2._to, $9) | !$13 & !$5 & !self._found' & $10 & $12 & res_invoke($14, $6@0.#0._to, 4294967295, $2._to, $9) | !$17 & !$5 & !self._found' & $10 & $16 & res_invoke($14, $6@0.#0._to, $15, $2._to, $9) | !$22 & !$5 & !self._found' & $10 & $21 & $25 | !$24 & !$5 & !self._found' & $10 & $21 & res_invoke($14, $20, $2._label, $2._to, $9)
do	foreach($6) ; foreach($27)	do(`insert`, $28, $2._to, $2._label, $30)	!$5 & $10 & $21
do	foreach($6) ; foreach($27)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $27@0, _label: $2._label, _to: $2._to})	!$31 & !$5 & $10 & $21
do	foreach($6) ; foreach($27)	invoke($14, $27@0, $2._label, $2._to, $30)	!$31 & !$5 & !self._found' & $10 & $21
do	foreach($6) ; foreach($27)	$26	!$31 & !$5 & !self._found' & $10 & $21 & res_invoke($14, $27@0, $2._label, $2._to, $30)
do	foreach($32)	do(`insert`, $33, $32@0.#0', $32@0.#1', $34)	$5
do	foreach($32)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $2._from, _label: $32@0.#1', _to: $32@0.#0'})	!$35 & $5
do	foreach($32)	invoke($14, $2._from, $32@0.#1', $32@0.#0', $34)	!$35 & !self._found' & $5
do	foreach($32)	$26	!$35 & !self._found' & $5 & res_invoke($14, $2._from, $32@0.#1', $32@0.#0', $34)
== i::PostStarSaturation::workset_empty | i::PostStarSaturation<W0, true> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 56
== i::PostStarSaturation::found | i::PostStarSaturation<W0, true> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 57
== i::PostStarSaturation::run | i::PostStarSaturation<W0, true> | () |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 129
let	$1	empty(self._workset')
do	loop(#0)	do(`pdaaal::internal::PostStarSaturation::step`, self)	!$1 & !self._found'
do	loop(#0)	exit	$1 | self._found'
ret	self._found'	true
== i::PostStarSaturation::PostStarSaturation | i::PostStarSaturation<W0, false> | (i::PAutomaton<W0, TI::Single> &, const std::function<bool (u64, u32, u64, i::trace_t)> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 54
== i::PostStarSaturation::step | i::PostStarSaturation<W0, false> | () |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 130
let	$1	self._n_pda_states
let	$2	front(self._workset)
let	$3	tuple{#0: $2._to, #1: $2._label}
let	$4	mul(#-1, self._n_Q)
let	$5	eq(4294967295, $2._label)
let	$6	self._pda_states[$2._from]._rules
let	$7	self._automaton._states
let	$8	$7[$6@0.#0._to]^._edges
let	$9	pdaaal::internal::trace_t{_label: $2._label, _rule_id: ix($6, #0), _state: $2._from}
let	$10	call(`pdaaal::internal::labels_t::contains`, $6@0.#1, $2._label)
let	$11	$6@0.#0._operation
let	$12	eq($11, enum(`pdaaal::POP`, `pdaaal::op_t`))
let	$13	$6@0.#0._op_label
let	$14	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $11)
let	$15	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $11)
let	$16	self._q_prime[tuple{#0: $6@0.#0._to, #1: $13}]
let	$17	eq($11, enum(`pdaaal::PUSH`, `pdaaal::op_t`))
let	$18	$7[$16]^._edges
let	$19	self._rel2[lin(#0, $4, $16)]
let	$20	$7[$19@0]^._edges
let	$21	18446744073709551615
let	$22	self._rel1[lin(#0, mul(#-1, $1), $2._to)]
let	$23	$7[$2._from]^._edges
do		do(`pop`, self._workset)	true
do		do(`push`, self._rel1[lin(#0, mul(#-1, $1), $2._from)], $3)	!lt($2._from, $1)
do		do(`push`, self._rel2[lin(#0, $4, $2._to)], $2._from)	!lt($2._to, self._n_Q) & $5
do	foreach($6)	do(`insert`, $8, $2._to, 4294967295, $9)	!$5 & $10 & $12
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: 4294967295, _to: $2._to})	!$5 & !contains($8', $2._to, 4294967295) & $10 & $12
do	foreach($6)	do(`insert`, $8, $2._to, $13, $9)	!$5 & $10 & $14
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: $13, _to: $2._to})	!$5 & !contains($8', $2._to, $13) & $10 & $14
do	foreach($6)	do(`insert`, $8, $2._to, $2._label, $9)	!$5 & $10 & $15
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: $2._label, _to: $2._to})	!$5 & !contains($8', $2._to, $2._label) & $10 & $15
do	foreach($6)	do(`insert`, $8, $16, $13, $9)	!$5 & $10 & $17
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: $13, _to: $16})	!$5 & !contains($8', $16, $13) & $10 & $17
do	foreach($6)	do(`insert`, $18, $2._to, $2._label, $9)	!$5 & $10 & $17
do	foreach($6)	do(`push`, self._rel1[lin(#0, mul(#-1, $1), $16)], $3)	!$5 & !contains($18'', $2._to, $2._label) & !lt($16, $1) & $10 & $17
do	foreach($6) ; foreach($19)	do(`insert`, $20, $2._to, $2._label, pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $21, _state: $16})	!$5 & $10 & $17
do	foreach($6) ; foreach($19)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $19@0, _label: $2._label, _to: $2._to})	!$5 & !contains($20'', $2._to, $2._label) & $10 & $17
do	foreach($22)	do(`insert`, $23, $22@0.#0', $22@0.#1', pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $21, _state: $2._to})	$5
do	foreach($22)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $2._from, _label: $22@0.#1', _to: $22@0.#0'})	!contains($23', $22@0.#0', $22@0.#1') & $5
== i::PostStarSaturation::workset_empty | i::PostStarSaturation<W0, false> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 56
== i::PostStarSaturation::found | i::PostStarSaturation<W0, false> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 57
== i::PostStarSaturation::run | i::PostStarSaturation<W0, false> | () |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 58
== i::PostStarSaturation::PostStarSaturation | i::PostStarSaturation<Wu, true> | (i::PAutomaton<Wu, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>)> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 54
== i::PostStarSaturation::step | i::PostStarSaturation<Wu, true> | () |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 131
let	$1	self._n_pda_states
let	$2	front(self._workset)
let	$3	tuple{#0: $2._to, #1: $2._label}
let	$4	mul(#-1, self._n_Q)
let	$5	eq(4294967295, $2._label)
let	$6	self._pda_states[$2._from]._rules
let	$7	self._automaton._states
let	$8	$7[$6@0.#0._to]^._edges
let	$9	tuple{#0: pdaaal::internal::trace_t{_label: $2._label, _rule_id: ix($6, #0), _state: $2._from}, #1: 0}
let	$10	call(`pdaaal::internal::labels_t::contains`, $6@0.#1, $2._label)
let	$11	$6@0.#0._operation
let	$12	eq($11, enum(`pdaaal::POP`, `pdaaal::op_t`))
let	$13	contains($8', $2._to, 4294967295)
let	$14	self._early_termination
let	$15	$6@0.#0._op_label
let	$16	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $11)
let	$17	contains($8', $2._to, $15)
let	$18	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $11)
let	$19	contains($8', $2._to, $2._label)
let	$20	self._q_prime[tuple{#0: $6@0.#0._to, #1: $15}]
let	$21	eq($11, enum(`pdaaal::PUSH`, `pdaaal::op_t`))
let	$22	contains($8', $20, $15)
let	$23	$7[$20]^._edges
let	$24	contains($23'', $2._to, $2._label)
let	$25	res_invoke($14, $6@0.#0._to, $15, $20, $9)
let	$26	set(self._found, true)
let	$27	self._rel2[lin(#0, $4, $20)]
let	$28	$7[$27@0]^._edges
let	$29	18446744073709551615
let	$30	tuple{#0: pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $29, _state: $20}, #1: 0}
let	$31	contains($28'', $2._to, $2._label)
let	$32	self._rel1[lin(#0, mul(#-1, $1), $2._to)]
let	$33	$7[$2._from]^._edges
let	$34	tuple{#0: pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $29, _state: $2._to}, #1: 0}
let	$35	contains($33', $32@0.#0', $32@0.#1')
do		do(`pop`, self._workset)	true
do		do(`push`, self._rel1[lin(#0, mul(#-1, $1), $2._from)], $3)	!lt($2._from, $1)
do		do(`push`, self._rel2[lin(#0, $4, $2._to)], $2._from)	!lt($2._to, self._n_Q) & $5
do	foreach($6)	do(`insert`, $8, $2._to, 4294967295, $9)	!$5 & $10 & $12
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: 4294967295, _to: $2._to})	!$13 & !$5 & $10 & $12
do	foreach($6)	invoke($14, $6@0.#0._to, 4294967295, $2._to, $9)	!$13 & !$5 & !self._found' & $10 & $12
do	foreach($6)	do(`insert`, $8, $2._to, $15, $9)	!$5 & $10 & $16
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: $15, _to: $2._to})	!$17 & !$5 & $10 & $16
do	foreach($6)	invoke($14, $6@0.#0._to, $15, $2._to, $9)	!$17 & !$5 & !self._found' & $10 & $16
do	foreach($6)	do(`insert`, $8, $2._to, $2._label, $9)	!$5 & $10 & $18
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: $2._label, _to: $2._to})	!$19 & !$5 & $10 & $18
do	foreach($6)	invoke($14, $6@0.#0._to, $2._label, $2._to, $9)	!$19 & !$5 & !self._found' & $10 & $18
do	foreach($6)	do(`insert`, $8, $20, $15, $9)	!$5 & $10 & $21
do	foreach($6)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $6@0.#0._to, _label: $15, _to: $20})	!$22 & !$5 & $10 & $21
do	foreach($6)	invoke($14, $6@0.#0._to, $15, $20, $9)	!$22 & !$5 & !self._found' & $10 & $21
do	foreach($6)	do(`insert`, $23, $2._to, $2._label, $9)	!$5 & $10 & $21
do	foreach($6)	do(`push`, self._rel1[lin(#0, mul(#-1, $1), $20)], $3)	!$24 & !$5 & !lt($20, $1) & $10 & $21
do	foreach($6)	invoke($14, $20, $2._label, $2._to, $9)	!$24 & !$25 & !$5 & !self._found' & $10 & $21 | !$24 & !$5 & !self._found' & $10 & $21 & $22
do	foreach($6)	$26	!$12 & !$16 & !$19 & !$21 & !$5 & !self._found' & $10 & res_invoke($14, $6@0.#0._to, $2._label, $2._to, $9) | !$13 & !$5 & !self._found' & $10 & $12 & res_invoke($14, $6@0.#0._to, 4294967295, $2._to, $9) | !$17 & !$5 & !self._found' & $10 & $16 & res_invoke($14, $6@0.#0._to, $15, $2._to, $9) | !$22 & !$5 & !self._found' & $10 & $21 & $25 | !$24 & !$5 & !self._found' & $10 & $21 & res_invoke($14, $20, $2._label, $2._to, $9)
do	foreach($6) ; foreach($27)	do(`insert`, $28, $2._to, $2._label, $30)	!$5 & $10 & $21
do	foreach($6) ; foreach($27)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $27@0, _label: $2._label, _to: $2._to})	!$31 & !$5 & $10 & $21
do	foreach($6) ; foreach($27)	invoke($14, $27@0, $2._label, $2._to, $30)	!$31 & !$5 & !self._found' & $10 & $21
do	foreach($6) ; foreach($27)	$26	!$31 & !$5 & !self._found' & $10 & $21 & res_invoke($14, $27@0, $2._label, $2._to, $30)
do	foreach($32)	do(`insert`, $33, $32@0.#0', $32@0.#1', $34)	$5
do	foreach($32)	do(`push`, self._workset, pdaaal::internal::temp_edge_t{_from: $2._from, _label: $32@0.#1', _to: $32@0.#0'})	!$35 & $5
do	foreach($32)	invoke($14, $2._from, $32@0.#1', $32@0.#0', $34)	!$35 & !self._found' & $5
do	foreach($32)	$26	!$35 & !self._found' & $5 & res_invoke($14, $2._from, $32@0.#1', $32@0.#0', $34)
== i::PostStarSaturation::workset_empty | i::PostStarSaturation<Wu, true> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 56
== i::PostStarSaturation::found | i::PostStarSaturation<Wu, true> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 57
== i::PostStarSaturation::run | i::PostStarSaturation<Wu, true> | () |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 129
== i::PostStarShortestSaturation::weight_edge_trace::weight_edge_trace | i::PostStarShortestSaturation<Wu, true, true, void>::weight_edge_trace | (u32, i::temp_edge_t, i::trace_t) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 59
== i::PostStarShortestSaturation::weight_edge_trace_comp::operator() | i::PostStarShortestSaturation<Wu, true, true, void>::weight_edge_trace_comp | (const i::PostStarShortestSaturation<Wu, true, true, void>::weight_edge_trace &, const i::PostStarShortestSaturation<Wu, true, true, void>::weight_edge_trace &) |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 60
== i::PostStarShortestSaturation::PostStarShortestSaturation | i::PostStarShortestSaturation<Wu, true, true, void> | (i::PAutomaton<Wu, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &)> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 132
let	$1	self._automaton
let	$2	addrof(param(#0))
let	$3	self._pda_states
let	$4	addrof($1._pda._states)
let	$5	size($2._states)
let	$6	new(`std::unordered_map`)
let	$7	self._n_automaton_states
let	$8	new(`std::vector`)
let	$9	self._edge_weights
let	$10	foreach($3@0._rules)
let	$11	$3@0._rules@0.#0
let	$12	tuple{#0: $11._to', #1: $11._op_label'}
let	$13	size($1._states')
let	$14	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $11._operation')
let	$15	lin(#0, mul(#-1, $5), $13)
let	$16	mul(#-1, size($4))
let	$17	foreach($1._states)
let	$18	$1._states@0'^._edges
let	$19	foreach($18@0.#1)
let	$20	$1._states@0'^._id'
let	$21	pdaaal::internal::temp_edge_t{_from: $20, _label: $18@0.#1@0.#0', _to: $18@0.#0'}
let	$22	18446744073709551615
let	$23	lt($20, size($4))
do		set($1, $2)	true
do		set(self._early_termination, param(#1))	true
do		set($3, $4)	true
do		set(self._n_pda_states, size($4))	true
do		set(self._n_Q, $5)	true
do		set(self._q_prime, $6)	true
do		set($7, 0)	true
do		set(self._minpath, $8)	true
do		set($9, $6)	true
do		set(self._workset, new(`std::priority_queue`))	true
do		set(self._rel1, $8)	true
do		set(self._rel2, $8)	true
do		set(self._found, false)	true
do	foreach($3) ; $10	do(`insert`, self._q_prime, $12, $13)	$14
do	foreach($3) ; $10	do(`pdaaal::internal::PAutomaton::add_state`, $1, false, false)	!contains(self._q_prime', $12) & $14
do		do(`resize`, self._minpath, $15)	true
do		do(`std::fill`, self._minpath, 4294967295)	true
do		do(`resize`, self._rel1, lin(#0, $16, $13))	true
do		do(`resize`, self._rel2, $15)	true
do		set($7, $13)	true
do	$17 ; foreach($18) ; $19	do(`insert`, $9, $21, tuple{#0: 0, #1: 0})	true
do	$17 ; foreach($18) ; $19	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $21, _trace: pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $22, _state: $22}, _weight: 0})	$23
do	$17 ; foreach($18) ; $19	do(`push`, self._rel1[lin(#0, $20, $16)], tuple{#0: $18@0.#0', #1: $18@0.#1@0.#0'})	!$23
do	$17 ; foreach($18) ; $19	do(`push`, self._rel2[lin(#0, $18@0.#0', mul(#-1, $5))], $20)	!$23 & !lt($18@0.#0', $5) & eq(4294967295, $18@0.#1@0.#0')
do	$17 ; foreach($18) ; $19	invoke(param(#1), $20, $18@0.#1@0.#0', $18@0.#0', $18@0.#1@0.#1', 0)	!$23
do	$17 ; foreach($18) ; $19	set(self._found, true)	!$23 & !self._found' & res_invoke(param(#1), $20, $18@0.#1@0.#0', $18@0.#0', $18@0.#1@0.#1', 0)
== i::PostStarShortestSaturation::step | i::PostStarShortestSaturation<Wu, true, true, void> | () |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 133
let	$1	self._n_pda_states
let	$2	top(self._workset)
let	$3	$2._edge._label
let	$4	lt($2._edge._from, $1)
let	$5	self._edge_weights
let	$6	call(`pdaaal::details::weight_impl::less`, $5[$2._edge].#1, $2._weight)
let	$7	mul(#-1, self._n_Q)
let	$8	lin(#0, $7, $2._edge._to)
let	$9	eq(4294967295, $3)
let	$10	lt($2._edge._to, self._n_Q)
let	$11	self._automaton._states
let	$12	$11[$2._edge._from]^._edges
let	$13	$5[$2._edge].#0
let	$14	tuple{#0: $2._trace, #1: $13}
let	$15	self._early_termination
let	$16	self._rel2[lin(#0, $7, $2._edge._from)]
let	$17	pdaaal::internal::temp_edge_t{_from: $16@0', _label: $3, _to: $2._edge._to}
let	$18	$11[$16@0']^._edges
let	$19	call(`pdaaal::details::weight_impl::add`, $13, $18[$2._edge._from, 4294967295].#1')
let	$20	contains($18', $2._edge._from, 4294967295)
let	$21	self._minpath[$8]
let	$22	call(`pdaaal::details::weight_impl::add`, $21, $19)
let	$23	call(`pdaaal::details::weight_impl::add`, $13, 0^.#1)
let	$24	call(`pdaaal::details::weight_impl::add`, $21, $23)
let	$25	18446744073709551615
let	$26	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $25, _state: $2._edge._from}
let	$27	contains($5', $17)
let	$28	call(`pdaaal::details::weight_impl::less`, $19, $5[$17].#1'')
let	$29	call(`pdaaal::details::weight_impl::less`, $23, $5[$17].#1'')
let	$30	call(`pdaaal::details::weight_impl::less`, $22, $5[$17].#1'')
let	$31	call(`pdaaal::details::weight_impl::less`, $24, $5[$17].#1'')
let	$32	self._pda_states[$2._edge._from]._rules
let	$33	pdaaal::internal::temp_edge_t{_from: $32@0.#0._to, _label: 4294967295, _to: $2._edge._to}
let	$34	$32@0.#0._weight
let	$35	call(`pdaaal::details::weight_impl::add`, $13, $34)
let	$36	tuple{#0: $35, #1: $35}
let	$37	call(`pdaaal::internal::labels_t::contains`, $32@0.#1, $3)
let	$38	$32@0.#0._operation
let	$39	eq($38, enum(`pdaaal::POP`, `pdaaal::op_t`))
let	$40	call(`pdaaal::details::weight_impl::add`, $21', $35)
let	$41	tuple{#0: $35, #1: $40}
let	$42	pdaaal::internal::trace_t{_label: $3, _rule_id: ix($32, #0), _state: $2._edge._from}
let	$43	call(`pdaaal::details::weight_impl::less`, $35, $5[$33].#1'')
let	$44	contains($5', $33)
let	$45	call(`pdaaal::details::weight_impl::less`, $40, $5[$33].#1'')
let	$46	$32@0.#0._op_label
let	$47	pdaaal::internal::temp_edge_t{_from: $32@0.#0._to, _label: $46, _to: $2._edge._to}
let	$48	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $38)
let	$49	contains($5', $47)
let	$50	call(`pdaaal::details::weight_impl::less`, $35, $5[$47].#1'')
let	$51	call(`pdaaal::details::weight_impl::less`, $40, $5[$47].#1'')
let	$52	pdaaal::internal::temp_edge_t{_from: $32@0.#0._to, _label: $3, _to: $2._edge._to}
let	$53	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $38)
let	$54	call(`pdaaal::details::weight_impl::less`, $35, $5[$52].#1'')
let	$55	contains($5', $52)
let	$56	call(`pdaaal::details::weight_impl::less`, $40, $5[$52].#1'')
let	$57	self._q_prime[tuple{#0: $32@0.#0._to, #1: $46}]
let	$58	pdaaal::internal::temp_edge_t{_from: $32@0.#0._to, _label: $46, _to: $57}
let	$59	call(`pdaaal::details::weight_impl::add`, $2._weight, $34)
let	$60	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $38)
let	$61	call(`pdaaal::details::weight_impl::less`, $59, $5[$58].#1'')
let	$62	self._minpath[lin(#0, $57, $7)]
let	$63	call(`pdaaal::details::weight_impl::less`, $59, $62')
let	$64	contains($5', $58)
let	$65	pdaaal::internal::temp_edge_t{_from: $57, _label: $3, _to: $2._edge._to}
let	$66	call(`pdaaal::details::weight_impl::less`, $35, $5[$65].#1'')
let	$67	contains($5'', $65)
let	$68	call(`pdaaal::details::weight_impl::less`, $40, $5[$65].#1'')
let	$69	self._rel1[lin(#0, mul(#-1, $1), $2._edge._to)]
let	$70	pdaaal::internal::temp_edge_t{_from: $2._edge._from, _label: $69@0.#1, _to: $69@0.#0}
let	$71	$11[$2._edge._to]^._edges
let	$72	call(`pdaaal::details::weight_impl::add`, $71[$69@0.#0, $69@0.#1].#1', $13)
let	$73	contains($71', $69@0.#0, $69@0.#1)
let	$74	lt($69@0.#0, self._n_Q)
let	$75	self._minpath[lin(#0, $7, $69@0.#0)]
let	$76	call(`pdaaal::details::weight_impl::add`, $75, $72)
let	$77	call(`pdaaal::details::weight_impl::add`, 0^.#1, $13)
let	$78	call(`pdaaal::details::weight_impl::add`, $75, $77)
let	$79	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $25, _state: $2._edge._to}
let	$80	call(`pdaaal::details::weight_impl::less`, $72, $5[$70].#1'')
let	$81	contains($5', $70)
let	$82	call(`pdaaal::details::weight_impl::less`, $77, $5[$70].#1'')
let	$83	call(`pdaaal::details::weight_impl::less`, $76, $5[$70].#1'')
let	$84	call(`pdaaal::details::weight_impl::less`, $78, $5[$70].#1'')
do		do(`pop`, self._workset)	true
do		do(`push`, self._rel1[lin(#0, mul(#-1, $1), $2._edge._from)], tuple{#0: $2._edge._to, #1: $3})	!$4 & !$6
do		do(`push`, self._rel2[$8], $2._edge._from)	!$10 & !$6 & $9
do		do(`insert`, $12, $2._edge._to, 4294967295, $14)	!$6 & $9
do		do(`insert`, $12, $2._edge._to, $3, $14)	!$6 & !$9
do		invoke($15, $2._edge._from, $3, $2._edge._to, $14, $2._weight)	!$6
do		set(self._found, true)	!$6 & !self._found & res_invoke($15, $2._edge._from, $3, $2._edge._to, $14, $2._weight)
do	foreach($16)	do(`insert`, $5, $17, tuple{#0: $19, #1: $19})	!$4 & !$6 & $10 & $20
do	foreach($16)	do(`insert`, $5, $17, tuple{#0: $19, #1: $22})	!$10 & !$4 & !$6 & $20
do	foreach($16)	do(`insert`, $5, $17, tuple{#0: $23, #1: $23})	!$20 & !$4 & !$6 & $10
do	foreach($16)	do(`insert`, $5, $17, tuple{#0: $23, #1: $24})	!$10 & !$20 & !$4 & !$6
do	foreach($16)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $17, _trace: $26, _weight: $19})	!$27 & !$4 & !$6 & $10 & $20 | !$4 & !$6 & $10 & $20 & $28
do	foreach($16)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $17, _trace: $26, _weight: $23})	!$20 & !$27 & !$4 & !$6 & $10 | !$20 & !$4 & !$6 & $10 & $29
do	foreach($16)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $17, _trace: $26, _weight: $22})	!$10 & !$27 & !$4 & !$6 & $20 | !$10 & !$4 & !$6 & $20 & $30
do	foreach($16)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $17, _trace: $26, _weight: $24})	!$10 & !$20 & !$27 & !$4 & !$6 | !$10 & !$20 & !$4 & !$6 & $31
do	foreach($16)	set($5[$17].#0, $19)	!$4 & !$6 & $20 & $27 & call(`pdaaal::details::weight_impl::less`, $19, $5[$17].#0'')
do	foreach($16)	set($5[$17].#0, $23)	!$20 & !$4 & !$6 & $27 & call(`pdaaal::details::weight_impl::less`, $23, $5[$17].#0'')
do	foreach($16)	set($5[$17].#1, $19)	!$4 & !$6 & $10 & $20 & $27 & $28
do	foreach($16)	set($5[$17].#1, $23)	!$20 & !$4 & !$6 & $10 & $27 & $29
do	foreach($16)	set($5[$17].#1, $22)	!$10 & !$4 & !$6 & $20 & $27 & $30
do	foreach($16)	set($5[$17].#1, $24)	!$10 & !$20 & !$4 & !$6 & $27 & $31
do	foreach($32)	do(`insert`, $5, $33, $36)	!$6 & !$9 & $10 & $37 & $39 & $4
do	foreach($32)	do(`insert`, $5, $33, $41)	!$10 & !$6 & !$9 & $37 & $39 & $4
do	foreach($32)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $33, _trace: $42, _weight: $35})	!$44 & !$6 & !$9 & $10 & $37 & $39 & $4 | !$6 & !$9 & $10 & $37 & $39 & $4 & $43
do	foreach($32)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $33, _trace: $42, _weight: $40})	!$10 & !$44 & !$6 & !$9 & $37 & $39 & $4 | !$10 & !$6 & !$9 & $37 & $39 & $4 & $45
do	foreach($32)	do(`insert`, $5, $47, $36)	!$6 & !$9 & $10 & $37 & $4 & $48
do	foreach($32)	do(`insert`, $5, $47, $41)	!$10 & !$6 & !$9 & $37 & $4 & $48
do	foreach($32)	set($5[$33].#0, $35)	!$6 & !$9 & $37 & $39 & $4 & $44 & call(`pdaaal::details::weight_impl::less`, $35, $5[$33].#0'')
do	foreach($32)	set($5[$33].#1, $35)	!$6 & !$9 & $10 & $37 & $39 & $4 & $43 & $44
do	foreach($32)	set($5[$33].#1, $40)	!$10 & !$6 & !$9 & $37 & $39 & $4 & $44 & $45
do	foreach($32)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $47, _trace: $42, _weight: $35})	!$49 & !$6 & !$9 & $10 & $37 & $4 & $48 | !$6 & !$9 & $10 & $37 & $4 & $48 & $50
do	foreach($32)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $47, _trace: $42, _weight: $40})	!$10 & !$49 & !$6 & !$9 & $37 & $4 & $48 | !$10 & !$6 & !$9 & $37 & $4 & $48 & $51
do	foreach($32)	do(`insert`, $5, $52, $36)	!$6 & !$9 & $10 & $37 & $4 & $53
do	foreach($32)	do(`insert`, $5, $52, $41)	!$10 & !$6 & !$9 & $37 & $4 & $53
do	foreach($32)	set($5[$47].#0, $35)	!$6 & !$9 & $37 & $4 & $48 & $49 & call(`pdaaal::details::weight_impl::less`, $35, $5[$47].#0'')
do	foreach($32)	set($5[$47].#1, $35)	!$6 & !$9 & $10 & $37 & $4 & $48 & $49 & $50
do	foreach($32)	set($5[$47].#1, $40)	!$10 & !$6 & !$9 & $37 & $4 & $48 & $49 & $51
do	foreach($32)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $52, _trace: $42, _weight: $35})	!$55 & !$6 & !$9 & $10 & $37 & $4 & $53 | !$6 & !$9 & $10 & $37 & $4 & $53 & $54
do	foreach($32)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $52, _trace: $42, _weight: $40})	!$10 & !$55 & !$6 & !$9 & $37 & $4 & $53 | !$10 & !$6 & !$9 & $37 & $4 & $53 & $56
do	foreach($32)	do(`insert`, $5, $58, tuple{#0: 0, #1: $59})	!$6 & !$9 & $37 & $4 & $60
do	foreach($32)	set($5[$52].#0, $35)	!$6 & !$9 & $37 & $4 & $53 & $55 & call(`pdaaal::details::weight_impl::less`, $35, $5[$52].#0'')
do	foreach($32)	set($5[$52].#1, $35)	!$6 & !$9 & $10 & $37 & $4 & $53 & $54 & $55
do	foreach($32)	set($5[$52].#1, $40)	!$10 & !$6 & !$9 & $37 & $4 & $53 & $55 & $56
do	foreach($32)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $58, _trace: $42, _weight: $59})	!$6 & !$64 & !$9 & $37 & $4 & $60 & $63 | !$6 & !$9 & $37 & $4 & $60 & $61 & $63
do	foreach($32)	do(`insert`, $5, $65, $36)	!$6 & !$9 & $10 & $37 & $4 & $60
do	foreach($32)	do(`insert`, $5, $65, $41)	!$10 & !$6 & !$9 & $37 & $4 & $60
do	foreach($32)	set($5[$58].#0, 0)	!$6 & !$9 & $37 & $4 & $60 & $64 & call(`pdaaal::details::weight_impl::less`, 0, $5[$58].#0'')
do	foreach($32)	set($5[$58].#1, $59)	!$6 & !$9 & $37 & $4 & $60 & $61 & $64
do	foreach($32)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $65, _trace: $42, _weight: $35})	!$6 & !$67 & !$9 & $10 & $37 & $4 & $60 | !$6 & !$9 & $10 & $37 & $4 & $60 & $66
do	foreach($32)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $65, _trace: $42, _weight: $40})	!$10 & !$6 & !$67 & !$9 & $37 & $4 & $60 | !$10 & !$6 & !$9 & $37 & $4 & $60 & $68
do	foreach($32)	set($62, $59)	!$6 & !$9 & $37 & $4 & $60 & $63
do	foreach($32)	set($5[$65].#0, $35)	!$6 & !$9 & $37 & $4 & $60 & $67 & call(`pdaaal::details::weight_impl::less`, $35, $5[$65].#0'')
do	foreach($32)	set($5[$65].#1, $35)	!$6 & !$9 & $10 & $37 & $4 & $60 & $66 & $67
do	foreach($32)	set($5[$65].#1, $40)	!$10 & !$6 & !$9 & $37 & $4 & $60 & $67 & $68
do	foreach($69)	do(`insert`, $5, $70, tuple{#0: $72, #1: $72})	!$6 & $4 & $73 & $74 & $9
do	foreach($69)	do(`insert`, $5, $70, tuple{#0: $72, #1: $76})	!$6 & !$74 & $4 & $73 & $9
do	foreach($69)	do(`insert`, $5, $70, tuple{#0: $77, #1: $77})	!$6 & !$73 & $4 & $74 & $9
do	foreach($69)	do(`insert`, $5, $70, tuple{#0: $77, #1: $78})	!$6 & !$73 & !$74 & $4 & $9
do	foreach($69)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $70, _trace: $79, _weight: $72})	!$6 & !$81 & $4 & $73 & $74 & $9 | !$6 & $4 & $73 & $74 & $80 & $9
do	foreach($69)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $70, _trace: $79, _weight: $77})	!$6 & !$73 & !$81 & $4 & $74 & $9 | !$6 & !$73 & $4 & $74 & $82 & $9
do	foreach($69)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $70, _trace: $79, _weight: $76})	!$6 & !$74 & !$81 & $4 & $73 & $9 | !$6 & !$74 & $4 & $73 & $83 & $9
do	foreach($69)	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $70, _trace: $79, _weight: $78})	!$6 & !$73 & !$74 & !$81 & $4 & $9 | !$6 & !$73 & !$74 & $4 & $84 & $9
do	foreach($69)	set($5[$70].#0, $72)	!$6 & $4 & $73 & $81 & $9 & call(`pdaaal::details::weight_impl::less`, $72, $5[$70].#0'')
do	foreach($69)	set($5[$70].#0, $77)	!$6 & !$73 & $4 & $81 & $9 & call(`pdaaal::details::weight_impl::less`, $77, $5[$70].#0'')
do	foreach($69)	set($5[$70].#1, $72)	!$6 & $4 & $73 & $74 & $80 & $81 & $9
do	foreach($69)	set($5[$70].#1, $77)	!$6 & !$73 & $4 & $74 & $81 & $82 & $9
do	foreach($69)	set($5[$70].#1, $76)	!$6 & !$74 & $4 & $73 & $81 & $83 & $9
do	foreach($69)	set($5[$70].#1, $78)	!$6 & !$73 & !$74 & $4 & $81 & $84 & $9
== i::PostStarShortestSaturation::workset_empty | i::PostStarShortestSaturation<Wu, true, true, void> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 63
== i::PostStarShortestSaturation::found | i::PostStarShortestSaturation<Wu, true, true, void> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 64
== i::PostStarShortestSaturation::run | i::PostStarShortestSaturation<Wu, true, true, void> | () |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 134
let	$1	empty(self._workset')
do	loop(#0)	do(`pdaaal::internal::PostStarShortestSaturation::step`, self)	!$1 & !self._found'
do	loop(#0)	exit	$1 | self._found'
ret	self._found'	true
== i::PostStarShortestSaturation::weight_edge_trace::weight_edge_trace | i::PostStarShortestSaturation<Wi, true, true, void>::weight_edge_trace | (int, i::temp_edge_t, i::trace_t) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 59
== i::PostStarShortestSaturation::weight_edge_trace_comp::operator() | i::PostStarShortestSaturation<Wi, true, true, void>::weight_edge_trace_comp | (const i::PostStarShortestSaturation<Wi, true, true, void>::weight_edge_trace &, const i::PostStarShortestSaturation<Wi, true, true, void>::weight_edge_trace &) |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 60
== i::PostStarShortestSaturation::PostStarShortestSaturation | i::PostStarShortestSaturation<Wi, true, true, void> | (i::PAutomaton<Wi, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, int>, const int &)> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 135
let	$1	self._automaton
let	$2	addrof(param(#0))
let	$3	self._pda_states
let	$4	addrof($1._pda._states)
let	$5	size($2._states)
let	$6	new(`std::unordered_map`)
let	$7	self._n_automaton_states
let	$8	new(`std::vector`)
let	$9	self._edge_weights
let	$10	fnref(`pdaaal::details::weight_impl::less`)
let	$11	call(`pdaaal::internal::PAutomaton::has_negative_weights`, $2, $10)
let	$12	exists($3, call(`pdaaal::internal::PDA::state_t::has_negative_weight`, $3@0', $10))
let	$13	foreach($3@0._rules)
let	$14	$3@0._rules@0.#0
let	$15	tuple{#0: $14._to, #1: $14._op_label}
let	$16	size($1._states')
let	$17	eq($14._operation, enum(`pdaaal::PUSH`, `pdaaal::op_t`))
let	$18	lin(#0, mul(#-1, $5), $16)
let	$19	mul(#-1, size($4))
let	$20	foreach($1._states)
let	$21	$1._states@0'^._edges
let	$22	foreach($21@0.#1)
let	$23	$1._states@0'^._id'
let	$24	pdaaal::internal::temp_edge_t{_from: $23, _label: $21@0.#1@0.#0', _to: $21@0.#0'}
let	$25	18446744073709551615
let	$26	lt($23, size($4))
do		set($1, $2)	true
do		set(self._early_termination, param(#1))	true
do		set($3, $4)	true
do		set(self._n_pda_states, size($4))	true
do		set(self._n_Q, $5)	true
do		set(self._q_prime, $6)	true
dom		set($7, 0)	true
do		set(self._minpath, $8)	true
do		set($9, $6)	true
do		set(self._workset, new(`std::priority_queue`))	true
do		set(self._rel1, $8)	true
do		set(self._rel2, $8)	true
do		set(self._found, false)	true
do		throw(`std::runtime_error`)	$11 | $12
do	foreach($3) ; $13	do(`insert`, self._q_prime, $15, $16)	!$11 & !$12 & $17
do	foreach($3) ; $13	do(`pdaaal::internal::PAutomaton::add_state`, $1, false, false)	!$11 & !$12 & !contains(self._q_prime', $15) & $17
do		do(`resize`, self._minpath, $18)	!$11 & !$12
do		do(`std::fill`, self._minpath, 2147483647)	!$11 & !$12
do		do(`resize`, self._rel1, lin(#0, $19, $16))	!$11 & !$12
do		do(`resize`, self._rel2, $18)	!$11 & !$12
do		set($7, $16)	!$11 & !$12
do	$20 ; foreach($21) ; $22	do(`insert`, $9, $24, tuple{#0: 0, #1: 0})	!$11 & !$12
do	$20 ; foreach($21) ; $22	do(`push`, self._workset, pdaaal::internal::PostStarShortestSaturation::weight_edge_trace{_edge: $24, _trace: pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $25, _state: $25}, _weight: 0})	!$11 & !$12 & $26
do	$20 ; foreach($21) ; $22	do(`push`, self._rel1[lin(#0, $23, $19)], tuple{#0: $21@0.#0', #1: $21@0.#1@0.#0'})	!$11 & !$12 & !$26
do	$20 ; foreach($21) ; $22	do(`push`, self._rel2[lin(#0, $21@0.#0', mul(#-1, $5))], $23)	!$11 & !$12 & !$26 & !lt($21@0.#0', $5) & eq(4294967295, $21@0.#1@0.#0')
do	$20 ; foreach($21) ; $22	invoke(param(#1), $23, $21@0.#1@0.#0', $21@0.#0', $21@0.#1@0.#1', 0)	!$11 & !$12 & !$26
do	$20 ; foreach($21) ; $22	set(self._found, true)	!$11 & !$12 & !$26 & !self._found' & res_invoke(param(#1), $23, $21@0.#1@0.#0', $21@0.#0', $21@0.#1@0.#1', 0)
== i::PostStarShortestSaturation::step | i::PostStarShortestSaturation<Wi, true, true, void> | () |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 133
== i::PostStarShortestSaturation::workset_empty | i::PostStarShortestSaturation<Wi, true, true, void> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 63
== i::PostStarShortestSaturation::found | i::PostStarShortestSaturation<Wi, true, true, void> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 64
== i::PostStarShortestSaturation::run | i::PostStarShortestSaturation<Wi, true, true, void> | () |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 134
== i::PreStarFixedPointSaturation::PreStarFixedPointSaturation | i::PreStarFixedPointSaturation<Wu, TT::Longest> | (i::PAutomaton<Wu, TI::Pair> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 67
== i::PreStarFixedPointSaturation::PreStarFixedPointSaturation | i::PreStarFixedPointSaturation<Wu, TT::Longest> | (i::PAutomaton<Wu, TI::Pair> &, u64) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 136
let	$1	self._round_limit
let	$2	new(`std::vector`)
let	$3	self._automaton
let	$4	addrof(param(#0))
let	$5	self._pda_states
let	$6	addrof($3._pda._states)
let	$7	size($4._states)
let	$8	call(`pdaaal::internal::PDA::number_of_labels`, $4._pda)
let	$9	ctor(`std::vector`, $7)
let	$10	self._added_pop
let	$11	self._count_transitions
let	$12	foreach($3._states)
let	$13	$3._states@0'^._edges
let	$14	foreach($13@0.#1)
let	$15	$3._states@0'^._id'
let	$16	set($11, lin(#1, $11'))
let	$17	$3._states@0^._id'
let	$18	$3._states@0^._accepting'
let	$19	lt($17, size($6))
let	$20	$5[$17]._pre_states
let	$21	$5[$20@0]._rules
let	$22	range(call(`std::lower_bound`, begin($21), end($21), $17, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($21))
let	$23	foreach(range(0, $8))
let	$24	$3._states[$20@0]^._edges
let	$25	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: lin(#0, mul(#-1, begin($21)), $22@0), _state: 18446744073709551615}
let	$26	$22@0^.#0._weight
let	$27	tuple{#0: tuple{#0: $25, #1: $25}, #1: $26}
let	$28	eq($22@0^.#0._operation, enum(`pdaaal::POP`, `pdaaal::op_t`))
let	$29	$22@0^.#1._wildcard
let	$30	eq($22@0^.#0._to, $17)
let	$31	self._rel[$20@0]
let	$32	contains($24', $17, range(0, $8)@0)
let	$33	$24[$17, range(0, $8)@0]
let	$34	call(`pdaaal::details::weight_impl::less`, $26, $33.#1'')
let	$35	set($1, lin(#1, $11'))
let	$36	$22@0^.#1._labels
let	$37	contains($24', $17, $36@0)
let	$38	$24[$17, $36@0]
let	$39	call(`pdaaal::details::weight_impl::less`, $26, $38.#1'')
do		set(self._done, false)	true
do		set($1, param(#1))	true
do		set(self._rounds, 0)	true
do		set(self._workset, $2)	true
do		set(self._next_workset, $2)	true
do		set($3, $4)	true
do		set($5, $6)	true
do		set(self._n_automaton_states, $7)	true
do		set(self._n_pda_states, size($6))	true
do		set(self._n_pda_labels, $8)	true
do		set(self._rel, $9)	true
do		set(self._delta_prime, $9)	true
do		set($10, ctor(`std::vector`, size($6)))	true
do		set($11, 0)	true
do	$12 ; foreach($13) ; $14	do(`push`, self._rel[$15], tuple{#0: $13@0.#0', #1: $13@0.#1@0.#0'})	true
do	$12 ; foreach($13) ; $14	do(`pdaaal::fixed_point_workset::emplace`, self, $15, $13@0.#1@0.#0', $13@0.#0')	true
do	$12 ; foreach($13) ; $14	$16	true
do	$12	set($10[$17], true)	!$10[$17]' & $18 & $19
do	$12 ; foreach($20) ; foreach($22) ; $23	do(`insert`, $24, $17, range(0, $8)@0, $27)	!$10[$17]' & $18 & $19 & $28 & $29 & $30
do	$12 ; foreach($20) ; foreach($22) ; $23	do(`push`, $31, tuple{#0: $17, #1: range(0, $8)@0})	!$10[$17]' & !$32 & $18 & $19 & $28 & $29 & $30
do	$12 ; foreach($20) ; foreach($22) ; $23	do(`pdaaal::fixed_point_workset::emplace`, self, $20@0, range(0, $8)@0, $17)	!$10[$17]' & !$32 & $18 & $19 & $28 & $29 & $30 | !$10[$17]' & $18 & $19 & $28 & $29 & $30 & $34
do	$12 ; foreach($20) ; foreach($22) ; $23	$16	!$10[$17]' & !$32 & $18 & $19 & $28 & $29 & $30
do	$12 ; foreach($20) ; foreach($22) ; $23	$35	!$10[$17]' & !$32 & $18 & $19 & $28 & $29 & $30
do	$12 ; foreach($20) ; foreach($22) ; $23	set($33.#0.#1, $25)	!$10[$17]' & $18 & $19 & $28 & $29 & $30 & $32 & $34
do	$12 ; foreach($20) ; foreach($22) ; $23	set($33.#1, $26)	!$10[$17]' & $18 & $19 & $28 & $29 & $30 & $32 & $34
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	do(`insert`, $24, $17, $36@0, $27)	!$10[$17]' & !$29 & $18 & $19 & $28 & $30
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	do(`push`, $31, tuple{#0: $17, #1: $36@0})	!$10[$17]' & !$29 & !$37 & $18 & $19 & $28 & $30
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	do(`pdaaal::fixed_point_workset::emplace`, self, $20@0, $36@0, $17)	!$10[$17]' & !$29 & !$37 & $18 & $19 & $28 & $30 | !$10[$17]' & !$29 & $18 & $19 & $28 & $30 & $39
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	$16	!$10[$17]' & !$29 & !$37 & $18 & $19 & $28 & $30
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	$35	!$10[$17]' & !$29 & !$37 & $18 & $19 & $28 & $30
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	set($38.#0.#1, $25)	!$10[$17]' & !$29 & $18 & $19 & $28 & $30 & $37 & $39
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	set($38.#1, $26)	!$10[$17]' & !$29 & $18 & $19 & $28 & $30 & $37 & $39
do	$12 ; foreach($20) ; foreach($22)	exit	!$10[$17]' & !$30 & $18 & $19
do		set($1, $11'')	true
== i::PreStarFixedPointSaturation::step_with | i::PreStarFixedPointSaturation<Wu, TT::Longest> | (i::temp_edge_t &&) | false | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 68
== i::PreStarFixedPointSaturation::step_with | i::PreStarFixedPointSaturation<Wu, TT::Longest> | (i::temp_edge_t &&) | true | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 137
let	$1	self._delta_prime
let	$2	param(#0)._from
let	$3	foreach($1[$2])
let	$4	param(#0)._label
let	$5	self._pda_states
let	$6	$5[$1[$2]@0.#0]._rules[$1[$2]@0.#1]
let	$7	call(`pdaaal::details::weight_impl::add`, $6.#0._weight, 0^.#1')
let	$8	call(`pdaaal::details::weight_impl::add`, $7, 0^.#1)
let	$9	call(`pdaaal::details::weight_impl::less`, $8, 0^.#1')
let	$10	self._automaton._states
let	$11	$10[$2]^._edges
let	$12	$11[param(#0)._to, $4].#1
let	$13	call(`pdaaal::details::weight_impl::add`, $7, $12)
let	$14	call(`pdaaal::details::weight_impl::less`, $13, 0^.#1')
let	$15	$10[$1[$2]@0.#0]^._edges
let	$16	$15[param(#0)._to, $4]
let	$17	call(`pdaaal::details::weight_impl::less`, $13, $16.#1')
let	$18	$10[$6.#0._to]^._edges
let	$19	$6.#0._op_label
let	$20	call(`pdaaal::details::weight_impl::add`, $6.#0._weight, $18[$2, $19].#1')
let	$21	call(`pdaaal::details::weight_impl::add`, $20, $12)
let	$22	call(`pdaaal::details::weight_impl::less`, $21, 0^.#1')
let	$23	contains($11, param(#0)._to, $4)
let	$24	call(`pdaaal::details::weight_impl::less`, $21, $16.#1')
let	$25	contains($15', param(#0)._to, $4)
let	$26	call(`pdaaal::internal::labels_t::contains`, $6.#1, $4)
let	$27	call(`pdaaal::details::weight_impl::add`, $20, 0^.#1)
let	$28	call(`pdaaal::details::weight_impl::less`, $27, 0^.#1')
let	$29	call(`pdaaal::details::weight_impl::less`, $8, $16.#1')
let	$30	contains($18', $2, $19)
let	$31	call(`pdaaal::details::weight_impl::less`, $27, $16.#1')
let	$32	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $1[$2]@0.#1, _state: $2}
let	$33	set(0^.#1, 4294967294)
let	$34	$5[$2]._pre_states
let	$35	$5[$34@0]._rules
let	$36	range(call(`std::lower_bound`, begin($35), end($35), $2, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($35))
let	$37	range(0, self._n_pda_labels)
let	$38	$10[$34@0]^._edges
let	$39	lin(#0, $36@0, mul(#-1, begin($35)))
let	$40	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $39, _state: 18446744073709551615}
let	$41	$36@0^.#0._weight
let	$42	tuple{#0: tuple{#0: $40, #1: $40}, #1: $41}
let	$43	$36@0^.#0._operation
let	$44	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $43)
let	$45	self._added_pop[$2]
let	$46	lt($2, self._n_pda_states)
let	$47	$36@0^.#1._wildcard
let	$48	eq($36@0^.#0._to, $2)
let	$49	self._rel[$34@0]
let	$50	contains($38', $2, $37@0)
let	$51	$38[$2, $37@0].#1
let	$52	call(`pdaaal::details::weight_impl::less`, $41, $51'')
let	$53	self._count_transitions
let	$54	set($53, lin(#1, $53'))
let	$55	set(self._round_limit, lin(#1, $53'))
let	$56	$36@0^.#1._labels
let	$57	contains($38', $2, $56@0)
let	$58	$38[$2, $56@0].#1
let	$59	call(`pdaaal::details::weight_impl::less`, $41, $58'')
let	$60	eq($4, $36@0^.#0._op_label)
let	$61	call(`pdaaal::details::weight_impl::add`, $41, 0^.#1)
let	$62	call(`pdaaal::details::weight_impl::less`, $61, 0^.#1')
let	$63	contains($38', param(#0)._to, $37@0)
let	$64	$38[param(#0)._to, $37@0]
let	$65	call(`pdaaal::details::weight_impl::less`, $61, $64.#1')
let	$66	call(`pdaaal::details::weight_impl::add`, $41, $12)
let	$67	call(`pdaaal::details::weight_impl::less`, $66, $64.#1')
let	$68	call(`pdaaal::details::weight_impl::less`, $66, 0^.#1')
let	$69	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $43)
let	$70	set(0^.#0.#1, $40)
let	$71	contains($38', param(#0)._to, $56@0)
let	$72	$38[param(#0)._to, $56@0]
let	$73	call(`pdaaal::details::weight_impl::less`, $66, $72.#1')
let	$74	call(`pdaaal::details::weight_impl::less`, $61, $72.#1')
let	$75	call(`pdaaal::internal::labels_t::contains`, $36@0^.#1, $4)
let	$76	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $43)
let	$77	contains($38', param(#0)._to, $4)
let	$78	$38[param(#0)._to, $4]
let	$79	call(`pdaaal::details::weight_impl::less`, $66, $78.#1')
let	$80	call(`pdaaal::details::weight_impl::less`, $61, $78.#1')
let	$81	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $43)
let	$82	self._rel[param(#0)._to]
let	$83	call(`pdaaal::details::weight_impl::add`, $66, 0^.#1')
let	$84	$38[$82@0.#0', $82@0.#1']
let	$85	call(`pdaaal::details::weight_impl::less`, $83, $84.#1')
let	$86	call(`pdaaal::internal::labels_t::contains`, $36@0^.#1, $82@0.#1')
let	$87	call(`pdaaal::details::weight_impl::less`, $83, 0^.#1')
let	$88	$10[param(#0)._to]^._edges
let	$89	contains($88', $82@0.#0', $82@0.#1')
let	$90	$88[$82@0.#0', $82@0.#1'].#1'
let	$91	call(`pdaaal::details::weight_impl::add`, $66, $90)
let	$92	call(`pdaaal::details::weight_impl::less`, $91, 0^.#1')
let	$93	call(`pdaaal::details::weight_impl::less`, $91, $84.#1')
let	$94	call(`pdaaal::details::weight_impl::add`, $61, 0^.#1')
let	$95	call(`pdaaal::details::weight_impl::less`, $94, 0^.#1')
let	$96	call(`pdaaal::details::weight_impl::add`, $61, $90)
let	$97	call(`pdaaal::details::weight_impl::less`, $96, 0^.#1')
let	$98	call(`pdaaal::details::weight_impl::less`, $96, $84.#1')
let	$99	call(`pdaaal::details::weight_impl::less`, $94, $84.#1')
let	$100	contains($38', $82@0.#0', $82@0.#1')
let	$101	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $39, _state: param(#0)._to}
do	$3	do(`pdaaal::fixed_point_workset::emplace`, self, $1[$2]@0.#0, $4, param(#0)._to)	!$23 & !$25 & !$30 & $26 & $9 | !$23 & !$25 & $26 & $28 & $30 | !$23 & !$30 & $25 & $26 & $29 | !$23 & $25 & $26 & $30 & $31 | !$25 & !$30 & $14 & $23 & $26 | !$25 & $22 & $23 & $26 & $30 | !$30 & $17 & $23 & $25 & $26 | $23 & $24 & $25 & $26 & $30
do	$3	set($16.#0.#1, $32)	!$23 & !$30 & $25 & $26 & $29 | !$23 & $25 & $26 & $30 & $31 | !$30 & $17 & $23 & $25 & $26 | $23 & $24 & $25 & $26 & $30
do	$3	set(0^.#0.#1, $32)	!$23 & !$25 & !$30 & $26 & $9 | !$23 & !$25 & $26 & $28 & $30 | !$25 & !$30 & $14 & $23 & $26 | !$25 & $22 & $23 & $26 & $30
do	$3	set($16.#1, 4294967294)	!$23 & !$30 & $25 & $26 & $29 | !$23 & $25 & $26 & $30 & $31 | !$30 & $17 & $23 & $25 & $26 | $23 & $24 & $25 & $26 & $30
do	$3	$33	!$23 & !$25 & !$30 & $26 & $9 | !$23 & !$25 & $26 & $28 & $30 | !$25 & !$30 & $14 & $23 & $26 | !$25 & $22 & $23 & $26 & $30
do	foreach($34) ; foreach($36) ; foreach($37)	do(`insert`, $38, $2, $37@0, $42)	!$45 & $44 & $46 & $47 & $48
do	foreach($34) ; foreach($36) ; foreach($37)	do(`push`, $49, tuple{#0: $2, #1: $37@0})	!$45 & !$50 & $44 & $46 & $47 & $48
do	foreach($34) ; foreach($36) ; foreach($37)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $37@0, $2)	!$45 & !$50 & $44 & $46 & $47 & $48 | !$45 & $44 & $46 & $47 & $48 & $52
do	foreach($34) ; foreach($36) ; foreach($37)	$54	!$45 & !$50 & $44 & $46 & $47 & $48
do	foreach($34) ; foreach($36) ; foreach($37)	$55	!$45 & !$50 & $44 & $46 & $47 & $48
do	foreach($34) ; foreach($36) ; foreach($37)	set($38[$2, $37@0].#0.#1, $40)	!$45 & $44 & $46 & $47 & $48 & $50 & $52
do	foreach($34) ; foreach($36) ; foreach($37)	set($51, $41)	!$45 & $44 & $46 & $47 & $48 & $50 & $52
do	foreach($34) ; foreach($36) ; foreach($56)	do(`insert`, $38, $2, $56@0, $42)	!$45 & !$47 & $44 & $46 & $48
do	foreach($34) ; foreach($36) ; foreach($56)	do(`push`, $49, tuple{#0: $2, #1: $56@0})	!$45 & !$47 & !$57 & $44 & $46 & $48
do	foreach($34) ; foreach($36) ; foreach($56)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $56@0, $2)	!$45 & !$47 & !$57 & $44 & $46 & $48 | !$45 & !$47 & $44 & $46 & $48 & $59
do	foreach($34) ; foreach($36) ; foreach($56)	$54	!$45 & !$47 & !$57 & $44 & $46 & $48
do	foreach($34) ; foreach($36) ; foreach($56)	$55	!$45 & !$47 & !$57 & $44 & $46 & $48
do	foreach($34) ; foreach($36) ; foreach($56)	set($38[$2, $56@0].#0.#1, $40)	!$45 & !$47 & $44 & $46 & $48 & $57 & $59
do	foreach($34) ; foreach($36) ; foreach($56)	set($58, $41)	!$45 & !$47 & $44 & $46 & $48 & $57 & $59
do	foreach($34) ; foreach($36) ; foreach($37)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $37@0, param(#0)._to)	!$23 & !$63 & $46 & $47 & $48 & $60 & $62 & $69 | !$23 & $46 & $47 & $48 & $60 & $63 & $65 & $69 | !$63 & $23 & $46 & $47 & $48 & $60 & $68 & $69 | $23 & $46 & $47 & $48 & $60 & $63 & $67 & $69
do	foreach($34) ; foreach($36) ; foreach($37)	set($64.#0.#1, $40)	!$23 & $46 & $47 & $48 & $60 & $63 & $65 & $69 | $23 & $46 & $47 & $48 & $60 & $63 & $67 & $69
do	foreach($34) ; foreach($36) ; foreach($37)	$70	!$23 & !$63 & $46 & $47 & $48 & $60 & $62 & $69 | !$63 & $23 & $46 & $47 & $48 & $60 & $68 & $69
do	foreach($34) ; foreach($36) ; foreach($37)	set($64.#1, 4294967294)	!$23 & $46 & $47 & $48 & $60 & $63 & $65 & $69 | $23 & $46 & $47 & $48 & $60 & $63 & $67 & $69
do	foreach($34) ; foreach($36) ; foreach($37)	$33	!$23 & !$63 & $46 & $47 & $48 & $60 & $62 & $69 | !$63 & $23 & $46 & $47 & $48 & $60 & $68 & $69
do	foreach($34) ; foreach($36) ; foreach($56)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $56@0, param(#0)._to)	!$23 & !$47 & !$71 & $46 & $48 & $60 & $62 & $69 | !$23 & !$47 & $46 & $48 & $60 & $69 & $71 & $74 | !$47 & !$71 & $23 & $46 & $48 & $60 & $68 & $69 | !$47 & $23 & $46 & $48 & $60 & $69 & $71 & $73
do	foreach($34) ; foreach($36) ; foreach($56)	set($72.#0.#1, $40)	!$23 & !$47 & $46 & $48 & $60 & $69 & $71 & $74 | !$47 & $23 & $46 & $48 & $60 & $69 & $71 & $73
do	foreach($34) ; foreach($36) ; foreach($56)	$70	!$23 & !$47 & !$71 & $46 & $48 & $60 & $62 & $69 | !$47 & !$71 & $23 & $46 & $48 & $60 & $68 & $69
do	foreach($34) ; foreach($36) ; foreach($56)	set($72.#1, 4294967294)	!$23 & !$47 & $46 & $48 & $60 & $69 & $71 & $74 | !$47 & $23 & $46 & $48 & $60 & $69 & $71 & $73
do	foreach($34) ; foreach($36) ; foreach($56)	$33	!$23 & !$47 & !$71 & $46 & $48 & $60 & $62 & $69 | !$47 & !$71 & $23 & $46 & $48 & $60 & $68 & $69
do	foreach($34) ; foreach($36)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $4, param(#0)._to)	!$23 & !$77 & $46 & $48 & $62 & $75 & $76 | !$23 & $46 & $48 & $75 & $76 & $77 & $80 | !$77 & $23 & $46 & $48 & $68 & $75 & $76 | $23 & $46 & $48 & $75 & $76 & $77 & $79
do	foreach($34) ; foreach($36)	do(`insert`, $1[param(#0)._to], tuple{#0: $34@0, #1: $39})	$46 & $48 & $60 & $81
do	foreach($34) ; foreach($36)	set($78.#0.#1, $40)	!$23 & $46 & $48 & $75 & $76 & $77 & $80 | $23 & $46 & $48 & $75 & $76 & $77 & $79
do	foreach($34) ; foreach($36)	$70	!$23 & !$77 & $46 & $48 & $62 & $75 & $76 | !$77 & $23 & $46 & $48 & $68 & $75 & $76
do	foreach($34) ; foreach($36)	set($78.#1, 4294967294)	!$23 & $46 & $48 & $75 & $76 & $77 & $80 | $23 & $46 & $48 & $75 & $76 & $77 & $79
do	foreach($34) ; foreach($36)	$33	!$23 & !$77 & $46 & $48 & $62 & $75 & $76 | !$77 & $23 & $46 & $48 & $68 & $75 & $76
do	foreach($34) ; foreach($36) ; foreach($82)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $82@0.#1', $82@0.#0')	!$100 & !$23 & !$89 & $46 & $48 & $60 & $81 & $86 & $95 | !$100 & !$23 & $46 & $48 & $60 & $81 & $86 & $89 & $97 | !$100 & !$89 & $23 & $46 & $48 & $60 & $81 & $86 & $87 | !$100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $92 | !$23 & !$89 & $100 & $46 & $48 & $60 & $81 & $86 & $99 | !$23 & $100 & $46 & $48 & $60 & $81 & $86 & $89 & $98 | !$89 & $100 & $23 & $46 & $48 & $60 & $81 & $85 & $86 | $100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $93
do	foreach($34) ; foreach($36) ; foreach($82)	set($84.#0.#1, $101)	!$23 & !$89 & $100 & $46 & $48 & $60 & $81 & $86 & $99 | !$23 & $100 & $46 & $48 & $60 & $81 & $86 & $89 & $98 | !$89 & $100 & $23 & $46 & $48 & $60 & $81 & $85 & $86 | $100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $93
do	foreach($34) ; foreach($36) ; foreach($82)	set(0^.#0.#1, $101)	!$100 & !$23 & !$89 & $46 & $48 & $60 & $81 & $86 & $95 | !$100 & !$23 & $46 & $48 & $60 & $81 & $86 & $89 & $97 | !$100 & !$89 & $23 & $46 & $48 & $60 & $81 & $86 & $87 | !$100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $92
do	foreach($34) ; foreach($36) ; foreach($82)	set($84.#1, 4294967294)	!$23 & !$89 & $100 & $46 & $48 & $60 & $81 & $86 & $99 | !$23 & $100 & $46 & $48 & $60 & $81 & $86 & $89 & $98 | !$89 & $100 & $23 & $46 & $48 & $60 & $81 & $85 & $86 | $100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $93
do	foreach($34) ; foreach($36) ; foreach($82)	$33	!$100 & !$23 & !$89 & $46 & $48 & $60 & $81 & $86 & $95 | !$100 & !$23 & $46 & $48 & $60 & $81 & $86 & $89 & $97 | !$100 & !$89 & $23 & $46 & $48 & $60 & $81 & $86 & $87 | !$100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $92
do	foreach($34) ; foreach($36)	exit	!$48 & $46
do		set($45, true)	!$45 & $46
ret	true	true
== i::PreStarFixedPointSaturation::PreStarFixedPointSaturation | i::PreStarFixedPointSaturation<Wi, TT::ShortestFixedPoint> | (i::PAutomaton<Wi, TI::Pair> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 67
== i::PreStarFixedPointSaturation::PreStarFixedPointSaturation | i::PreStarFixedPointSaturation<Wi, TT::ShortestFixedPoint> | (i::PAutomaton<Wi, TI::Pair> &, u64) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 136
== i::PreStarFixedPointSaturation::step_with | i::PreStarFixedPointSaturation<Wi, TT::ShortestFixedPoint> | (i::temp_edge_t &&) | false | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 68
== i::PreStarFixedPointSaturation::step_with | i::PreStarFixedPointSaturation<Wi, TT::ShortestFixedPoint> | (i::temp_edge_t &&) | true | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 138
let	$1	self._delta_prime
let	$2	param(#0)._from
let	$3	foreach($1[$2])
let	$4	param(#0)._label
let	$5	self._pda_states
let	$6	$5[$1[$2]@0.#0]._rules[$1[$2]@0.#1]
let	$7	call(`pdaaal::details::weight_impl::add`, $6.#0._weight, 0^.#1')
let	$8	call(`pdaaal::details::weight_impl::add`, $7, 0^.#1)
let	$9	call(`pdaaal::details::weight_impl::less`, $8, 0^.#1')
let	$10	self._automaton._states
let	$11	$10[$2]^._edges
let	$12	$11[param(#0)._to, $4].#1
let	$13	call(`pdaaal::details::weight_impl::add`, $7, $12)
let	$14	call(`pdaaal::details::weight_impl::less`, $13, 0^.#1')
let	$15	$10[$1[$2]@0.#0]^._edges
let	$16	$15[param(#0)._to, $4]
let	$17	call(`pdaaal::details::weight_impl::less`, $13, $16.#1')
let	$18	$10[$6.#0._to]^._edges
let	$19	$6.#0._op_label
let	$20	call(`pdaaal::details::weight_impl::add`, $6.#0._weight, $18[$2, $19].#1')
let	$21	call(`pdaaal::details::weight_impl::add`, $20, $12)
let	$22	call(`pdaaal::details::weight_impl::less`, $21, 0^.#1')
let	$23	contains($11, param(#0)._to, $4)
let	$24	call(`pdaaal::details::weight_impl::less`, $21, $16.#1')
let	$25	contains($15', param(#0)._to, $4)
let	$26	call(`pdaaal::internal::labels_t::contains`, $6.#1, $4)
let	$27	call(`pdaaal::details::weight_impl::add`, $20, 0^.#1)
let	$28	call(`pdaaal::details::weight_impl::less`, $27, 0^.#1')
let	$29	call(`pdaaal::details::weight_impl::less`, $8, $16.#1')
let	$30	contains($18', $2, $19)
let	$31	call(`pdaaal::details::weight_impl::less`, $27, $16.#1')
let	$32	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $1[$2]@0.#1, _state: $2}
let	$33	set(0^.#1, -2147483648)
let	$34	$5[$2]._pre_states
let	$35	$5[$34@0]._rules
let	$36	range(call(`std::lower_bound`, begin($35), end($35), $2, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($35))
let	$37	range(0, self._n_pda_labels)
let	$38	$10[$34@0]^._edges
let	$39	lin(#0, $36@0, mul(#-1, begin($35)))
let	$40	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $39, _state: 18446744073709551615}
let	$41	$36@0^.#0._weight
let	$42	tuple{#0: tuple{#0: $40, #1: $40}, #1: $41}
let	$43	$36@0^.#0._operation
let	$44	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $43)
let	$45	self._added_pop[$2]
let	$46	lt($2, self._n_pda_states)
let	$47	$36@0^.#1._wildcard
let	$48	eq($36@0^.#0._to, $2)
let	$49	self._rel[$34@0]
let	$50	contains($38', $2, $37@0)
let	$51	$38[$2, $37@0].#1
let	$52	call(`pdaaal::details::weight_impl::less`, $41, $51'')
let	$53	self._count_transitions
let	$54	set($53, lin(#1, $53'))
let	$55	set(self._round_limit, lin(#1, $53'))
let	$56	$36@0^.#1._labels
let	$57	contains($38', $2, $56@0)
let	$58	$38[$2, $56@0].#1
let	$59	call(`pdaaal::details::weight_impl::less`, $41, $58'')
let	$60	eq($4, $36@0^.#0._op_label)
let	$61	call(`pdaaal::details::weight_impl::add`, $41, 0^.#1)
let	$62	call(`pdaaal::details::weight_impl::less`, $61, 0^.#1')
let	$63	contains($38', param(#0)._to, $37@0)
let	$64	$38[param(#0)._to, $37@0]
let	$65	call(`pdaaal::details::weight_impl::less`, $61, $64.#1')
let	$66	call(`pdaaal::details::weight_impl::add`, $41, $12)
let	$67	call(`pdaaal::details::weight_impl::less`, $66, $64.#1')
let	$68	call(`pdaaal::details::weight_impl::less`, $66, 0^.#1')
let	$69	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $43)
let	$70	set(0^.#0.#1, $40)
let	$71	contains($38', param(#0)._to, $56@0)
let	$72	$38[param(#0)._to, $56@0]
let	$73	call(`pdaaal::details::weight_impl::less`, $66, $72.#1')
let	$74	call(`pdaaal::details::weight_impl::less`, $61, $72.#1')
let	$75	call(`pdaaal::internal::labels_t::contains`, $36@0^.#1, $4)
let	$76	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $43)
let	$77	contains($38', param(#0)._to, $4)
let	$78	$38[param(#0)._to, $4]
let	$79	call(`pdaaal::details::weight_impl::less`, $66, $78.#1')
let	$80	call(`pdaaal::details::weight_impl::less`, $61, $78.#1')
let	$81	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $43)
let	$82	self._rel[param(#0)._to]
let	$83	call(`pdaaal::details::weight_impl::add`, $66, 0^.#1')
let	$84	$38[$82@0.#0', $82@0.#1']
let	$85	call(`pdaaal::details::weight_impl::less`, $83, $84.#1')
let	$86	call(`pdaaal::internal::labels_t::contains`, $36@0^.#1, $82@0.#1')
let	$87	call(`pdaaal::details::weight_impl::less`, $83, 0^.#1')
let	$88	$10[param(#0)._to]^._edges
let	$89	contains($88', $82@0.#0', $82@0.#1')
let	$90	$88[$82@0.#0', $82@0.#1'].#1'
let	$91	call(`pdaaal::details::weight_impl::add`, $66, $90)
let	$92	call(`pdaaal::details::weight_impl::less`, $91, 0^.#1')
let	$93	call(`pdaaal::details::weight_impl::less`, $91, $84.#1')
let	$94	call(`pdaaal::details::weight_impl::add`, $61, 0^.#1')
let	$95	call(`pdaaal::details::weight_impl::less`, $94, 0^.#1')
let	$96	call(`pdaaal::details::weight_impl::add`, $61, $90)
let	$97	call(`pdaaal::details::weight_impl::less`, $96, 0^.#1')
let	$98	call(`pdaaal::details::weight_impl::less`, $96, $84.#1')
let	$99	call(`pdaaal::details::weight_impl::less`, $94, $84.#1')
let	$100	contains($38', $82@0.#0', $82@0.#1')
let	$101	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $39, _state: param(#0)._to}
do	$3	do(`pdaaal::fixed_point_workset::emplace`, self, $1[$2]@0.#0, $4, param(#0)._to)	!$23 & !$25 & !$30 & $26 & $9 | !$23 & !$25 & $26 & $28 & $30 | !$23 & !$30 & $25 & $26 & $29 | !$23 & $25 & $26 & $30 & $31 | !$25 & !$30 & $14 & $23 & $26 | !$25 & $22 & $23 & $26 & $30 | !$30 & $17 & $23 & $25 & $26 | $23 & $24 & $25 & $26 & $30
do	$3	set($16.#0.#1, $32)	!$23 & !$30 & $25 & $26 & $29 | !$23 & $25 & $26 & $30 & $31 | !$30 & $17 & $23 & $25 & $26 | $23 & $24 & $25 & $26 & $30
do	$3	set(0^.#0.#1, $32)	!$23 & !$25 & !$30 & $26 & $9 | !$23 & !$25 & $26 & $28 & $30 | !$25 & !$30 & $14 & $23 & $26 | !$25 & $22 & $23 & $26 & $30
do	$3	set($16.#1, -2147483648)	!$23 & !$30 & $25 & $26 & $29 | !$23 & $25 & $26 & $30 & $31 | !$30 & $17 & $23 & $25 & $26 | $23 & $24 & $25 & $26 & $30
do	$3	$33	!$23 & !$25 & !$30 & $26 & $9 | !$23 & !$25 & $26 & $28 & $30 | !$25 & !$30 & $14 & $23 & $26 | !$25 & $22 & $23 & $26 & $30
do	foreach($34) ; foreach($36) ; foreach($37)	do(`insert`, $38, $2, $37@0, $42)	!$45 & $44 & $46 & $47 & $48
do	foreach($34) ; foreach($36) ; foreach($37)	do(`push`, $49, tuple{#0: $2, #1: $37@0})	!$45 & !$50 & $44 & $46 & $47 & $48
do	foreach($34) ; foreach($36) ; foreach($37)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $37@0, $2)	!$45 & !$50 & $44 & $46 & $47 & $48 | !$45 & $44 & $46 & $47 & $48 & $52
do	foreach($34) ; foreach($36) ; foreach($37)	$54	!$45 & !$50 & $44 & $46 & $47 & $48
do	foreach($34) ; foreach($36) ; foreach($37)	$55	!$45 & !$50 & $44 & $46 & $47 & $48
do	foreach($34) ; foreach($36) ; foreach($37)	set($38[$2, $37@0].#0.#1, $40)	!$45 & $44 & $46 & $47 & $48 & $50 & $52
do	foreach($34) ; foreach($36) ; foreach($37)	set($51, $41)	!$45 & $44 & $46 & $47 & $48 & $50 & $52
do	foreach($34) ; foreach($36) ; foreach($56)	do(`insert`, $38, $2, $56@0, $42)	!$45 & !$47 & $44 & $46 & $48
do	foreach($34) ; foreach($36) ; foreach($56)	do(`push`, $49, tuple{#0: $2, #1: $56@0})	!$45 & !$47 & !$57 & $44 & $46 & $48
do	foreach($34) ; foreach($36) ; foreach($56)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $56@0, $2)	!$45 & !$47 & !$57 & $44 & $46 & $48 | !$45 & !$47 & $44 & $46 & $48 & $59
do	foreach($34) ; foreach($36) ; foreach($56)	$54	!$45 & !$47 & !$57 & $44 & $46 & $48
do	foreach($34) ; foreach($36) ; foreach($56)	$55	!$45 & !$47 & !$57 & $44 & $46 & $48
do	foreach($34) ; foreach($36) ; foreach($56)	set($38[$2, $56@0].#0.#1, $40)	!$45 & !$47 & $44 & $46 & $48 & $57 & $59
do	foreach($34) ; foreach($36) ; foreach($56)	set($58, $41)	!$45 & !$47 & $44 & $46 & $48 & $57 & $59
do	foreach($34) ; foreach($36) ; foreach($37)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $37@0, param(#0)._to)	!$23 & !$63 & $46 & $47 & $48 & $60 & $62 & $69 | !$23 & $46 & $47 & $48 & $60 & $63 & $65 & $69 | !$63 & $23 & $46 & $47 & $48 & $60 & $68 & $69 | $23 & $46 & $47 & $48 & $60 & $63 & $67 & $69
do	foreach($34) ; foreach($36) ; foreach($37)	set($64.#0.#1, $40)	!$23 & $46 & $47 & $48 & $60 & $63 & $65 & $69 | $23 & $46 & $47 & $48 & $60 & $63 & $67 & $69
do	foreach($34) ; foreach($36) ; foreach($37)	$70	!$23 & !$63 & $46 & $47 & $48 & $60 & $62 & $69 | !$63 & $23 & $46 & $47 & $48 & $60 & $68 & $69
do	foreach($34) ; foreach($36) ; foreach($37)	set($64.#1, -2147483648)	!$23 & $46 & $47 & $48 & $60 & $63 & $65 & $69 | $23 & $46 & $47 & $48 & $60 & $63 & $67 & $69
do	foreach($34) ; foreach($36) ; foreach($37)	$33	!$23 & !$63 & $46 & $47 & $48 & $60 & $62 & $69 | !$63 & $23 & $46 & $47 & $48 & $60 & $68 & $69
do	foreach($34) ; foreach($36) ; foreach($56)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $56@0, param(#0)._to)	!$23 & !$47 & !$71 & $46 & $48 & $60 & $62 & $69 | !$23 & !$47 & $46 & $48 & $60 & $69 & $71 & $74 | !$47 & !$71 & $23 & $46 & $48 & $60 & $68 & $69 | !$47 & $23 & $46 & $48 & $60 & $69 & $71 & $73
do	foreach($34) ; foreach($36) ; foreach($56)	set($72.#0.#1, $40)	!$23 & !$47 & $46 & $48 & $60 & $69 & $71 & $74 | !$47 & $23 & $46 & $48 & $60 & $69 & $71 & $73
do	foreach($34) ; foreach($36) ; foreach($56)	$70	!$23 & !$47 & !$71 & $46 & $48 & $60 & $62 & $69 | !$47 & !$71 & $23 & $46 & $48 & $60 & $68 & $69
do	foreach($34) ; foreach($36) ; foreach($56)	set($72.#1, -2147483648)	!$23 & !$47 & $46 & $48 & $60 & $69 & $71 & $74 | !$47 & $23 & $46 & $48 & $60 & $69 & $71 & $73
do	foreach($34) ; foreach($36) ; foreach($56)	$33	!$23 & !$47 & !$71 & $46 & $48 & $60 & $62 & $69 | !$47 & !$71 & $23 & $46 & $48 & $60 & $68 & $69
do	foreach($34) ; foreach($36)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $4, param(#0)._to)	!$23 & !$77 & $46 & $48 & $62 & $75 & $76 | !$23 & $46 & $48 & $75 & $76 & $77 & $80 | !$77 & $23 & $46 & $48 & $68 & $75 & $76 | $23 & $46 & $48 & $75 & $76 & $77 & $79
do	foreach($34) ; foreach($36)	do(`insert`, $1[param(#0)._to], tuple{#0: $34@0, #1: $39})	$46 & $48 & $60 & $81
do	foreach($34) ; foreach($36)	set($78.#0.#1, $40)	!$23 & $46 & $48 & $75 & $76 & $77 & $80 | $23 & $46 & $48 & $75 & $76 & $77 & $79
do	foreach($34) ; foreach($36)	$70	!$23 & !$77 & $46 & $48 & $62 & $75 & $76 | !$77 & $23 & $46 & $48 & $68 & $75 & $76
do	foreach($34) ; foreach($36)	set($78.#1, -2147483648)	!$23 & $46 & $48 & $75 & $76 & $77 & $80 | $23 & $46 & $48 & $75 & $76 & $77 & $79
do	foreach($34) ; foreach($36)	$33	!$23 & !$77 & $46 & $48 & $62 & $75 & $76 | !$77 & $23 & $46 & $48 & $68 & $75 & $76
do	foreach($34) ; foreach($36) ; foreach($82)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $82@0.#1', $82@0.#0')	!$100 & !$23 & !$89 & $46 & $48 & $60 & $81 & $86 & $95 | !$100 & !$23 & $46 & $48 & $60 & $81 & $86 & $89 & $97 | !$100 & !$89 & $23 & $46 & $48 & $60 & $81 & $86 & $87 | !$100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $92 | !$23 & !$89 & $100 & $46 & $48 & $60 & $81 & $86 & $99 | !$23 & $100 & $46 & $48 & $60 & $81 & $86 & $89 & $98 | !$89 & $100 & $23 & $46 & $48 & $60 & $81 & $85 & $86 | $100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $93
do	foreach($34) ; foreach($36) ; foreach($82)	set($84.#0.#1, $101)	!$23 & !$89 & $100 & $46 & $48 & $60 & $81 & $86 & $99 | !$23 & $100 & $46 & $48 & $60 & $81 & $86 & $89 & $98 | !$89 & $100 & $23 & $46 & $48 & $60 & $81 & $85 & $86 | $100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $93
do	foreach($34) ; foreach($36) ; foreach($82)	set(0^.#0.#1, $101)	!$100 & !$23 & !$89 & $46 & $48 & $60 & $81 & $86 & $95 | !$100 & !$23 & $46 & $48 & $60 & $81 & $86 & $89 & $97 | !$100 & !$89 & $23 & $46 & $48 & $60 & $81 & $86 & $87 | !$100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $92
do	foreach($34) ; foreach($36) ; foreach($82)	set($84.#1, -2147483648)	!$23 & !$89 & $100 & $46 & $48 & $60 & $81 & $86 & $99 | !$23 & $100 & $46 & $48 & $60 & $81 & $86 & $89 & $98 | !$89 & $100 & $23 & $46 & $48 & $60 & $81 & $85 & $86 | $100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $93
do	foreach($34) ; foreach($36) ; foreach($82)	$33	!$100 & !$23 & !$89 & $46 & $48 & $60 & $81 & $86 & $95 | !$100 & !$23 & $46 & $48 & $60 & $81 & $86 & $89 & $97 | !$100 & !$89 & $23 & $46 & $48 & $60 & $81 & $86 & $87 | !$100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $92
do	foreach($34) ; foreach($36)	exit	!$48 & $46
do		set($45, true)	!$45 & $46
ret	true	true
== i::PostStarFixedPointSaturation::PostStarFixedPointSaturation | i::PostStarFixedPointSaturation<Wu, TT::Longest> | (i::PAutomaton<Wu, TI::Pair> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 139
let	$1	self._round_limit
let	$2	new(`std::vector`)
let	$3	self._automaton
let	$4	addrof(param(#0))
let	$5	self._pda_states
let	$6	addrof($3._pda._states)
let	$7	size($4._states)
let	$8	self._n_automaton_states
let	$9	self._count_transitions
let	$10	foreach($5@0._rules)
let	$11	$5@0._rules@0.#0
let	$12	tuple{#0: $11._to', #1: $11._op_label'}
let	$13	size($3._states')
let	$14	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $11._operation')
let	$15	mul(#-1, size($6))
let	$16	foreach($3._states)
let	$17	$3._states@0'^._edges
let	$18	foreach($17@0.#1)
let	$19	$3._states@0'^._id'
let	$20	lt($19, size($6))
do		set(self._done, false)	true
do		set($1, fcast(`unsigned long`, times(fcast(`double`, call(`pdaaal::internal::PDA::number_of_labels`, param(#0)._pda)), call(`std::pow`, size(param(#0)._states), 2))))	true
do		set(self._rounds, 0)	true
do		set(self._workset, $2)	true
do		set(self._next_workset, $2)	true
do		set($3, $4)	true
do		set($5, $6)	true
do		set(self._n_pda_states, size($6))	true
do		set(self._n_Q, $7)	true
do		set(self._q_prime, new(`std::unordered_map`))	true
do		set($8, 0)	true
do		set(self._rel1, $2)	true
do		set(self._rel2, $2)	true
do		set($9, 0)	true
do	foreach($5) ; $10	do(`insert`, self._q_prime, $12, $13)	$14
do	foreach($5) ; $10	do(`pdaaal::internal::PAutomaton::add_state`, $3, false, false)	!contains(self._q_prime', $12) & $14
do		do(`resize`, self._rel1, lin(#0, $15, $13))	true
do		do(`resize`, self._rel2, lin(#0, mul(#-1, $7), $13))	true
do		set($8, $13)	true
do	$16 ; foreach($17) ; $18	do(`pdaaal::fixed_point_workset::emplace`, self, $19, $17@0.#1@0.#0', $17@0.#0')	$20
do	$16 ; foreach($17) ; $18	do(`push`, self._rel1[lin(#0, $19, $15)], tuple{#0: $17@0.#0', #1: $17@0.#1@0.#0'})	!$20
do	$16 ; foreach($17) ; $18	do(`push`, self._rel2[lin(#0, $17@0.#0', mul(#-1, $7))], $19)	!$20 & !lt($17@0.#0', $7) & eq(4294967295, $17@0.#1@0.#0')
do	$16 ; foreach($17) ; $18	set($9, lin(#1, $9'))	$20
do		set($1, $9')	true
== i::PostStarFixedPointSaturation::PostStarFixedPointSaturation | i::PostStarFixedPointSaturation<Wu, TT::Longest> | (i::PAutomaton<Wu, TI::Pair> &, u64) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 140
let	$1	self._round_limit
let	$2	new(`std::vector`)
let	$3	self._automaton
let	$4	addrof(param(#0))
let	$5	self._pda_states
let	$6	addrof($3._pda._states)
let	$7	size($4._states)
let	$8	self._n_automaton_states
let	$9	self._count_transitions
let	$10	foreach($5@0._rules)
let	$11	$5@0._rules@0.#0
let	$12	tuple{#0: $11._to', #1: $11._op_label'}
let	$13	size($3._states')
let	$14	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $11._operation')
let	$15	mul(#-1, size($6))
let	$16	foreach($3._states)
let	$17	$3._states@0'^._edges
let	$18	foreach($17@0.#1)
let	$19	$3._states@0'^._id'
let	$20	lt($19, size($6))
do		set(self._done, false)	true
do		set($1, param(#1))	true
do		set(self._rounds, 0)	true
do		set(self._workset, $2)	true
do		set(self._next_workset, $2)	true
do		set($3, $4)	true
do		set($5, $6)	true
do		set(self._n_pda_states, size($6))	true
do		set(self._n_Q, $7)	true
do		set(self._q_prime, new(`std::unordered_map`))	true
do		set($8, 0)	true
do		set(self._rel1, $2)	true
do		set(self._rel2, $2)	true
do		set($9, 0)	true
do	foreach($5) ; $10	do(`insert`, self._q_prime, $12, $13)	$14
do	foreach($5) ; $10	do(`pdaaal::internal::PAutomaton::add_state`, $3, false, false)	!contains(self._q_prime', $12) & $14
do		do(`resize`, self._rel1, lin(#0, $15, $13))	true
do		do(`resize`, self._rel2, lin(#0, mul(#-1, $7), $13))	true
do		set($8, $13)	true
do	$16 ; foreach($17) ; $18	do(`pdaaal::fixed_point_workset::emplace`, self, $19, $17@0.#1@0.#0', $17@0.#0')	$20
do	$16 ; foreach($17) ; $18	do(`push`, self._rel1[lin(#0, $19, $15)], tuple{#0: $17@0.#0', #1: $17@0.#1@0.#0'})	!$20
do	$16 ; foreach($17) ; $18	do(`push`, self._rel2[lin(#0, $17@0.#0', mul(#-1, $7))], $19)	!$20 & !lt($17@0.#0', $7) & eq(4294967295, $17@0.#1@0.#0')
do	$16 ; foreach($17) ; $18	set($9, lin(#1, $9'))	$20
do		set($1, $9')	true
== i::PostStarFixedPointSaturation::step_with | i::PostStarFixedPointSaturation<Wu, TT::Longest> | (i::temp_edge_t &&) | false | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 141
let	$1	param(#0)._from
let	$2	self._pda_states[$1]._rules
let	$3	self._automaton._states
let	$4	$3[$2@0.#0._to]^._edges
let	$5	param(#0)._label
let	$6	pdaaal::internal::trace_t{_label: $5, _rule_id: ix($2, #0), _state: $1}
let	$7	tuple{#0: $6, #1: $6}
let	$8	$3[$1]^._edges[param(#0)._to, $5].#1
let	$9	$2@0.#0._weight
let	$10	call(`pdaaal::details::weight_impl::add`, $8, $9)
let	$11	tuple{#0: $7, #1: $10}
let	$12	contains($3[$1]^._edges, param(#0)._to, $5)
let	$13	call(`pdaaal::internal::labels_t::contains`, $2@0.#1, $5)
let	$14	$2@0.#0._operation
let	$15	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $14)
let	$16	eq($5, 4294967295)
let	$17	call(`pdaaal::details::weight_impl::add`, 0^.#1, $9)
let	$18	tuple{#0: $7, #1: $17}
let	$19	self._n_pda_states
let	$20	self._rel1[lin(#0, mul(#-1, $19), $2@0.#0._to)]
let	$21	contains($4', param(#0)._to, 4294967295)
let	$22	lt($2@0.#0._to, $19)
let	$23	mul(#-1, self._n_Q)
let	$24	$2@0.#0._op_label
let	$25	eq(4294967295, $24)
let	$26	contains($4', param(#0)._to, $24)
let	$27	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $14)
let	$28	$4[param(#0)._to, 4294967295]
let	$29	call(`pdaaal::details::weight_impl::less`, $17, $28.#1'')
let	$30	call(`pdaaal::details::weight_impl::less`, $10, $28.#1'')
let	$31	$4[param(#0)._to, $24]
let	$32	call(`pdaaal::details::weight_impl::less`, $10, $31.#1'')
let	$33	call(`pdaaal::details::weight_impl::less`, $17, $31.#1'')
let	$34	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $14)
let	$35	tuple{#0: param(#0)._to, #1: $5}
let	$36	contains($4', param(#0)._to, $5)
let	$37	$4[param(#0)._to, $5]
let	$38	call(`pdaaal::details::weight_impl::less`, $17, $37.#1'')
let	$39	call(`pdaaal::details::weight_impl::less`, $10, $37.#1'')
let	$40	self._q_prime[tuple{#0: $2@0.#0._to, #1: $24}]
let	$41	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $14)
let	$42	contains($4', $40, $24)
let	$43	self._rel2[lin(#0, $23, $40)]
let	$44	$4[$40, $24].#1
let	$45	call(`pdaaal::details::weight_impl::less`, 0, $44'')
let	$46	$3[$40]^._edges
let	$47	contains($46'', param(#0)._to, $5)
let	$48	$46[param(#0)._to, $5]
let	$49	call(`pdaaal::details::weight_impl::less`, $10, $48.#1'')
let	$50	call(`pdaaal::details::weight_impl::less`, $17, $48.#1'')
let	$51	self._count_transitions
let	$52	set($51, lin(#1, $51'))
let	$53	self._round_limit
let	$54	set($53, lin(#1, $51'))
let	$55	$3[$43@0'']^._edges
let	$56	18446744073709551615
let	$57	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $56, _state: $40}
let	$58	tuple{#0: $57, #1: $57}
let	$59	$55[$40, 4294967295].#1''
let	$60	call(`pdaaal::details::weight_impl::add`, $10, $59)
let	$61	contains($55'', $40, 4294967295)
let	$62	call(`pdaaal::details::weight_impl::add`, $10, 0^.#1)
let	$63	call(`pdaaal::details::weight_impl::add`, $17, $59)
let	$64	call(`pdaaal::details::weight_impl::add`, $17, 0^.#1)
let	$65	lt($43@0'', $19)
let	$66	contains($55'', param(#0)._to, $5)
let	$67	$55[param(#0)._to, $5]
let	$68	call(`pdaaal::details::weight_impl::less`, $60, $67.#1'')
let	$69	call(`pdaaal::details::weight_impl::less`, $62, $67.#1'')
let	$70	call(`pdaaal::details::weight_impl::less`, $64, $67.#1'')
let	$71	call(`pdaaal::details::weight_impl::less`, $63, $67.#1'')
let	$72	self._rel1[lin(#0, mul(#-1, $19), param(#0)._to)]
let	$73	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $56, _state: param(#0)._to}
let	$74	tuple{#0: $73, #1: $73}
let	$75	$3[param(#0)._to]^._edges
let	$76	$75[$72@0.#0', $72@0.#1'].#1'
let	$77	call(`pdaaal::details::weight_impl::add`, $76, $8)
let	$78	contains($75', $72@0.#0', $72@0.#1')
let	$79	call(`pdaaal::details::weight_impl::add`, $76, 0^.#1)
let	$80	call(`pdaaal::details::weight_impl::add`, 0^.#1, $8)
let	$81	call(`pdaaal::details::weight_impl::add`, 0^.#1, 0^.#1)
let	$82	contains($3[$1]^._edges', $72@0.#0', $72@0.#1')
let	$83	$3[$1]^._edges[$72@0.#0', $72@0.#1']
let	$84	call(`pdaaal::details::weight_impl::less`, $81, $83.#1'')
let	$85	call(`pdaaal::details::weight_impl::less`, $79, $83.#1'')
let	$86	call(`pdaaal::details::weight_impl::less`, $80, $83.#1'')
let	$87	call(`pdaaal::details::weight_impl::less`, $77, $83.#1'')
do	foreach($2)	do(`insert`, $4, param(#0)._to, 4294967295, $11)	!$16 & $12 & $13 & $15
do	foreach($2)	do(`insert`, $4, param(#0)._to, 4294967295, $18)	!$12 & !$16 & $13 & $15
do	foreach($2)	do(`push`, $20, tuple{#0: param(#0)._to, #1: 4294967295})	!$16 & !$21 & !$22 & $13 & $15
dom	foreach($2)	do(`push`, self._rel2[lin(#0, $23, param(#0)._to)], $2@0.#0._to)	!$16 & !$21 & !lt(param(#0)._to, self._n_Q) & $13 & $15 | !$16 & !$26 & !lt(param(#0)._to, self._n_Q) & $13 & $25 & $27
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, 4294967295, param(#0)._to)	!$12 & !$16 & $13 & $15 & $22 & $29 | !$16 & !$21 & $13 & $15 & $22 | !$16 & $12 & $13 & $15 & $22 & $30
do	foreach($2)	do(`insert`, $4, param(#0)._to, $24, $11)	!$16 & $12 & $13 & $27
do	foreach($2)	do(`insert`, $4, param(#0)._to, $24, $18)	!$12 & !$16 & $13 & $27
do	foreach($2)	set($28.#0.#1, $6)	!$12 & !$16 & $13 & $15 & $21 & $29 | !$16 & $12 & $13 & $15 & $21 & $30
do	foreach($2)	set($28.#1, $10)	!$16 & $12 & $13 & $15 & $21 & $30
do	foreach($2)	set($28.#1, $17)	!$12 & !$16 & $13 & $15 & $21 & $29
do	foreach($2)	do(`push`, $20, tuple{#0: param(#0)._to, #1: $24})	!$16 & !$22 & !$26 & $13 & $27
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $24, param(#0)._to)	!$12 & !$16 & $13 & $22 & $27 & $33 | !$16 & !$26 & $13 & $22 & $27 | !$16 & $12 & $13 & $22 & $27 & $32
do	foreach($2)	do(`insert`, $4, param(#0)._to, $5, $11)	!$16 & $12 & $13 & $34
do	foreach($2)	do(`insert`, $4, param(#0)._to, $5, $18)	!$12 & !$16 & $13 & $34
do	foreach($2)	set($31.#0.#1, $6)	!$12 & !$16 & $13 & $26 & $27 & $33 | !$16 & $12 & $13 & $26 & $27 & $32
do	foreach($2)	set($31.#1, $10)	!$16 & $12 & $13 & $26 & $27 & $32
do	foreach($2)	set($31.#1, $17)	!$12 & !$16 & $13 & $26 & $27 & $33
do	foreach($2)	do(`push`, $20, $35)	!$16 & !$22 & !$36 & $13 & $34
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $5, param(#0)._to)	!$12 & !$16 & $13 & $22 & $34 & $38 | !$16 & !$36 & $13 & $22 & $34 | !$16 & $12 & $13 & $22 & $34 & $39
do	foreach($2)	do(`insert`, $4, $40, $24, tuple{#0: $7, #1: 0})	!$16 & $13 & $41
do	foreach($2)	set($37.#0.#1, $6)	!$12 & !$16 & $13 & $34 & $36 & $38 | !$16 & $12 & $13 & $34 & $36 & $39
do	foreach($2)	set($37.#1, $10)	!$16 & $12 & $13 & $34 & $36 & $39
do	foreach($2)	set($37.#1, $17)	!$12 & !$16 & $13 & $34 & $36 & $38
do	foreach($2)	do(`push`, $20, tuple{#0: $40, #1: $24})	!$16 & !$22 & !$42 & $13 & $41
do	foreach($2)	do(`push`, $43, $2@0.#0._to)	!$16 & !$42 & !lt($40, self._n_Q) & $13 & $25 & $41
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $24, $40)	!$16 & !$42 & $13 & $22 & $41 | !$16 & $13 & $22 & $41 & $45
do	foreach($2)	do(`insert`, $46, param(#0)._to, $5, $11)	!$16 & $12 & $13 & $41
do	foreach($2)	do(`insert`, $46, param(#0)._to, $5, $18)	!$12 & !$16 & $13 & $41
do	foreach($2)	do(`push`, self._rel1[lin(#0, mul(#-1, $19), $40)], $35)	!$16 & !$47 & !lt($40, $19) & $13 & $41
do	foreach($2)	set($4[$40, $24].#0.#1, $6)	!$16 & $13 & $41 & $42 & $45
do	foreach($2)	set($44, 0)	!$16 & $13 & $41 & $42 & $45
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $40, $5, param(#0)._to)	!$12 & !$16 & $13 & $41 & $50 & lt($40, $19) | !$16 & !$47 & $13 & $41 & lt($40, $19) | !$16 & $12 & $13 & $41 & $49 & lt($40, $19)
do	foreach($2)	set($51, lin(#2, $51'))	!$16 & !$42 & !$47 & $13 & $41
do	foreach($2)	$52	!$16 & !$21 & !$27 & !$34 & !$41 & $13 | !$16 & !$26 & $13 & $27 | !$16 & !$36 & $13 & $34 | !$16 & !$42 & $13 & $41 & $47 | !$16 & !$47 & $13 & $41 & $42
do	foreach($2)	set($53, lin(#2, $51'))	!$16 & !$42 & !$47 & $13 & $41
do	foreach($2)	$54	!$16 & !$21 & !$27 & !$34 & !$41 & $13 | !$16 & !$26 & $13 & $27 | !$16 & !$36 & $13 & $34 | !$16 & !$42 & $13 & $41 & $47 | !$16 & !$47 & $13 & $41 & $42
do	foreach($2)	set($48.#0.#1, $6)	!$12 & !$16 & $13 & $41 & $47 & $50 | !$16 & $12 & $13 & $41 & $47 & $49
do	foreach($2)	set($48.#1, $10)	!$16 & $12 & $13 & $41 & $47 & $49
do	foreach($2)	set($48.#1, $17)	!$12 & !$16 & $13 & $41 & $47 & $50
do	foreach($2) ; foreach($43)	do(`insert`, $55, param(#0)._to, $5, tuple{#0: $58, #1: $60})	!$16 & !$47 & $12 & $13 & $41 & $61 | !$16 & $12 & $13 & $41 & $49 & $61
do	foreach($2) ; foreach($43)	do(`insert`, $55, param(#0)._to, $5, tuple{#0: $58, #1: $62})	!$16 & !$47 & !$61 & $12 & $13 & $41 | !$16 & !$61 & $12 & $13 & $41 & $49
do	foreach($2) ; foreach($43)	do(`insert`, $55, param(#0)._to, $5, tuple{#0: $58, #1: $63})	!$12 & !$16 & !$47 & $13 & $41 & $61 | !$12 & !$16 & $13 & $41 & $50 & $61
do	foreach($2) ; foreach($43)	do(`insert`, $55, param(#0)._to, $5, tuple{#0: $58, #1: $64})	!$12 & !$16 & !$47 & !$61 & $13 & $41 | !$12 & !$16 & !$61 & $13 & $41 & $50
do	foreach($2) ; foreach($43)	do(`push`, self._rel1[lin(#0, mul(#-1, $19), $43@0'')], $35)	!$12 & !$16 & !$65 & !$66 & $13 & $41 & $50 | !$16 & !$47 & !$65 & !$66 & $13 & $41 | !$16 & !$65 & !$66 & $12 & $13 & $41 & $49
do	foreach($2) ; foreach($43)	do(`pdaaal::fixed_point_workset::emplace`, self, $43@0'', $5, param(#0)._to)	!$12 & !$16 & !$47 & !$61 & $13 & $41 & $65 & $70 | !$12 & !$16 & !$47 & $13 & $41 & $61 & $65 & $71 | !$12 & !$16 & !$61 & $13 & $41 & $50 & $65 & $70 | !$12 & !$16 & !$66 & $13 & $41 & $50 & $65 | !$12 & !$16 & $13 & $41 & $50 & $61 & $65 & $71 | !$16 & !$47 & !$61 & $12 & $13 & $41 & $65 & $69 | !$16 & !$47 & !$66 & $13 & $41 & $65 | !$16 & !$47 & $12 & $13 & $41 & $61 & $65 & $68 | !$16 & !$61 & $12 & $13 & $41 & $49 & $65 & $69 | !$16 & !$66 & $12 & $13 & $41 & $49 & $65 | !$16 & $12 & $13 & $41 & $49 & $61 & $65 & $68
do	foreach($2) ; foreach($43)	$52	!$12 & !$16 & !$66 & $13 & $41 & $50 | !$16 & !$47 & !$66 & $13 & $41 | !$16 & !$66 & $12 & $13 & $41 & $49
do	foreach($2) ; foreach($43)	$54	!$12 & !$16 & !$66 & $13 & $41 & $50 | !$16 & !$47 & !$66 & $13 & $41 | !$16 & !$66 & $12 & $13 & $41 & $49
do	foreach($2) ; foreach($43)	set($67.#0.#1, $57)	!$12 & !$16 & !$47 & !$61 & $13 & $41 & $66 & $70 | !$12 & !$16 & !$47 & $13 & $41 & $61 & $66 & $71 | !$12 & !$16 & !$61 & $13 & $41 & $50 & $66 & $70 | !$12 & !$16 & $13 & $41 & $50 & $61 & $66 & $71 | !$16 & !$47 & !$61 & $12 & $13 & $41 & $66 & $69 | !$16 & !$47 & $12 & $13 & $41 & $61 & $66 & $68 | !$16 & !$61 & $12 & $13 & $41 & $49 & $66 & $69 | !$16 & $12 & $13 & $41 & $49 & $61 & $66 & $68
do	foreach($2) ; foreach($43)	set($67.#1, $60)	!$16 & !$47 & $12 & $13 & $41 & $61 & $66 & $68 | !$16 & $12 & $13 & $41 & $49 & $61 & $66 & $68
do	foreach($2) ; foreach($43)	set($67.#1, $62)	!$16 & !$47 & !$61 & $12 & $13 & $41 & $66 & $69 | !$16 & !$61 & $12 & $13 & $41 & $49 & $66 & $69
do	foreach($2) ; foreach($43)	set($67.#1, $63)	!$12 & !$16 & !$47 & $13 & $41 & $61 & $66 & $71 | !$12 & !$16 & $13 & $41 & $50 & $61 & $66 & $71
do	foreach($2) ; foreach($43)	set($67.#1, $64)	!$12 & !$16 & !$47 & !$61 & $13 & $41 & $66 & $70 | !$12 & !$16 & !$61 & $13 & $41 & $50 & $66 & $70
do	foreach($72)	do(`insert`, $3[$1]^._edges, $72@0.#0', $72@0.#1', tuple{#0: $74, #1: $77})	$12 & $16 & $78
do	foreach($72)	do(`insert`, $3[$1]^._edges, $72@0.#0', $72@0.#1', tuple{#0: $74, #1: $79})	!$12 & $16 & $78
do	foreach($72)	do(`insert`, $3[$1]^._edges, $72@0.#0', $72@0.#1', tuple{#0: $74, #1: $80})	!$78 & $12 & $16
do	foreach($72)	do(`insert`, $3[$1]^._edges, $72@0.#0', $72@0.#1', tuple{#0: $74, #1: $81})	!$12 & !$78 & $16
do	foreach($72)	do(`push`, self._rel1[lin(#0, mul(#-1, $19), $1)], tuple{#0: $72@0.#0', #1: $72@0.#1'})	!$82 & !lt($1, $19) & $16
do	foreach($72)	do(`push`, self._rel2[lin(#0, $23, $72@0.#0')], $1)	!$82 & !lt($72@0.#0', self._n_Q) & $16 & eq(4294967295, $72@0.#1')
do	foreach($72)	do(`pdaaal::fixed_point_workset::emplace`, self, $1, $72@0.#1', $72@0.#0')	!$12 & !$78 & $16 & $84 & lt($1, $19) | !$12 & $16 & $78 & $85 & lt($1, $19) | !$78 & $12 & $16 & $86 & lt($1, $19) | !$82 & $16 & lt($1, $19) | $12 & $16 & $78 & $87 & lt($1, $19)
do	foreach($72)	$52	!$82 & $16
do	foreach($72)	$54	!$82 & $16
do	foreach($72)	set($83.#0.#1, $73)	!$12 & !$78 & $16 & $82 & $84 | !$12 & $16 & $78 & $82 & $85 | !$78 & $12 & $16 & $82 & $86 | $12 & $16 & $78 & $82 & $87
do	foreach($72)	set($83.#1, $77)	$12 & $16 & $78 & $82 & $87
do	foreach($72)	set($83.#1, $79)	!$12 & $16 & $78 & $82 & $85
do	foreach($72)	set($83.#1, $80)	!$78 & $12 & $16 & $82 & $86
do	foreach($72)	set($83.#1, $81)	!$12 & !$78 & $16 & $82 & $84
ret	true	true
== i::PostStarFixedPointSaturation::step_with | i::PostStarFixedPointSaturation<Wu, TT::Longest> | (i::temp_edge_t &&) | true | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 142
let	$1	param(#0)._from
let	$2	self._pda_states[$1]._rules
let	$3	self._automaton._states
let	$4	param(#0)._label
let	$5	$3[$1]^._edges[param(#0)._to, $4].#1
let	$6	$2@0.#0._weight
let	$7	call(`pdaaal::details::weight_impl::add`, $5, $6)
let	$8	$3[$2@0.#0._to]^._edges
let	$9	$8[param(#0)._to, 4294967295]
let	$10	call(`pdaaal::details::weight_impl::less`, $7, $9.#1')
let	$11	contains($8', param(#0)._to, 4294967295)
let	$12	call(`pdaaal::details::weight_impl::add`, 0^.#1, $6)
let	$13	call(`pdaaal::details::weight_impl::less`, $12, 0^.#1')
let	$14	self._n_pda_states
let	$15	lt($2@0.#0._to, $14)
let	$16	contains($3[$1]^._edges, param(#0)._to, $4)
let	$17	call(`pdaaal::details::weight_impl::less`, $12, $9.#1')
let	$18	call(`pdaaal::internal::labels_t::contains`, $2@0.#1, $4)
let	$19	call(`pdaaal::details::weight_impl::less`, $7, 0^.#1')
let	$20	$2@0.#0._operation
let	$21	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $20)
let	$22	eq($4, 4294967295)
let	$23	pdaaal::internal::trace_t{_label: $4, _rule_id: ix($2, #0), _state: $1}
let	$24	$2@0.#0._op_label
let	$25	$8[param(#0)._to, $24]
let	$26	call(`pdaaal::details::weight_impl::less`, $12, $25.#1')
let	$27	contains($8', param(#0)._to, $24)
let	$28	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $20)
let	$29	call(`pdaaal::details::weight_impl::less`, $7, $25.#1')
let	$30	$8[param(#0)._to, $4]
let	$31	call(`pdaaal::details::weight_impl::less`, $12, $30.#1')
let	$32	contains($8', param(#0)._to, $4)
let	$33	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $20)
let	$34	call(`pdaaal::details::weight_impl::less`, $7, $30.#1')
let	$35	self._q_prime[tuple{#0: $2@0.#0._to, #1: $24}]
let	$36	$8[$35, $24].#1
let	$37	call(`pdaaal::details::weight_impl::less`, 0, $36')
let	$38	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $20)
let	$39	contains($8', $35, $24)
let	$40	call(`pdaaal::details::weight_impl::less`, 0, 0^.#1')
let	$41	$3[$35]^._edges
let	$42	contains($41', param(#0)._to, $4)
let	$43	$41[param(#0)._to, $4]
let	$44	call(`pdaaal::details::weight_impl::less`, $7, $43.#1')
let	$45	call(`pdaaal::details::weight_impl::less`, $12, 4294967294)
let	$46	call(`pdaaal::details::weight_impl::less`, $12, $43.#1')
let	$47	call(`pdaaal::details::weight_impl::less`, $7, 4294967294)
let	$48	set(0^.#1, 4294967294)
let	$49	self._rel2[lin(#0, mul(#-1, self._n_Q), $35)]
let	$50	call(`pdaaal::details::weight_impl::add`, $7, 0^.#1')
let	$51	$3[$49@0]^._edges
let	$52	$51[param(#0)._to, $4]
let	$53	call(`pdaaal::details::weight_impl::less`, $50, $52.#1'')
let	$54	$51[$35, 4294967295].#1''
let	$55	call(`pdaaal::details::weight_impl::add`, $12, $54)
let	$56	call(`pdaaal::details::weight_impl::less`, $55, $52.#1'')
let	$57	call(`pdaaal::details::weight_impl::add`, $12, 0^.#1')
let	$58	call(`pdaaal::details::weight_impl::less`, $57, 0^.#1')
let	$59	call(`pdaaal::details::weight_impl::less`, $50, 0^.#1')
let	$60	call(`pdaaal::details::weight_impl::less`, $57, $52.#1'')
let	$61	contains($51'', $35, 4294967295)
let	$62	contains($51'', param(#0)._to, $4)
let	$63	call(`pdaaal::details::weight_impl::add`, $7, $54)
let	$64	call(`pdaaal::details::weight_impl::less`, $63, 0^.#1')
let	$65	call(`pdaaal::details::weight_impl::less`, $55, 0^.#1')
let	$66	call(`pdaaal::details::weight_impl::less`, $63, $52.#1'')
let	$67	18446744073709551615
let	$68	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $67, _state: $35}
let	$69	self._rel1[lin(#0, mul(#-1, $14), param(#0)._to)]
let	$70	$3[param(#0)._to]^._edges
let	$71	$70[$69@0.#0, $69@0.#1].#1'
let	$72	call(`pdaaal::details::weight_impl::add`, $71, 0^.#1)
let	$73	call(`pdaaal::details::weight_impl::less`, $72, 0^.#1')
let	$74	call(`pdaaal::details::weight_impl::add`, 0^.#1', $5)
let	$75	$3[$1]^._edges[$69@0.#0, $69@0.#1]
let	$76	call(`pdaaal::details::weight_impl::less`, $74, $75.#1')
let	$77	call(`pdaaal::details::weight_impl::add`, $71, $5)
let	$78	call(`pdaaal::details::weight_impl::less`, $77, $75.#1')
let	$79	call(`pdaaal::details::weight_impl::add`, 0^.#1', 0^.#1)
let	$80	call(`pdaaal::details::weight_impl::less`, $79, 0^.#1')
let	$81	contains($3[$1]^._edges', $69@0.#0, $69@0.#1)
let	$82	call(`pdaaal::details::weight_impl::less`, $79, $75.#1')
let	$83	call(`pdaaal::details::weight_impl::less`, $74, 0^.#1')
let	$84	call(`pdaaal::details::weight_impl::less`, $72, $75.#1')
let	$85	contains($70', $69@0.#0, $69@0.#1)
let	$86	call(`pdaaal::details::weight_impl::less`, $77, 0^.#1')
let	$87	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $67, _state: param(#0)._to}
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, 4294967295, param(#0)._to)	!$11 & !$16 & !$22 & $13 & $15 & $18 & $21 | !$11 & !$22 & $15 & $16 & $18 & $19 & $21 | !$16 & !$22 & $11 & $15 & $17 & $18 & $21 | !$22 & $10 & $11 & $15 & $16 & $18 & $21
do	foreach($2)	set($9.#0.#1, $23)	!$16 & !$22 & $11 & $17 & $18 & $21 | !$22 & $10 & $11 & $16 & $18 & $21
do	foreach($2)	set($9.#1, 4294967294)	!$16 & !$22 & $11 & $17 & $18 & $21 | !$22 & $10 & $11 & $16 & $18 & $21
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $24, param(#0)._to)	!$16 & !$22 & !$27 & $13 & $15 & $18 & $28 | !$16 & !$22 & $15 & $18 & $26 & $27 & $28 | !$22 & !$27 & $15 & $16 & $18 & $19 & $28 | !$22 & $15 & $16 & $18 & $27 & $28 & $29
do	foreach($2)	set($25.#0.#1, $23)	!$16 & !$22 & $18 & $26 & $27 & $28 | !$22 & $16 & $18 & $27 & $28 & $29
do	foreach($2)	set($25.#1, 4294967294)	!$16 & !$22 & $18 & $26 & $27 & $28 | !$22 & $16 & $18 & $27 & $28 & $29
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $4, param(#0)._to)	!$16 & !$22 & !$32 & $13 & $15 & $18 & $33 | !$16 & !$22 & $15 & $18 & $31 & $32 & $33 | !$22 & !$32 & $15 & $16 & $18 & $19 & $33 | !$22 & $15 & $16 & $18 & $32 & $33 & $34
do	foreach($2)	set($30.#0.#1, $23)	!$16 & !$22 & $18 & $31 & $32 & $33 | !$22 & $16 & $18 & $32 & $33 & $34
do	foreach($2)	set($30.#1, 4294967294)	!$16 & !$22 & $18 & $31 & $32 & $33 | !$22 & $16 & $18 & $32 & $33 & $34
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $24, $35)	!$22 & !$39 & $15 & $18 & $38 & $40 | !$22 & $15 & $18 & $37 & $38 & $39
do	foreach($2)	set($8[$35, $24].#0.#1, $23)	!$22 & $18 & $37 & $38 & $39
do	foreach($2)	set($36, 4294967294)	!$22 & $18 & $37 & $38 & $39
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $35, $4, param(#0)._to)	!$16 & !$22 & !$39 & !$42 & $18 & $38 & $40 & $45 & lt($35, $14) | !$16 & !$22 & !$40 & !$42 & $13 & $18 & $38 & lt($35, $14) | !$16 & !$22 & !$42 & $13 & $18 & $38 & $39 & lt($35, $14) | !$16 & !$22 & $18 & $38 & $42 & $46 & lt($35, $14) | !$22 & !$39 & !$42 & $16 & $18 & $38 & $40 & $47 & lt($35, $14) | !$22 & !$40 & !$42 & $16 & $18 & $19 & $38 & lt($35, $14) | !$22 & !$42 & $16 & $18 & $19 & $38 & $39 & lt($35, $14) | !$22 & $16 & $18 & $38 & $42 & $44 & lt($35, $14)
do	foreach($2)	set(0^.#0.#1, $23)	!$11 & !$16 & !$22 & !$28 & !$33 & !$38 & $13 & $18 | !$11 & !$22 & !$28 & !$33 & !$38 & $16 & $18 & $19 | !$16 & !$22 & !$27 & $13 & $18 & $28 | !$16 & !$22 & !$32 & $13 & $18 & $33 | !$16 & !$22 & !$42 & $13 & $18 & $38 | !$22 & !$27 & $16 & $18 & $19 & $28 | !$22 & !$32 & $16 & $18 & $19 & $33 | !$22 & !$39 & $18 & $38 & $40 | !$22 & !$42 & $16 & $18 & $19 & $38
do	foreach($2)	$48	!$11 & !$16 & !$22 & !$28 & !$33 & !$38 & $13 & $18 | !$11 & !$22 & !$28 & !$33 & !$38 & $16 & $18 & $19 | !$16 & !$22 & !$27 & $13 & $18 & $28 | !$16 & !$22 & !$32 & $13 & $18 & $33 | !$16 & !$22 & !$42 & $13 & $18 & $38 | !$22 & !$27 & $16 & $18 & $19 & $28 | !$22 & !$32 & $16 & $18 & $19 & $33 | !$22 & !$39 & $18 & $38 & $40 | !$22 & !$42 & $16 & $18 & $19 & $38
do	foreach($2)	set($43.#0.#1, $23)	!$16 & !$22 & $18 & $38 & $42 & $46 | !$22 & $16 & $18 & $38 & $42 & $44
do	foreach($2)	set($43.#1, 4294967294)	!$16 & !$22 & $18 & $38 & $42 & $46 | !$22 & $16 & $18 & $38 & $42 & $44
do	foreach($2) ; foreach($49)	do(`pdaaal::fixed_point_workset::emplace`, self, $49@0, $4, param(#0)._to)	!$16 & !$22 & !$39 & !$42 & !$61 & !$62 & $18 & $38 & $40 & $45 & $58 & lt($49@0, $14) | !$16 & !$22 & !$39 & !$42 & !$61 & $18 & $38 & $40 & $45 & $60 & $62 & lt($49@0, $14) | !$16 & !$22 & !$39 & !$42 & !$62 & $18 & $38 & $40 & $45 & $61 & $65 & lt($49@0, $14) | !$16 & !$22 & !$39 & !$42 & $18 & $38 & $40 & $45 & $56 & $61 & $62 & lt($49@0, $14) | !$16 & !$22 & !$40 & !$42 & !$61 & !$62 & $13 & $18 & $38 & $58 & lt($49@0, $14) | !$16 & !$22 & !$40 & !$42 & !$61 & $13 & $18 & $38 & $60 & $62 & lt($49@0, $14) | !$16 & !$22 & !$40 & !$42 & !$62 & $13 & $18 & $38 & $61 & $65 & lt($49@0, $14) | !$16 & !$22 & !$40 & !$42 & $13 & $18 & $38 & $56 & $61 & $62 & lt($49@0, $14) | !$16 & !$22 & !$42 & !$61 & !$62 & $13 & $18 & $38 & $39 & $58 & lt($49@0, $14) | !$16 & !$22 & !$42 & !$61 & $13 & $18 & $38 & $39 & $60 & $62 & lt($49@0, $14) | !$16 & !$22 & !$42 & !$62 & $13 & $18 & $38 & $39 & $61 & $65 & lt($49@0, $14) | !$16 & !$22 & !$42 & $13 & $18 & $38 & $39 & $56 & $61 & $62 & lt($49@0, $14) | !$16 & !$22 & !$61 & !$62 & $18 & $38 & $42 & $46 & $58 & lt($49@0, $14) | !$16 & !$22 & !$61 & $18 & $38 & $42 & $46 & $60 & $62 & lt($49@0, $14) | !$16 & !$22 & !$62 & $18 & $38 & $42 & $46 & $61 & $65 & lt($49@0, $14) | !$16 & !$22 & $18 & $38 & $42 & $46 & $56 & $61 & $62 & lt($49@0, $14) | !$22 & !$39 & !$42 & !$61 & !$62 & $16 & $18 & $38 & $40 & $47 & $59 & lt($49@0, $14) | !$22 & !$39 & !$42 & !$61 & $16 & $18 & $38 & $40 & $47 & $53 & $62 & lt($49@0, $14) | !$22 & !$39 & !$42 & !$62 & $16 & $18 & $38 & $40 & $47 & $61 & $64 & lt($49@0, $14) | !$22 & !$39 & !$42 & $16 & $18 & $38 & $40 & $47 & $61 & $62 & $66 & lt($49@0, $14) | !$22 & !$40 & !$42 & !$61 & !$62 & $16 & $18 & $19 & $38 & $59 & lt($49@0, $14) | !$22 & !$40 & !$42 & !$61 & $16 & $18 & $19 & $38 & $53 & $62 & lt($49@0, $14) | !$22 & !$40 & !$42 & !$62 & $16 & $18 & $19 & $38 & $61 & $64 & lt($49@0, $14) | !$22 & !$40 & !$42 & $16 & $18 & $19 & $38 & $61 & $62 & $66 & lt($49@0, $14) | !$22 & !$42 & !$61 & !$62 & $16 & $18 & $19 & $38 & $39 & $59 & lt($49@0, $14) | !$22 & !$42 & !$61 & $16 & $18 & $19 & $38 & $39 & $53 & $62 & lt($49@0, $14) | !$22 & !$42 & !$62 & $16 & $18 & $19 & $38 & $39 & $61 & $64 & lt($49@0, $14) | !$22 & !$42 & $16 & $18 & $19 & $38 & $39 & $61 & $62 & $66 & lt($49@0, $14) | !$22 & !$61 & !$62 & $16 & $18 & $38 & $42 & $44 & $59 & lt($49@0, $14) | !$22 & !$61 & $16 & $18 & $38 & $42 & $44 & $53 & $62 & lt($49@0, $14) | !$22 & !$62 & $16 & $18 & $38 & $42 & $44 & $61 & $64 & lt($49@0, $14) | !$22 & $16 & $18 & $38 & $42 & $44 & $61 & $62 & $66 & lt($49@0, $14)
do	foreach($2) ; foreach($49)	set($52.#0.#1, $68)	!$16 & !$22 & !$39 & !$42 & !$61 & $18 & $38 & $40 & $45 & $60 & $62 | !$16 & !$22 & !$39 & !$42 & $18 & $38 & $40 & $45 & $56 & $61 & $62 | !$16 & !$22 & !$40 & !$42 & !$61 & $13 & $18 & $38 & $60 & $62 | !$16 & !$22 & !$40 & !$42 & $13 & $18 & $38 & $56 & $61 & $62 | !$16 & !$22 & !$42 & !$61 & $13 & $18 & $38 & $39 & $60 & $62 | !$16 & !$22 & !$42 & $13 & $18 & $38 & $39 & $56 & $61 & $62 | !$16 & !$22 & !$61 & $18 & $38 & $42 & $46 & $60 & $62 | !$16 & !$22 & $18 & $38 & $42 & $46 & $56 & $61 & $62 | !$22 & !$39 & !$42 & !$61 & $16 & $18 & $38 & $40 & $47 & $53 & $62 | !$22 & !$39 & !$42 & $16 & $18 & $38 & $40 & $47 & $61 & $62 & $66 | !$22 & !$40 & !$42 & !$61 & $16 & $18 & $19 & $38 & $53 & $62 | !$22 & !$40 & !$42 & $16 & $18 & $19 & $38 & $61 & $62 & $66 | !$22 & !$42 & !$61 & $16 & $18 & $19 & $38 & $39 & $53 & $62 | !$22 & !$42 & $16 & $18 & $19 & $38 & $39 & $61 & $62 & $66 | !$22 & !$61 & $16 & $18 & $38 & $42 & $44 & $53 & $62 | !$22 & $16 & $18 & $38 & $42 & $44 & $61 & $62 & $66
do	foreach($2) ; foreach($49)	set(0^.#0.#1, $68)	!$16 & !$22 & !$39 & !$42 & !$61 & !$62 & $18 & $38 & $40 & $45 & $58 | !$16 & !$22 & !$39 & !$42 & !$62 & $18 & $38 & $40 & $45 & $61 & $65 | !$16 & !$22 & !$40 & !$42 & !$61 & !$62 & $13 & $18 & $38 & $58 | !$16 & !$22 & !$40 & !$42 & !$62 & $13 & $18 & $38 & $61 & $65 | !$16 & !$22 & !$42 & !$61 & !$62 & $13 & $18 & $38 & $39 & $58 | !$16 & !$22 & !$42 & !$62 & $13 & $18 & $38 & $39 & $61 & $65 | !$16 & !$22 & !$61 & !$62 & $18 & $38 & $42 & $46 & $58 | !$16 & !$22 & !$62 & $18 & $38 & $42 & $46 & $61 & $65 | !$22 & !$39 & !$42 & !$61 & !$62 & $16 & $18 & $38 & $40 & $47 & $59 | !$22 & !$39 & !$42 & !$62 & $16 & $18 & $38 & $40 & $47 & $61 & $64 | !$22 & !$40 & !$42 & !$61 & !$62 & $16 & $18 & $19 & $38 & $59 | !$22 & !$40 & !$42 & !$62 & $16 & $18 & $19 & $38 & $61 & $64 | !$22 & !$42 & !$61 & !$62 & $16 & $18 & $19 & $38 & $39 & $59 | !$22 & !$42 & !$62 & $16 & $18 & $19 & $38 & $39 & $61 & $64 | !$22 & !$61 & !$62 & $16 & $18 & $38 & $42 & $44 & $59 | !$22 & !$62 & $16 & $18 & $38 & $42 & $44 & $61 & $64
do	foreach($2) ; foreach($49)	set($52.#1, 4294967294)	!$16 & !$22 & !$39 & !$42 & !$61 & $18 & $38 & $40 & $45 & $60 & $62 | !$16 & !$22 & !$39 & !$42 & $18 & $38 & $40 & $45 & $56 & $61 & $62 | !$16 & !$22 & !$40 & !$42 & !$61 & $13 & $18 & $38 & $60 & $62 | !$16 & !$22 & !$40 & !$42 & $13 & $18 & $38 & $56 & $61 & $62 | !$16 & !$22 & !$42 & !$61 & $13 & $18 & $38 & $39 & $60 & $62 | !$16 & !$22 & !$42 & $13 & $18 & $38 & $39 & $56 & $61 & $62 | !$16 & !$22 & !$61 & $18 & $38 & $42 & $46 & $60 & $62 | !$16 & !$22 & $18 & $38 & $42 & $46 & $56 & $61 & $62 | !$22 & !$39 & !$42 & !$61 & $16 & $18 & $38 & $40 & $47 & $53 & $62 | !$22 & !$39 & !$42 & $16 & $18 & $38 & $40 & $47 & $61 & $62 & $66 | !$22 & !$40 & !$42 & !$61 & $16 & $18 & $19 & $38 & $53 & $62 | !$22 & !$40 & !$42 & $16 & $18 & $19 & $38 & $61 & $62 & $66 | !$22 & !$42 & !$61 & $16 & $18 & $19 & $38 & $39 & $53 & $62 | !$22 & !$42 & $16 & $18 & $19 & $38 & $39 & $61 & $62 & $66 | !$22 & !$61 & $16 & $18 & $38 & $42 & $44 & $53 & $62 | !$22 & $16 & $18 & $38 & $42 & $44 & $61 & $62 & $66
do	foreach($2) ; foreach($49)	$48	!$16 & !$22 & !$39 & !$42 & !$61 & !$62 & $18 & $38 & $40 & $45 & $58 | !$16 & !$22 & !$39 & !$42 & !$62 & $18 & $38 & $40 & $45 & $61 & $65 | !$16 & !$22 & !$40 & !$42 & !$61 & !$62 & $13 & $18 & $38 & $58 | !$16 & !$22 & !$40 & !$42 & !$62 & $13 & $18 & $38 & $61 & $65 | !$16 & !$22 & !$42 & !$61 & !$62 & $13 & $18 & $38 & $39 & $58 | !$16 & !$22 & !$42 & !$62 & $13 & $18 & $38 & $39 & $61 & $65 | !$16 & !$22 & !$61 & !$62 & $18 & $38 & $42 & $46 & $58 | !$16 & !$22 & !$62 & $18 & $38 & $42 & $46 & $61 & $65 | !$22 & !$39 & !$42 & !$61 & !$62 & $16 & $18 & $38 & $40 & $47 & $59 | !$22 & !$39 & !$42 & !$62 & $16 & $18 & $38 & $40 & $47 & $61 & $64 | !$22 & !$40 & !$42 & !$61 & !$62 & $16 & $18 & $19 & $38 & $59 | !$22 & !$40 & !$42 & !$62 & $16 & $18 & $19 & $38 & $61 & $64 | !$22 & !$42 & !$61 & !$62 & $16 & $18 & $19 & $38 & $39 & $59 | !$22 & !$42 & !$62 & $16 & $18 & $19 & $38 & $39 & $61 & $64 | !$22 & !$61 & !$62 & $16 & $18 & $38 & $42 & $44 & $59 | !$22 & !$62 & $16 & $18 & $38 & $42 & $44 & $61 & $64
do	foreach($69)	do(`pdaaal::fixed_point_workset::emplace`, self, $1, $69@0.#1, $69@0.#0)	!$16 & !$81 & !$85 & $22 & $80 & lt($1, $14) | !$16 & !$81 & $22 & $73 & $85 & lt($1, $14) | !$16 & !$85 & $22 & $81 & $82 & lt($1, $14) | !$16 & $22 & $81 & $84 & $85 & lt($1, $14) | !$81 & !$85 & $16 & $22 & $83 & lt($1, $14) | !$81 & $16 & $22 & $85 & $86 & lt($1, $14) | !$85 & $16 & $22 & $76 & $81 & lt($1, $14) | $16 & $22 & $78 & $81 & $85 & lt($1, $14)
do	foreach($69)	set($75.#0.#1, $87)	!$16 & !$85 & $22 & $81 & $82 | !$16 & $22 & $81 & $84 & $85 | !$85 & $16 & $22 & $76 & $81 | $16 & $22 & $78 & $81 & $85
do	foreach($69)	set(0^.#0.#1, $87)	!$16 & !$81 & !$85 & $22 & $80 | !$16 & !$81 & $22 & $73 & $85 | !$81 & !$85 & $16 & $22 & $83 | !$81 & $16 & $22 & $85 & $86
do	foreach($69)	set($75.#1, 4294967294)	!$16 & !$85 & $22 & $81 & $82 | !$16 & $22 & $81 & $84 & $85 | !$85 & $16 & $22 & $76 & $81 | $16 & $22 & $78 & $81 & $85
do	foreach($69)	$48	!$16 & !$81 & !$85 & $22 & $80 | !$16 & !$81 & $22 & $73 & $85 | !$81 & !$85 & $16 & $22 & $83 | !$81 & $16 & $22 & $85 & $86
ret	true	true
== i::PostStarFixedPointSaturation::PostStarFixedPointSaturation | i::PostStarFixedPointSaturation<Wi, TT::ShortestFixedPoint> | (i::PAutomaton<Wi, TI::Pair> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 139
== i::PostStarFixedPointSaturation::PostStarFixedPointSaturation | i::PostStarFixedPointSaturation<Wi, TT::ShortestFixedPoint> | (i::PAutomaton<Wi, TI::Pair> &, u64) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 140
== i::PostStarFixedPointSaturation::step_with | i::PostStarFixedPointSaturation<Wi, TT::ShortestFixedPoint> | (i::temp_edge_t &&) | false | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 141
== i::PostStarFixedPointSaturation::step_with | i::PostStarFixedPointSaturation<Wi, TT::ShortestFixedPoint> | (i::temp_edge_t &&) | true | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 143
let	$1	param(#0)._from
let	$2	self._pda_states[$1]._rules
let	$3	self._automaton._states
let	$4	param(#0)._label
let	$5	$3[$1]^._edges[param(#0)._to, $4].#1
let	$6	$2@0.#0._weight
let	$7	call(`pdaaal::details::weight_impl::add`, $5, $6)
let	$8	$3[$2@0.#0._to]^._edges
let	$9	$8[param(#0)._to, 4294967295]
let	$10	call(`pdaaal::details::weight_impl::less`, $7, $9.#1')
let	$11	contains($8', param(#0)._to, 4294967295)
let	$12	call(`pdaaal::details::weight_impl::add`, 0^.#1, $6)
let	$13	call(`pdaaal::details::weight_impl::less`, $12, 0^.#1')
let	$14	self._n_pda_states
let	$15	lt($2@0.#0._to, $14)
let	$16	contains($3[$1]^._edges, param(#0)._to, $4)
let	$17	call(`pdaaal::details::weight_impl::less`, $12, $9.#1')
let	$18	call(`pdaaal::internal::labels_t::contains`, $2@0.#1, $4)
let	$19	call(`pdaaal::details::weight_impl::less`, $7, 0^.#1')
let	$20	$2@0.#0._operation
let	$21	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $20)
let	$22	eq($4, 4294967295)
let	$23	pdaaal::internal::trace_t{_label: $4, _rule_id: ix($2, #0), _state: $1}
let	$24	$2@0.#0._op_label
let	$25	$8[param(#0)._to, $24]
let	$26	call(`pdaaal::details::weight_impl::less`, $12, $25.#1')
let	$27	contains($8', param(#0)._to, $24)
let	$28	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $20)
let	$29	call(`pdaaal::details::weight_impl::less`, $7, $25.#1')
let	$30	$8[param(#0)._to, $4]
let	$31	call(`pdaaal::details::weight_impl::less`, $12, $30.#1')
let	$32	contains($8', param(#0)._to, $4)
let	$33	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $20)
let	$34	call(`pdaaal::details::weight_impl::less`, $7, $30.#1')
let	$35	self._q_prime[tuple{#0: $2@0.#0._to, #1: $24}]
let	$36	$8[$35, $24].#1
let	$37	call(`pdaaal::details::weight_impl::less`, 0, $36')
let	$38	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $20)
let	$39	contains($8', $35, $24)
let	$40	call(`pdaaal::details::weight_impl::less`, 0, 0^.#1')
let	$41	call(`pdaaal::details::weight_impl::less`, $7, -2147483648)
let	$42	$3[$35]^._edges
let	$43	contains($42', param(#0)._to, $4)
let	$44	call(`pdaaal::details::weight_impl::less`, $12, -2147483648)
let	$45	$42[param(#0)._to, $4]
let	$46	call(`pdaaal::details::weight_impl::less`, $7, $45.#1')
let	$47	call(`pdaaal::details::weight_impl::less`, $12, $45.#1')
let	$48	set(0^.#1, -2147483648)
let	$49	self._rel2[lin(#0, mul(#-1, self._n_Q), $35)]
let	$50	call(`pdaaal::details::weight_impl::add`, $7, 0^.#1')
let	$51	$3[$49@0]^._edges
let	$52	$51[param(#0)._to, $4]
let	$53	call(`pdaaal::details::weight_impl::less`, $50, $52.#1'')
let	$54	$51[$35, 4294967295].#1''
let	$55	call(`pdaaal::details::weight_impl::add`, $12, $54)
let	$56	call(`pdaaal::details::weight_impl::less`, $55, $52.#1'')
let	$57	call(`pdaaal::details::weight_impl::add`, $12, 0^.#1')
let	$58	call(`pdaaal::details::weight_impl::less`, $57, 0^.#1')
let	$59	call(`pdaaal::details::weight_impl::less`, $50, 0^.#1')
let	$60	call(`pdaaal::details::weight_impl::less`, $57, $52.#1'')
let	$61	contains($51'', $35, 4294967295)
let	$62	contains($51'', param(#0)._to, $4)
let	$63	call(`pdaaal::details::weight_impl::add`, $7, $54)
let	$64	call(`pdaaal::details::weight_impl::less`, $63, 0^.#1')
let	$65	call(`pdaaal::details::weight_impl::less`, $55, 0^.#1')
let	$66	call(`pdaaal::details::weight_impl::less`, $63, $52.#1'')
let	$67	18446744073709551615
let	$68	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $67, _state: $35}
let	$69	self._rel1[lin(#0, mul(#-1, $14), param(#0)._to)]
let	$70	$3[param(#0)._to]^._edges
let	$71	$70[$69@0.#0, $69@0.#1].#1'
let	$72	call(`pdaaal::details::weight_impl::add`, $71, 0^.#1)
let	$73	call(`pdaaal::details::weight_impl::less`, $72, 0^.#1')
let	$74	call(`pdaaal::details::weight_impl::add`, 0^.#1', $5)
let	$75	$3[$1]^._edges[$69@0.#0, $69@0.#1]
let	$76	call(`pdaaal::details::weight_impl::less`, $74, $75.#1')
let	$77	call(`pdaaal::details::weight_impl::add`, $71, $5)
let	$78	call(`pdaaal::details::weight_impl::less`, $77, $75.#1')
let	$79	call(`pdaaal::details::weight_impl::add`, 0^.#1', 0^.#1)
let	$80	call(`pdaaal::details::weight_impl::less`, $79, 0^.#1')
let	$81	contains($3[$1]^._edges', $69@0.#0, $69@0.#1)
let	$82	call(`pdaaal::details::weight_impl::less`, $79, $75.#1')
let	$83	call(`pdaaal::details::weight_impl::less`, $74, 0^.#1')
let	$84	call(`pdaaal::details::weight_impl::less`, $72, $75.#1')
let	$85	contains($70', $69@0.#0, $69@0.#1)
let	$86	call(`pdaaal::details::weight_impl::less`, $77, 0^.#1')
let	$87	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $67, _state: param(#0)._to}
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, 4294967295, param(#0)._to)	!$11 & !$16 & !$22 & $13 & $15 & $18 & $21 | !$11 & !$22 & $15 & $16 & $18 & $19 & $21 | !$16 & !$22 & $11 & $15 & $17 & $18 & $21 | !$22 & $10 & $11 & $15 & $16 & $18 & $21
do	foreach($2)	set($9.#0.#1, $23)	!$16 & !$22 & $11 & $17 & $18 & $21 | !$22 & $10 & $11 & $16 & $18 & $21
do	foreach($2)	set($9.#1, -2147483648)	!$16 & !$22 & $11 & $17 & $18 & $21 | !$22 & $10 & $11 & $16 & $18 & $21
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $24, param(#0)._to)	!$16 & !$22 & !$27 & $13 & $15 & $18 & $28 | !$16 & !$22 & $15 & $18 & $26 & $27 & $28 | !$22 & !$27 & $15 & $16 & $18 & $19 & $28 | !$22 & $15 & $16 & $18 & $27 & $28 & $29
do	foreach($2)	set($25.#0.#1, $23)	!$16 & !$22 & $18 & $26 & $27 & $28 | !$22 & $16 & $18 & $27 & $28 & $29
do	foreach($2)	set($25.#1, -2147483648)	!$16 & !$22 & $18 & $26 & $27 & $28 | !$22 & $16 & $18 & $27 & $28 & $29
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $4, param(#0)._to)	!$16 & !$22 & !$32 & $13 & $15 & $18 & $33 | !$16 & !$22 & $15 & $18 & $31 & $32 & $33 | !$22 & !$32 & $15 & $16 & $18 & $19 & $33 | !$22 & $15 & $16 & $18 & $32 & $33 & $34
do	foreach($2)	set($30.#0.#1, $23)	!$16 & !$22 & $18 & $31 & $32 & $33 | !$22 & $16 & $18 & $32 & $33 & $34
do	foreach($2)	set($30.#1, -2147483648)	!$16 & !$22 & $18 & $31 & $32 & $33 | !$22 & $16 & $18 & $32 & $33 & $34
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $24, $35)	!$22 & !$39 & $15 & $18 & $38 & $40 | !$22 & $15 & $18 & $37 & $38 & $39
do	foreach($2)	set($8[$35, $24].#0.#1, $23)	!$22 & $18 & $37 & $38 & $39
do	foreach($2)	set($36, -2147483648)	!$22 & $18 & $37 & $38 & $39
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $35, $4, param(#0)._to)	!$16 & !$22 & !$39 & !$43 & $18 & $38 & $40 & $44 & lt($35, $14) | !$16 & !$22 & !$40 & !$43 & $13 & $18 & $38 & lt($35, $14) | !$16 & !$22 & !$43 & $13 & $18 & $38 & $39 & lt($35, $14) | !$16 & !$22 & $18 & $38 & $43 & $47 & lt($35, $14) | !$22 & !$39 & !$43 & $16 & $18 & $38 & $40 & $41 & lt($35, $14) | !$22 & !$40 & !$43 & $16 & $18 & $19 & $38 & lt($35, $14) | !$22 & !$43 & $16 & $18 & $19 & $38 & $39 & lt($35, $14) | !$22 & $16 & $18 & $38 & $43 & $46 & lt($35, $14)
do	foreach($2)	set(0^.#0.#1, $23)	!$11 & !$16 & !$22 & !$28 & !$33 & !$38 & $13 & $18 | !$11 & !$22 & !$28 & !$33 & !$38 & $16 & $18 & $19 | !$16 & !$22 & !$27 & $13 & $18 & $28 | !$16 & !$22 & !$32 & $13 & $18 & $33 | !$16 & !$22 & !$43 & $13 & $18 & $38 | !$22 & !$27 & $16 & $18 & $19 & $28 | !$22 & !$32 & $16 & $18 & $19 & $33 | !$22 & !$39 & $18 & $38 & $40 | !$22 & !$43 & $16 & $18 & $19 & $38
do	foreach($2)	$48	!$11 & !$16 & !$22 & !$28 & !$33 & !$38 & $13 & $18 | !$11 & !$22 & !$28 & !$33 & !$38 & $16 & $18 & $19 | !$16 & !$22 & !$27 & $13 & $18 & $28 | !$16 & !$22 & !$32 & $13 & $18 & $33 | !$16 & !$22 & !$43 & $13 & $18 & $38 | !$22 & !$27 & $16 & $18 & $19 & $28 | !$22 & !$32 & $16 & $18 & $19 & $33 | !$22 & !$39 & $18 & $38 & $40 | !$22 & !$43 & $16 & $18 & $19 & $38
do	foreach($2)	set($45.#0.#1, $23)	!$16 & !$22 & $18 & $38 & $43 & $47 | !$22 & $16 & $18 & $38 & $43 & $46
do	foreach($2)	set($45.#1, -2147483648)	!$16 & !$22 & $18 & $38 & $43 & $47 | !$22 & $16 & $18 & $38 & $43 & $46
do	foreach($2) ; foreach($49)	do(`pdaaal::fixed_point_workset::emplace`, self, $49@0, $4, param(#0)._to)	!$16 & !$22 & !$39 & !$43 & !$61 & !$62 & $18 & $38 & $40 & $44 & $58 & lt($49@0, $14) | !$16 & !$22 & !$39 & !$43 & !$61 & $18 & $38 & $40 & $44 & $60 & $62 & lt($49@0, $14) | !$16 & !$22 & !$39 & !$43 & !$62 & $18 & $38 & $40 & $44 & $61 & $65 & lt($49@0, $14) | !$16 & !$22 & !$39 & !$43 & $18 & $38 & $40 & $44 & $56 & $61 & $62 & lt($49@0, $14) | !$16 & !$22 & !$40 & !$43 & !$61 & !$62 & $13 & $18 & $38 & $58 & lt($49@0, $14) | !$16 & !$22 & !$40 & !$43 & !$61 & $13 & $18 & $38 & $60 & $62 & lt($49@0, $14) | !$16 & !$22 & !$40 & !$43 & !$62 & $13 & $18 & $38 & $61 & $65 & lt($49@0, $14) | !$16 & !$22 & !$40 & !$43 & $13 & $18 & $38 & $56 & $61 & $62 & lt($49@0, $14) | !$16 & !$22 & !$43 & !$61 & !$62 & $13 & $18 & $38 & $39 & $58 & lt($49@0, $14) | !$16 & !$22 & !$43 & !$61 & $13 & $18 & $38 & $39 & $60 & $62 & lt($49@0, $14) | !$16 & !$22 & !$43 & !$62 & $13 & $18 & $38 & $39 & $61 & $65 & lt($49@0, $14) | !$16 & !$22 & !$43 & $13 & $18 & $38 & $39 & $56 & $61 & $62 & lt($49@0, $14) | !$16 & !$22 & !$61 & !$62 & $18 & $38 & $43 & $47 & $58 & lt($49@0, $14) | !$16 & !$22 & !$61 & $18 & $38 & $43 & $47 & $60 & $62 & lt($49@0, $14) | !$16 & !$22 & !$62 & $18 & $38 & $43 & $47 & $61 & $65 & lt($49@0, $14) | !$16 & !$22 & $18 & $38 & $43 & $47 & $56 & $61 & $62 & lt($49@0, $14) | !$22 & !$39 & !$43 & !$61 & !$62 & $16 & $18 & $38 & $40 & $41 & $59 & lt($49@0, $14) | !$22 & !$39 & !$43 & !$61 & $16 & $18 & $38 & $40 & $41 & $53 & $62 & lt($49@0, $14) | !$22 & !$39 & !$43 & !$62 & $16 & $18 & $38 & $40 & $41 & $61 & $64 & lt($49@0, $14) | !$22 & !$39 & !$43 & $16 & $18 & $38 & $40 & $41 & $61 & $62 & $66 & lt($49@0, $14) | !$22 & !$40 & !$43 & !$61 & !$62 & $16 & $18 & $19 & $38 & $59 & lt($49@0, $14) | !$22 & !$40 & !$43 & !$61 & $16 & $18 & $19 & $38 & $53 & $62 & lt($49@0, $14) | !$22 & !$40 & !$43 & !$62 & $16 & $18 & $19 & $38 & $61 & $64 & lt($49@0, $14) | !$22 & !$40 & !$43 & $16 & $18 & $19 & $38 & $61 & $62 & $66 & lt($49@0, $14) | !$22 & !$43 & !$61 & !$62 & $16 & $18 & $19 & $38 & $39 & $59 & lt($49@0, $14) | !$22 & !$43 & !$61 & $16 & $18 & $19 & $38 & $39 & $53 & $62 & lt($49@0, $14) | !$22 & !$43 & !$62 & $16 & $18 & $19 & $38 & $39 & $61 & $64 & lt($49@0, $14) | !$22 & !$43 & $16 & $18 & $19 & $38 & $39 & $61 & $62 & $66 & lt($49@0, $14) | !$22 & !$61 & !$62 & $16 & $18 & $38 & $43 & $46 & $59 & lt($49@0, $14) | !$22 & !$61 & $16 & $18 & $38 & $43 & $46 & $53 & $62 & lt($49@0, $14) | !$22 & !$62 & $16 & $18 & $38 & $43 & $46 & $61 & $64 & lt($49@0, $14) | !$22 & $16 & $18 & $38 & $43 & $46 & $61 & $62 & $66 & lt($49@0, $14)
do	foreach($2) ; foreach($49)	set($52.#0.#1, $68)	!$16 & !$22 & !$39 & !$43 & !$61 & $18 & $38 & $40 & $44 & $60 & $62 | !$16 & !$22 & !$39 & !$43 & $18 & $38 & $40 & $44 & $56 & $61 & $62 | !$16 & !$22 & !$40 & !$43 & !$61 & $13 & $18 & $38 & $60 & $62 | !$16 & !$22 & !$40 & !$43 & $13 & $18 & $38 & $56 & $61 & $62 | !$16 & !$22 & !$43 & !$61 & $13 & $18 & $38 & $39 & $60 & $62 | !$16 & !$22 & !$43 & $13 & $18 & $38 & $39 & $56 & $61 & $62 | !$16 & !$22 & !$61 & $18 & $38 & $43 & $47 & $60 & $62 | !$16 & !$22 & $18 & $38 & $43 & $47 & $56 & $61 & $62 | !$22 & !$39 & !$43 & !$61 & $16 & $18 & $38 & $40 & $41 & $53 & $62 | !$22 & !$39 & !$43 & $16 & $18 & $38 & $40 & $41 & $61 & $62 & $66 | !$22 & !$40 & !$43 & !$61 & $16 & $18 & $19 & $38 & $53 & $62 | !$22 & !$40 & !$43 & $16 & $18 & $19 & $38 & $61 & $62 & $66 | !$22 & !$43 & !$61 & $16 & $18 & $19 & $38 & $39 & $53 & $62 | !$22 & !$43 & $16 & $18 & $19 & $38 & $39 & $61 & $62 & $66 | !$22 & !$61 & $16 & $18 & $38 & $43 & $46 & $53 & $62 | !$22 & $16 & $18 & $38 & $43 & $46 & $61 & $62 & $66
do	foreach($2) ; foreach($49)	set(0^.#0.#1, $68)	!$16 & !$22 & !$39 & !$43 & !$61 & !$62 & $18 & $38 & $40 & $44 & $58 | !$16 & !$22 & !$39 & !$43 & !$62 & $18 & $38 & $40 & $44 & $61 & $65 | !$16 & !$22 & !$40 & !$43 & !$61 & !$62 & $13 & $18 & $38 & $58 | !$16 & !$22 & !$40 & !$43 & !$62 & $13 & $18 & $38 & $61 & $65 | !$16 & !$22 & !$43 & !$61 & !$62 & $13 & $18 & $38 & $39 & $58 | !$16 & !$22 & !$43 & !$62 & $13 & $18 & $38 & $39 & $61 & $65 | !$16 & !$22 & !$61 & !$62 & $18 & $38 & $43 & $47 & $58 | !$16 & !$22 & !$62 & $18 & $38 & $43 & $47 & $61 & $65 | !$22 & !$39 & !$43 & !$61 & !$62 & $16 & $18 & $38 & $40 & $41 & $59 | !$22 & !$39 & !$43 & !$62 & $16 & $18 & $38 & $40 & $41 & $61 & $64 | !$22 & !$40 & !$43 & !$61 & !$62 & $16 & $18 & $19 & $38 & $59 | !$22 & !$40 & !$43 & !$62 & $16 & $18 & $19 & $38 & $61 & $64 | !$22 & !$43 & !$61 & !$62 & $16 & $18 & $19 & $38 & $39 & $59 | !$22 & !$43 & !$62 & $16 & $18 & $19 & $38 & $39 & $61 & $64 | !$22 & !$61 & !$62 & $16 & $18 & $38 & $43 & $46 & $59 | !$22 & !$62 & $16 & $18 & $38 & $43 & $46 & $61 & $64
do	foreach($2) ; foreach($49)	set($52.#1, -2147483648)	!$16 & !$22 & !$39 & !$43 & !$61 & $18 & $38 & $40 & $44 & $60 & $62 | !$16 & !$22 & !$39 & !$43 & $18 & $38 & $40 & $44 & $56 & $61 & $62 | !$16 & !$22 & !$40 & !$43 & !$61 & $13 & $18 & $38 & $60 & $62 | !$16 & !$22 & !$40 & !$43 & $13 & $18 & $38 & $56 & $61 & $62 | !$16 & !$22 & !$43 & !$61 & $13 & $18 & $38 & $39 & $60 & $62 | !$16 & !$22 & !$43 & $13 & $18 & $38 & $39 & $56 & $61 & $62 | !$16 & !$22 & !$61 & $18 & $38 & $43 & $47 & $60 & $62 | !$16 & !$22 & $18 & $38 & $43 & $47 & $56 & $61 & $62 | !$22 & !$39 & !$43 & !$61 & $16 & $18 & $38 & $40 & $41 & $53 & $62 | !$22 & !$39 & !$43 & $16 & $18 & $38 & $40 & $41 & $61 & $62 & $66 | !$22 & !$40 & !$43 & !$61 & $16 & $18 & $19 & $38 & $53 & $62 | !$22 & !$40 & !$43 & $16 & $18 & $19 & $38 & $61 & $62 & $66 | !$22 & !$43 & !$61 & $16 & $18 & $19 & $38 & $39 & $53 & $62 | !$22 & !$43 & $16 & $18 & $19 & $38 & $39 & $61 & $62 & $66 | !$22 & !$61 & $16 & $18 & $38 & $43 & $46 & $53 & $62 | !$22 & $16 & $18 & $38 & $43 & $46 & $61 & $62 & $66
do	foreach($2) ; foreach($49)	$48	!$16 & !$22 & !$39 & !$43 & !$61 & !$62 & $18 & $38 & $40 & $44 & $58 | !$16 & !$22 & !$39 & !$43 & !$62 & $18 & $38 & $40 & $44 & $61 & $65 | !$16 & !$22 & !$40 & !$43 & !$61 & !$62 & $13 & $18 & $38 & $58 | !$16 & !$22 & !$40 & !$43 & !$62 & $13 & $18 & $38 & $61 & $65 | !$16 & !$22 & !$43 & !$61 & !$62 & $13 & $18 & $38 & $39 & $58 | !$16 & !$22 & !$43 & !$62 & $13 & $18 & $38 & $39 & $61 & $65 | !$16 & !$22 & !$61 & !$62 & $18 & $38 & $43 & $47 & $58 | !$16 & !$22 & !$62 & $18 & $38 & $43 & $47 & $61 & $65 | !$22 & !$39 & !$43 & !$61 & !$62 & $16 & $18 & $38 & $40 & $41 & $59 | !$22 & !$39 & !$43 & !$62 & $16 & $18 & $38 & $40 & $41 & $61 & $64 | !$22 & !$40 & !$43 & !$61 & !$62 & $16 & $18 & $19 & $38 & $59 | !$22 & !$40 & !$43 & !$62 & $16 & $18 & $19 & $38 & $61 & $64 | !$22 & !$43 & !$61 & !$62 & $16 & $18 & $19 & $38 & $39 & $59 | !$22 & !$43 & !$62 & $16 & $18 & $19 & $38 & $39 & $61 & $64 | !$22 & !$61 & !$62 & $16 & $18 & $38 & $43 & $46 & $59 | !$22 & !$62 & $16 & $18 & $38 & $43 & $46 & $61 & $64
do	foreach($69)	do(`pdaaal::fixed_point_workset::emplace`, self, $1, $69@0.#1, $69@0.#0)	!$16 & !$81 & !$85 & $22 & $80 & lt($1, $14) | !$16 & !$81 & $22 & $73 & $85 & lt($1, $14) | !$16 & !$85 & $22 & $81 & $82 & lt($1, $14) | !$16 & $22 & $81 & $84 & $85 & lt($1, $14) | !$81 & !$85 & $16 & $22 & $83 & lt($1, $14) | !$81 & $16 & $22 & $85 & $86 & lt($1, $14) | !$85 & $16 & $22 & $76 & $81 & lt($1, $14) | $16 & $22 & $78 & $81 & $85 & lt($1, $14)
do	foreach($69)	set($75.#0.#1, $87)	!$16 & !$85 & $22 & $81 & $82 | !$16 & $22 & $81 & $84 & $85 | !$85 & $16 & $22 & $76 & $81 | $16 & $22 & $78 & $81 & $85
do	foreach($69)	set(0^.#0.#1, $87)	!$16 & !$81 & !$85 & $22 & $80 | !$16 & !$81 & $22 & $73 & $85 | !$81 & !$85 & $16 & $22 & $83 | !$81 & $16 & $22 & $85 & $86
do	foreach($69)	set($75.#1, -2147483648)	!$16 & !$85 & $22 & $81 & $82 | !$16 & $22 & $81 & $84 & $85 | !$85 & $16 & $22 & $76 & $81 | $16 & $22 & $78 & $81 & $85
do	foreach($69)	$48	!$16 & !$81 & !$85 & $22 & $80 | !$16 & !$81 & $22 & $73 & $85 | !$81 & !$85 & $16 & $22 & $83 | !$81 & $16 & $22 & $85 & $86
ret	true	true
== i::PAutomatonFixedPoint::PAutomatonFixedPoint | i::PAutomatonFixedPoint<Wu, TT::Longest> | (const i::PAutomaton<Wu, TI::Pair> &) |  | void
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 144
let	$1	new(`std::vector`)
let	$2	addrof(param(#0))
let	$3	$2._pda._states
let	$4	self._states[ix($3, #0)]
let	$5	18446744073709551614
do		set(self._done, false)	true
do		set(self._round_limit, size(param(#0)._states))	true
do		set(self._rounds, 0)	true
do		set(self._workset, $1)	true
do		set(self._next_workset, $1)	true
do		set(self._automaton, $2)	true
do		set(self._states, ctor(`std::vector`, size($2._states)))	true
do		set(self._min_accepting_state, 18446744073709551615)	true
do	foreach($3)	do(`pdaaal::fixed_point_workset::emplace`, self, ix($3, #0))	true
do	foreach($3)	set($4.weight, 0)	true
do	foreach($3)	set($4.in_queue, true)	true
do	foreach($3)	set($4.first_predecessor, $5)	true
do	foreach($3)	set($4.predecessor, $5)	true
== i::PAutomatonFixedPoint::step_with | i::PAutomatonFixedPoint<Wu, TT::Longest> | (u64 &&) | false | bool
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 145
let	$1	self._states[param(#0)]
let	$2	self._min_accepting_state
let	$3	eq($1.weight, 4294967294)
let	$4	18446744073709551615
let	$5	self._automaton._states[param(#0)]^
let	$6	foreach($5._edges)
let	$7	empty($5._edges@0.#1)
let	$8	call(`std::min_element`, begin($5._edges@0.#1), end($5._edges@0.#1), fun(call(`pdaaal::details::weight_impl::less`, lp(#0, #0).#1.#1, lp(#0, #1).#1.#1), []))^
let	$9	call(`pdaaal::details::weight_impl::add`, $1.weight', $8.#1.#1)
let	$10	self._states[$5._edges@0.#0]
let	$11	call(`pdaaal::details::weight_impl::less`, $9, $10.weight')
let	$12	$10.first_predecessor
do		set($1.in_queue, false)	true
do		set($2, param(#0))	$3 & $5._accepting | $5._accepting & call(`pdaaal::details::weight_impl::less`, $1.weight, self._states[$2].weight) | $5._accepting & eq($4, $2)
do	$6	do(`pdaaal::fixed_point_workset::emplace`, self, $5._edges@0.#0)	!$10.in_queue' & !$3 & !$7 & $11 | !$10.in_queue' & !$5._accepting & !$7 & $11
do	$6	set($10.weight, $9)	!$3 & !$7 & $11 | !$5._accepting & !$7 & $11
do	$6	set($10.first_label, $8.#0)	!$3 & !$7 & $11 & eq($12', $4) | !$5._accepting & !$7 & $11 & eq($12', $4)
do	$6	set($12, param(#0))	!$3 & !$7 & $11 & eq($12', $4) | !$5._accepting & !$7 & $11 & eq($12', $4)
do	$6	set($10.label, $8.#0)	!$3 & !$7 & $11 | !$5._accepting & !$7 & $11
do	$6	set($10.predecessor, param(#0))	!$3 & !$7 & $11 | !$5._accepting & !$7 & $11
do	$6	set($10.in_queue, true)	!$10.in_queue' & !$3 & !$7 & $11 | !$10.in_queue' & !$5._accepting & !$7 & $11
ret	{!$3 | !$5._accepting}	true
== i::PAutomatonFixedPoint::step_with | i::PAutomatonFixedPoint<Wu, TT::Longest> | (u64 &&) | true | bool
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 146
let	$1	self._states[param(#0)]
let	$2	self._min_accepting_state
let	$3	eq($1.weight, 4294967294)
let	$4	18446744073709551615
let	$5	self._automaton._states[param(#0)]^
let	$6	foreach($5._edges)
let	$7	empty($5._edges@0.#1)
let	$8	call(`std::min_element`, begin($5._edges@0.#1), end($5._edges@0.#1), fun(call(`pdaaal::details::weight_impl::less`, lp(#0, #0).#1.#1, lp(#0, #1).#1.#1), []))^
let	$9	self._states[$5._edges@0.#0]
let	$10	call(`pdaaal::details::weight_impl::less`, call(`pdaaal::details::weight_impl::add`, $1.weight', $8.#1.#1), $9.weight')
let	$11	$9.first_predecessor
do		set($1.in_queue, false)	true
do		set($2, param(#0))	$3 & $5._accepting | $5._accepting & call(`pdaaal::details::weight_impl::less`, $1.weight, self._states[$2].weight) | $5._accepting & eq($4, $2)
do	$6	do(`pdaaal::fixed_point_workset::emplace`, self, $5._edges@0.#0)	!$3 & !$7 & !$9.in_queue' & $10 | !$5._accepting & !$7 & !$9.in_queue' & $10
do	$6	set($9.weight, 4294967294)	!$3 & !$7 & $10 | !$5._accepting & !$7 & $10
do	$6	set($9.first_label, $8.#0)	!$3 & !$7 & $10 & eq($11', $4) | !$5._accepting & !$7 & $10 & eq($11', $4)
do	$6	set($11, param(#0))	!$3 & !$7 & $10 & eq($11', $4) | !$5._accepting & !$7 & $10 & eq($11', $4)
do	$6	set($9.label, $8.#0)	!$3 & !$7 & $10 | !$5._accepting & !$7 & $10
do	$6	set($9.predecessor, param(#0))	!$3 & !$7 & $10 | !$5._accepting & !$7 & $10
do	$6	set($9.in_queue, true)	!$3 & !$7 & !$9.in_queue' & $10 | !$5._accepting & !$7 & !$9.in_queue' & $10
ret	{!$3 | !$5._accepting}	true
== i::PAutomatonFixedPoint::not_accepting | i::PAutomatonFixedPoint<Wu, TT::Longest> | () const |  | bool
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 147
ret	eq(18446744073709551615, self._min_accepting_state)	true
== i::PAutomatonFixedPoint::get_weight | i::PAutomatonFixedPoint<Wu, TT::Longest> | () const |  | u32
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 148
ret	self._states[self._min_accepting_state].weight	true
== i::PAutomatonFixedPoint::is_infinite | i::PAutomatonFixedPoint<Wu, TT::Longest> | () const |  | bool
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 149
ret	eq(4294967294, self._states[self._min_accepting_state].weight)	true
== i::PAutomatonFixedPoint::get_path | i::PAutomatonFixedPoint<Wu, TT::Longest> | () const |  | AutomatonPath<false>
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 150
ret	call(`pdaaal::internal::PAutomatonFixedPoint::get_path`, self, fun(lp(#0, #0), []))	true
== i::PAutomatonFixedPoint::get_path | i::PAutomatonFixedPoint<Wu, TT::Longest> | (lambda &&) const | lambda | AutomatonPath<false>
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 151
let	$1	self._min_accepting_state
let	$2	self._states[phi(#0, $1, #0)]
let	$3	eq(18446744073709551614, $2.predecessor)
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, L(#0), $2.predecessor, $2.label)	!$3
do	loop(#0)	exit	$3
dom		init(L(#0)._edges, new(`std::vector`))	true
ret	pdaaal::AutomatonPath{_edges: L(#0)._edges', _end: $1}	true
== i::PAutomatonFixedPoint::AutomatonTraceBack::AutomatonTraceBack | i::PAutomatonFixedPoint<Wu, TT::Longest>::AutomatonTraceBack<lambda> | (const i::PAutomatonFixedPoint<Wu, TT::Longest> &, lambda &&) |  | void
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 152
let	$1	param(#0)._min_accepting_state
do		set(self._states, addrof(param(#0)._states))	true
do		set(self._current_state, $1)	true
do		set(self._state_map, param(#1))	true
do		set(self._path, pdaaal::AutomatonPath{_edges: new(`std::vector`), _end: $1})	true
== i::PAutomatonFixedPoint::AutomatonTraceBack::next | i::PAutomatonFixedPoint<Wu, TT::Longest>::AutomatonTraceBack<lambda> | () | false | std::optional<u32>
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 153
let	$1	self._current_state
let	$2	self._states[$1]
let	$3	eq(18446744073709551614, $2.predecessor)
do		do(`pdaaal::AutomatonPath::emplace`, self._path, $2.predecessor, $2.label)	!$3
do		set($1, $2.predecessor)	true
ret	nullopt	$3
ret	some($2.label)	!$3
== i::PAutomatonFixedPoint::AutomatonTraceBack::next | i::PAutomatonFixedPoint<Wu, TT::Longest>::AutomatonTraceBack<lambda> | () | true | std::optional<u32>
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 154
let	$1	self._current_state
let	$2	self._states[$1]
let	$3	$2.first_predecessor
let	$4	eq(18446744073709551614, $3)
do		do(`pdaaal::AutomatonPath::emplace`, self._path, $3, $2.first_label)	!$4
do		set($1, $3)	true
ret	nullopt	$4
ret	some($2.first_label)	!$4
== i::PAutomatonFixedPoint::AutomatonTraceBack::current_state | i::PAutomatonFixedPoint<Wu, TT::Longest>::AutomatonTraceBack<lambda> | () const |  | u64
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 155
ret	self._current_state	true
== i::PAutomatonFixedPoint::AutomatonTraceBack::get_path | i::PAutomatonFixedPoint<Wu, TT::Longest>::AutomatonTraceBack<lambda> | () const |  | AutomatonPath<false>
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 156
ret	self._path	true
== i::PAutomatonFixedPoint::get_path_with_loop | i::PAutomatonFixedPoint<Wu, TT::Longest> | () |  | AutomatonPath<false>
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 157
let	$1	fun(lp(#0, #0), [])
do		do(`pdaaal::internal::PAutomatonFixedPoint::get_path_with_loop`, self, $1)	true
ret	res(`pdaaal::internal::PAutomatonFixedPoint::get_path_with_loop`, self, $1)	true
== i::PAutomatonFixedPoint::get_path_with_loop | i::PAutomatonFixedPoint<Wu, TT::Longest> | (lambda &&) | lambda | AutomatonPath<false>
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 158
let	$1	ctor(`pdaaal::internal::PAutomatonFixedPoint`, self, param(#0))
let	$2	$1._current_state
let	$3	do(`pdaaal::internal::PAutomatonFixedPoint::AutomatonTraceBack::next`, L(#0))
let	$4	L(#0)._current_state
let	$5	has(res(`pdaaal::internal::PAutomatonFixedPoint::AutomatonTraceBack::next`, L(#0)))
let	$6	contains(L(#1)', $4'')
let	$7	L(#0)._path._edges
do		do(`insert`, L(#1), $2)	true
dom	loop(#0)	$3	true
do	loop(#0)	do(`insert`, L(#1), $4'')	$5
dom	loop(#0)	exit	!$5 | $6
do		$3	$5 & $6 & exists(loop(#0), true)
dom		init(L(#1), new(`std::unordered_set`))	true
dom		init($4, $2)	true
dom		init($7, $1._path._edges)	true
ret	call(`pdaaal::internal::PAutomatonFixedPoint::AutomatonTraceBack::get_path`, upd(upd($1, `_current_state`, $4''), `_path`, upd($1._path, `_edges`, $7'')))	true
== i::PAutomatonFixedPoint::PAutomatonFixedPoint | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint> | (const i::PAutomaton<Wi, TI::Pair> &) |  | void
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- same: 144
== i::PAutomatonFixedPoint::step_with | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint> | (u64 &&) | false | bool
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 159
let	$1	self._states[param(#0)]
let	$2	self._min_accepting_state
let	$3	18446744073709551615
let	$4	self._automaton._states[param(#0)]^
let	$5	eq($1.weight, -2147483648)
let	$6	foreach($4._edges)
let	$7	empty($4._edges@0.#1)
let	$8	call(`std::min_element`, begin($4._edges@0.#1), end($4._edges@0.#1), fun(call(`pdaaal::details::weight_impl::less`, lp(#0, #0).#1.#1, lp(#0, #1).#1.#1), []))^
let	$9	call(`pdaaal::details::weight_impl::add`, $1.weight', $8.#1.#1)
let	$10	self._states[$4._edges@0.#0]
let	$11	call(`pdaaal::details::weight_impl::less`, $9, $10.weight')
let	$12	$10.first_predecessor
do		set($1.in_queue, false)	true
do		set($2, param(#0))	$4._accepting & $5 | $4._accepting & call(`pdaaal::details::weight_impl::less`, $1.weight, self._states[$2].weight) | $4._accepting & eq($3, $2)
do	$6	do(`pdaaal::fixed_point_workset::emplace`, self, $4._edges@0.#0)	!$10.in_queue' & !$4._accepting & !$7 & $11 | !$10.in_queue' & !$5 & !$7 & $11
do	$6	set($10.weight, $9)	!$4._accepting & !$7 & $11 | !$5 & !$7 & $11
do	$6	set($10.first_label, $8.#0)	!$4._accepting & !$7 & $11 & eq($12', $3) | !$5 & !$7 & $11 & eq($12', $3)
do	$6	set($12, param(#0))	!$4._accepting & !$7 & $11 & eq($12', $3) | !$5 & !$7 & $11 & eq($12', $3)
do	$6	set($10.label, $8.#0)	!$4._accepting & !$7 & $11 | !$5 & !$7 & $11
do	$6	set($10.predecessor, param(#0))	!$4._accepting & !$7 & $11 | !$5 & !$7 & $11
do	$6	set($10.in_queue, true)	!$10.in_queue' & !$4._accepting & !$7 & $11 | !$10.in_queue' & !$5 & !$7 & $11
ret	{!$4._accepting | !$5}	true
== i::PAutomatonFixedPoint::step_with | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint> | (u64 &&) | true | bool
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 160
let	$1	self._states[param(#0)]
let	$2	self._min_accepting_state
let	$3	18446744073709551615
let	$4	self._automaton._states[param(#0)]^
let	$5	eq($1.weight, -2147483648)
let	$6	foreach($4._edges)
let	$7	empty($4._edges@0.#1)
let	$8	call(`std::min_element`, begin($4._edges@0.#1), end($4._edges@0.#1), fun(call(`pdaaal::details::weight_impl::less`, lp(#0, #0).#1.#1, lp(#0, #1).#1.#1), []))^
let	$9	self._states[$4._edges@0.#0]
let	$10	call(`pdaaal::details::weight_impl::less`, call(`pdaaal::details::weight_impl::add`, $1.weight', $8.#1.#1), $9.weight')
let	$11	$9.first_predecessor
do		set($1.in_queue, false)	true
do		set($2, param(#0))	$4._accepting & $5 | $4._accepting & call(`pdaaal::details::weight_impl::less`, $1.weight, self._states[$2].weight) | $4._accepting & eq($3, $2)
do	$6	do(`pdaaal::fixed_point_workset::emplace`, self, $4._edges@0.#0)	!$4._accepting & !$7 & !$9.in_queue' & $10 | !$5 & !$7 & !$9.in_queue' & $10
do	$6	set($9.weight, -2147483648)	!$4._accepting & !$7 & $10 | !$5 & !$7 & $10
do	$6	set($9.first_label, $8.#0)	!$4._accepting & !$7 & $10 & eq($11', $3) | !$5 & !$7 & $10 & eq($11', $3)
do	$6	set($11, param(#0))	!$4._accepting & !$7 & $10 & eq($11', $3) | !$5 & !$7 & $10 & eq($11', $3)
do	$6	set($9.label, $8.#0)	!$4._accepting & !$7 & $10 | !$5 & !$7 & $10
do	$6	set($9.predecessor, param(#0))	!$4._accepting & !$7 & $10 | !$5 & !$7 & $10
do	$6	set($9.in_queue, true)	!$4._accepting & !$7 & !$9.in_queue' & $10 | !$5 & !$7 & !$9.in_queue' & $10
ret	{!$4._accepting | !$5}	true
== i::PAutomatonFixedPoint::not_accepting | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint> | () const |  | bool
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- same: 147
== i::PAutomatonFixedPoint::get_weight | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint> | () const |  | int
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- same: 148
== i::PAutomatonFixedPoint::is_infinite | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint> | () const |  | bool
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 161
ret	eq(self._states[self._min_accepting_state].weight, -2147483648)	true
== i::PAutomatonFixedPoint::get_path | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint> | () const |  | AutomatonPath<false>
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- same: 150
== i::PAutomatonFixedPoint::get_path | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint> | (lambda &&) const | lambda | AutomatonPath<false>
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- same: 151
== i::PAutomatonFixedPoint::AutomatonTraceBack::AutomatonTraceBack | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint>::AutomatonTraceBack<lambda> | (const i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint> &, lambda &&) |  | void
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- same: 152
== i::PAutomatonFixedPoint::AutomatonTraceBack::next | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint>::AutomatonTraceBack<lambda> | () | false | std::optional<u32>
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- same: 153
== i::PAutomatonFixedPoint::AutomatonTraceBack::next | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint>::AutomatonTraceBack<lambda> | () | true | std::optional<u32>
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- same: 154
== i::PAutomatonFixedPoint::AutomatonTraceBack::current_state | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint>::AutomatonTraceBack<lambda> | () const |  | u64
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- same: 155
== i::PAutomatonFixedPoint::AutomatonTraceBack::get_path | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint>::AutomatonTraceBack<lambda> | () const |  | AutomatonPath<false>
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- same: 156
== i::PAutomatonFixedPoint::get_path_with_loop | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint> | () |  | AutomatonPath<false>
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- same: 157
== i::PAutomatonFixedPoint::get_path_with_loop | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint> | (lambda &&) | lambda | AutomatonPath<false>
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- id: 162
let	$1	ctor(`pdaaal::internal::PAutomatonFixedPoint`, self, param(#0))
let	$2	$1._current_state
let	$3	do(`pdaaal::internal::PAutomatonFixedPoint::AutomatonTraceBack::next`, L(#0))
let	$4	L(#0)._current_state
let	$5	has(res(`pdaaal::internal::PAutomatonFixedPoint::AutomatonTraceBack::next`, L(#0)))
let	$6	contains(L(#1)', $4'')
let	$7	L(#0)._path._edges
do		do(`insert`, L(#1), $2)	true
dom	loop(#0)	$3	true
do	loop(#0)	do(`insert`, L(#1), $4'')	$5
dom	loop(#0)	exit	!$5 | $6
do		$3	$5 & $6 & exists(loop(#0), true)
dom		init(L(#1), new(`std::unordered_set`))	true
dom		init($7, $1._path._edges)	true
dom		init($4, $2)	true
ret	call(`pdaaal::internal::PAutomatonFixedPoint::AutomatonTraceBack::get_path`, upd(upd($1, `_current_state`, $4''), `_path`, upd($1._path, `_edges`, $7'')))	true
== i::PAutomatonFixedPoint::get_path_with_loop | i::PAutomatonFixedPoint<Wi, TT::ShortestFixedPoint> | (lambda &&) | lambda | AutomatonPath<false>
-- file: include/pdaaal/internal/PAutomatonAlgorithms.h
-- same: 158
== i::labels_t::wildcard | i::labels_t | () const |  | bool
-- file: include/pdaaal/internal/PDA.h
-- id: 163
ret	self._wildcard	true
== i::labels_t::labels | i::labels_t | () const |  | const std::vector<u32> &
-- file: include/pdaaal/internal/PDA.h
-- id: 164
ret	self._labels	true
== i::labels_t::empty | i::labels_t | () const |  | bool
-- file: include/pdaaal/internal/PDA.h
-- id: 165
ret	{!self._wildcard & empty(self._labels)}	true
== i::labels_t::contains | i::labels_t | (u32) const |  | bool
-- file: include/pdaaal/internal/PDA.h
-- id: 166
let	$1	end(self._labels)
let	$2	call(`std::lower_bound`, begin(self._labels), $1, param(#0))
ret	{!eq($2, $1) & eq($2^, param(#0)) | self._wildcard}	true
== i::labels_t::clear | i::labels_t | () |  | void
-- file: include/pdaaal/internal/PDA.h
-- id: 167
do		do(`clear`, self._labels)	true
do		set(self._wildcard, false)	true
== i::pda_rule_t::operator< | i::pda_rule_t<W0, void> | (const i::pda_rule_t<W0, void> &) const |  | bool
-- file: include/pdaaal/internal/PDA.h
-- id: 168
let	$1	param(#0)._op_label
ret	{!lt($1, self._op_label) & !lt(param(#0)._to, self._to) & lt(self._operation, param(#0)._operation) | !lt(param(#0)._to, self._to) & lt(self._op_label, $1) | lt(self._to, param(#0)._to)}	true
== i::pda_rule_t::operator== | i::pda_rule_t<W0, void> | (const i::pda_rule_t<W0, void> &) const |  | bool
-- file: include/pdaaal/internal/PDA.h
-- id: 169
ret	{eq(param(#0)._to, self._to) & eq(self._op_label, param(#0)._op_label) & eq(self._operation, param(#0)._operation)}	true
== i::pda_rule_t::operator< | i::pda_rule_t<Wu, void> | (const i::pda_rule_t<Wu, void> &) const |  | bool
-- file: include/pdaaal/internal/PDA.h
-- id: 170
let	$1	param(#0)._operation
let	$2	self._operation
let	$3	param(#0)._op_label
ret	{!lt($1, $2) & !lt($3, self._op_label) & !lt(param(#0)._to, self._to) & lt(self._weight, param(#0)._weight) | !lt($3, self._op_label) & !lt(param(#0)._to, self._to) & lt($2, $1) | !lt(param(#0)._to, self._to) & lt(self._op_label, $3) | lt(self._to, param(#0)._to)}	true
== i::pda_rule_t::operator== | i::pda_rule_t<Wu, void> | (const i::pda_rule_t<Wu, void> &) const |  | bool
-- file: include/pdaaal/internal/PDA.h
-- id: 171
ret	{eq(param(#0)._to, self._to) & eq(param(#0)._weight, self._weight) & eq(self._op_label, param(#0)._op_label) & eq(self._operation, param(#0)._operation)}	true
== user_rule_t::user_rule_t | user_rule_t<W0, void> | (u64, u32, const i::pda_rule_t<W0, void> &) |  | void
-- file: include/pdaaal/internal/PDA.h
-- id: 172
let	$1	param(#2)._operation
let	$2	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $1)
let	$3	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $1)
do		set(self._from, param(#0))	true
do		set(self._to, param(#2)._to)	true
do		set(self._pre, param(#1))	true
do		set(self._op_label, param(#2)._op_label)	$2 | $3
do		set(self._op_label, 4294967295)	!$2 & !$3
do		set(self._op, $1)	true
== user_rule_t::to_impl_rule | user_rule_t<W0, void> | () const |  | i::pda_rule_t<W0, void>
-- file: include/pdaaal/internal/PDA.h
-- id: 173
ret	pdaaal::internal::pda_rule_t{_op_label: self._op_label, _operation: self._op, _to: self._to}	true
== user_rule_t::user_rule_t | user_rule_t<Wu, void> | (u64, u32, const i::pda_rule_t<Wu, void> &) |  | void
-- file: include/pdaaal/internal/PDA.h
-- id: 174
let	$1	param(#2)._operation
let	$2	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $1)
let	$3	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $1)
do		set(self._from, param(#0))	true
do		set(self._to, param(#2)._to)	true
do		set(self._pre, param(#1))	true
do		set(self._op_label, param(#2)._op_label)	$2 | $3
do		set(self._op_label, 4294967295)	!$2 & !$3
do		set(self._op, $1)	true
do		set(self._weight, param(#2)._weight)	true
== user_rule_t::to_impl_rule | user_rule_t<Wu, void> | () const |  | i::pda_rule_t<Wu, void>
-- file: include/pdaaal/internal/PDA.h
-- id: 175
ret	pdaaal::internal::pda_rule_t{_op_label: self._op_label, _operation: self._op, _to: self._to, _weight: self._weight}	true
== i::PDA::state_t::has_negative_weight | i::PDA<Wi, fut::vector>::state_t | (bool (&)(int, int)) const | bool (int, int) | bool
-- file: include/pdaaal/internal/PDA.h
-- id: 176
let	$1	foreach(self._rules)
let	$2	self._rules@0.#0._weight
let	$3	r_icall(param(#0), $2, 0)
do	$1	icall(param(#0), $2, 0)	true
do	$1	exit	$3
ret	exists(self._rules, $3)	true
== i::PDA::states | i::PDA<Wi, fut::vector> | () const |  | const std::vector<i::PDA<Wi, fut::vector>::state_t> &
-- file: include/pdaaal/internal/PDA.h
-- same: 77
== i::trace_t::trace_t | i::trace_t | (u64, u64) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 177
do		set(self._state, param(#1))	true
do		set(self._rule_id, param(#0))	true
do		set(self._label, 4294967294)	true
== i::trace_t::trace_t | i::trace_t | (u64, u64, u32) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 178
do		set(self._state, param(#0))	true
do		set(self._rule_id, param(#1))	true
do		set(self._label, param(#2))	true
== i::trace_t::trace_t | i::trace_t | (u64) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 179
do		set(self._state, param(#0))	true
do		set(self._rule_id, 18446744073709551615)	true
do		set(self._label, 4294967295)	true
== i::trace_t::is_pre_trace | i::trace_t | () const |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 180
ret	eq(4294967294, self._label)	true
== i::trace_t::is_post_epsilon_trace | i::trace_t | () const |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 181
ret	eq(4294967295, self._label)	true
== i::trace_t::is_null | i::trace_t | () const |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 182
let	$1	18446744073709551615
ret	{eq($1, self._rule_id) & eq(4294967295, self._label) & eq(self._state, $1)}	true
== i::operator== |  | (const i::trace_t &, const i::trace_t &) |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 183
ret	{eq(param(#0)._state, param(#1)._state) & eq(param(#1)._label, param(#0)._label) & eq(param(#1)._rule_id, param(#0)._rule_id)}	true
== i::operator!= |  | (const i::trace_t &, const i::trace_t &) |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 184
ret	{!eq(param(#0)._state, param(#1)._state) | !eq(param(#1)._label, param(#0)._label) | !eq(param(#1)._rule_id, param(#0)._rule_id)}	true
== i::operator< |  | (const i::trace_t &, const i::trace_t &) |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 185
let	$1	param(#0)._rule_id
let	$2	param(#1)._rule_id
let	$3	param(#0)._state
let	$4	param(#1)._state
ret	{!lt($2, $1) & !lt($4, $3) & lt(param(#0)._label, param(#1)._label) | !lt($4, $3) & lt($1, $2) | lt($3, $4)}	true
== i::TraceInfo::make_default | i::TraceInfo<TI::Single> | () |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 186
let	$1	18446744073709551615
ret	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $1, _state: $1}	true
== i::TraceInfo::is_default | i::TraceInfo<TI::Single> | (i::trace_t) |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 187
let	$1	18446744073709551615
ret	{eq($1, param(#0)._rule_id) & eq(param(#0)._label, 4294967295) & eq(param(#0)._state, $1)}	true
== i::TraceInfo::make_default | i::TraceInfo<TI::Pair> | () |  | std::pair<i::trace_t, i::trace_t>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 188
let	$1	18446744073709551615
let	$2	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $1, _state: $1}
ret	tuple{#0: $2, #1: $2}	true
== i::TraceInfo::is_default | i::TraceInfo<TI::Pair> | (std::pair<i::trace_t, i::trace_t>) |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 189
let	$1	18446744073709551615
ret	{eq($1, param(#0).#0._state) & eq(4294967295, param(#0).#0._label) & eq(4294967295, param(#0).#1._label) & eq(param(#0).#0._rule_id, $1) & eq(param(#0).#1._rule_id, $1) & eq(param(#0).#1._state, $1)}	true
== i::edge_annotation::make_default | i::edge_annotation<W0, TI::Single> | () |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 190
let	$1	18446744073709551615
ret	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $1, _state: $1}	true
== i::edge_annotation::from_trace_info | i::edge_annotation<W0, TI::Single> | (i::trace_t) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 191
ret	param(#0)	true
== i::edge_annotation::get_trace_info | i::edge_annotation<W0, TI::Single> | (i::trace_t) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 192
ret	param(#0)	true
== i::edge_annotation::make_default | i::edge_annotation<Wu, TI::Single> | () |  | std::pair<i::trace_t, u32>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 193
let	$1	18446744073709551615
ret	tuple{#0: pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $1, _state: $1}, #1: 0}	true
== i::edge_annotation::from_trace_info | i::edge_annotation<Wu, TI::Single> | (i::trace_t) |  | std::pair<i::trace_t, u32>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 194
ret	tuple{#0: param(#0), #1: 0}	true
== i::edge_annotation::get_trace_info | i::edge_annotation<Wu, TI::Single> | (std::pair<i::trace_t, u32>) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 195
ret	param(#0).#0	true
== i::edge_annotation::get_trace_info | i::edge_annotation<Wu, TI::Pair> | (std::pair<std::pair<i::trace_t, i::trace_t>, u32>) |  | std::pair<i::trace_t, i::trace_t>
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 195
== i::PAutomaton::state_t::state_t | i::PAutomaton<W0, TI::Single>::state_t | (bool, u64) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 196
let	$1	self._accepting
do		set($1, true)	param(#0)
do		set($1, false)	!param(#0)
do		set(self._id, param(#1))	true
do		set(self._edges, pdaaal::fut::detail::fut_set{elems: new(`std::unordered_map`)})	true
do		set(self._back_edge_state, 18446744073709551615)	true
do		set(self._back_edge_label, 4294967294)	true
do		set(self._best_weight, false)	true
== i::PAutomaton::PAutomaton | i::PAutomaton<W0, TI::Single> | (const i::PDA<W0, fut::vector> &, u64, const std::vector<u32> &) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 197
let	$1	new(`std::vector`)
let	$2	param(#0)._states
let	$3	eq(ix($2, #0), size($2))
let	$4	empty(param(#2))
let	$5	eq(ix($2, #0), param(#1))
let	$6	foreach(param(#2))
let	$7	eq(lin(#1, ix(param(#2), #0)), size(param(#2)))
let	$8	self._states[phi(#0, param(#1), #0)]''^._edges
let	$9	18446744073709551615
let	$10	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $9, _state: $9}
do		set(self._states, $1)	true
do		set(self._initial, $1)	true
do		set(self._accepting, $1)	true
do		set(self._pda, addrof(param(#0)))	true
do	foreach($2)	do(`pdaaal::internal::PAutomaton::add_state`, self, true, true)	!$4 & $3 | $4 & $5
do	foreach($2)	do(`pdaaal::internal::PAutomaton::add_state`, self, true, false)	!$3 & !$4 | !$5 & $4
do	$6	do(`pdaaal::internal::PAutomaton::add_state`, self, false, true)	$7
do	$6	do(`pdaaal::internal::PAutomaton::add_state`, self, false, false)	!$7
do	$6	do(`insert`, $8, res(`pdaaal::internal::PAutomaton::add_state`, self, false, true), param(#2)@0, $10)	$7
do	$6	do(`insert`, $8, res(`pdaaal::internal::PAutomaton::add_state`, self, false, false), param(#2)@0, $10)	!$7
== i::PAutomaton::PAutomaton | i::PAutomaton<W0, TI::Single> | (const i::PDA<W0, fut::vector> &, const NFA<u32> &, const std::vector<u64> &) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 198
let	$1	new(`std::vector`)
let	$2	param(#0)._states
let	$3	call(`pdaaal::NFA::empty_accept`, param(#1))
let	$4	lt(phi(#0, 0, #0), size(param(#2)))
let	$5	eq(ix($2, #0), param(#2)[phi(#0, 0, #0)])
do		set(self._states, $1)	true
do		set(self._initial, $1)	true
do		set(self._accepting, $1)	true
do		set(self._pda, addrof(param(#0)))	true
do	foreach($2)	do(`pdaaal::internal::PAutomaton::add_state`, self, true, true)	$3 & $4 & $5
dom	foreach($2)	do(`pdaaal::internal::PAutomaton::add_state`, self, true, false)	!$3 | !$4 | !$5
do		do(`pdaaal::internal::PAutomaton::construct`, self, param(#1), param(#2), fun(lp(#0, #0)._symbols, []), fun(none, []))	true
== i::PAutomaton::PAutomaton | i::PAutomaton<W0, TI::Single> | (const i::PDA<W0, fut::vector> &, const std::vector<u64> &, bool) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 199
let	$1	new(`std::vector`)
let	$2	param(#0)._states
let	$3	lt(phi(#0, 0, #0), size(param(#1)))
let	$4	eq(ix($2, #0), param(#1)[phi(#0, 0, #0)])
do		set(self._states, $1)	true
do		set(self._initial, $1)	true
do		set(self._accepting, $1)	true
do		set(self._pda, addrof(param(#0)))	true
do	foreach($2)	do(`pdaaal::internal::PAutomaton::add_state`, self, true, true)	$3 & $4 & param(#2)
dom	foreach($2)	do(`pdaaal::internal::PAutomaton::add_state`, self, true, false)	!$3 | !$4 | !param(#2)
== i::PAutomaton::PAutomaton | i::PAutomaton<W0, TI::Single> | (const i::PAutomaton<W0, TI::Single> &) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 200
let	$1	new(`std::vector`)
let	$2	self._accepting
let	$3	param(#0)._states
let	$4	param(#0)._accepting
let	$5	param(#0)._initial
do		set(self._states, $1)	true
do		set(self._initial, $1)	true
do		set($2, $1)	true
do		set(self._pda, addrof(param(#0)._pda))	true
do	foreach($3)	do(`push`, self._states, newobj($3@0^))	true
do	foreach($3)	set(L(#0)[$3@0], newobj($3@0^))	true
do	foreach($4)	do(`push`, $2, L(#0)[$4@0]')	true
do	foreach($5)	do(`push`, self._initial, L(#0)[$5@0]')	true
dom		init(L(#0), new(`std::unordered_map`))	true
== i::PAutomaton::states | i::PAutomaton<W0, TI::Single> | () const |  | const std::vector<std::unique_ptr<i::PAutomaton<W0, TI::Single>::state_t, std::default_delete<i::PAutomaton<W0, TI::Single>::state_t>>, std::allocator<std::unique_ptr<i::PAutomaton<W0, TI::Single>::state_t, std::default_delete<i::PAutomaton<W0, TI::Single>::state_t>>>> &
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 26
== i::PAutomaton::pda | i::PAutomaton<W0, TI::Single> | () const |  | const i::PDA<W0, fut::vector> &
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 27
== i::PAutomaton::or_extend | i::PAutomaton<W0, TI::Single> | (i::PAutomaton<W0, TI::Single> &&) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 201
let	$1	param(#0)._states
let	$2	$1@0^._accepting
let	$3	size(self._pda._states)
let	$4	lt(ix($1, #0), $3)
let	$5	self._states[ix($1, #0)]'
let	$6	$5^._accepting'
let	$7	foreach($1@0^._edges)
let	$8	$1@0^._edges@0.#1
let	$9	self._states[res(`pdaaal::internal::PAutomaton::add_state`, self, false, true)]''^._edges
let	$10	$1@0^._edges@0.#0
let	$11	lin(#0, $10, mul(#-1, $3), size(self._states))
let	$12	self._states[res(`pdaaal::internal::PAutomaton::add_state`, self, false, false)]''^._edges
do	foreach($1)	do(`pdaaal::internal::PAutomaton::add_state`, self, false, true)	!$4 & $2
do	foreach($1)	do(`pdaaal::internal::PAutomaton::add_state`, self, false, false)	!$2 & !$4
do	foreach($1)	do(`push`, self._accepting, $5)	!$6 & $2 & $4
do	foreach($1)	set($5^._accepting, true)	!$6 & $2 & $4
do	foreach($1) ; $7 ; foreach($8)	do(`insert`, $9, $10, $8@0.#0, $8@0.#1)	!$4 & $2 & lt($10, $3)
do	foreach($1) ; $7 ; foreach($8)	do(`insert`, $9, $11, $8@0.#0, $8@0.#1)	!$4 & !lt($10, $3) & $2
do	foreach($1) ; $7 ; foreach($8)	do(`insert`, $12, $10, $8@0.#0, $8@0.#1)	!$2 & !$4 & lt($10, $3)
do	foreach($1) ; $7 ; foreach($8)	do(`insert`, $12, $11, $8@0.#0, $8@0.#1)	!$2 & !$4 & !lt($10, $3)
do	foreach($1) ; $7 ; foreach($8)	do(`insert`, $5'^._edges, $10, $8@0.#0, $8@0.#1)	$4 & lt($10, $3)
do	foreach($1) ; $7 ; foreach($8)	do(`insert`, $5'^._edges, $11, $8@0.#0, $8@0.#1)	!lt($10, $3) & $4
== i::PAutomaton::find_path | i::PAutomaton<W0, TI::Single> | () const |  | AutomatonPath<false>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 202
ret	call(`pdaaal::internal::PAutomaton::find_path`, self, fun(lp(#0, #0), []))	true
== i::PAutomaton::find_path | i::PAutomaton<W0, TI::Single> | (lambda &&) const | lambda | AutomatonPath<false>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 203
let	$1	self._pda._states
let	$2	self._states[ix($1, #0)]^._accepting
let	$3	back(L(#0)).#1'
let	$4	back(L(#0)).#0'
let	$5	self._states[$4]^._edges
let	$6	self._states[$5@0.#0]^._accepting
let	$7	contains(L(#3)', $5@0.#0)
let	$8	range(rbegin(L(#1)), rend(L(#1)))
let	$9	exists($5, {!$7 & !empty($5@0.#1) & $6})
let	$10	new(`std::vector`)
let	$11	exists(loop(#0), true)
do	foreach($1)	do(`push`, L(#0), tuple{#0: ix($1, #0), #1: 0, #2: 4294967295})	!$2
do	foreach($1)	exit	$2
do	loop(#0)	do(`pop`, L(#0))	!empty(L(#0)') & !exists($1, $2)
do	loop(#0)	do(`resize`, L(#4), lin(#2, $3))	!empty(L(#0)') & !exists($1, $2)
do	loop(#0)	do(`resize`, L(#1), lin(#1, $3))	!empty(L(#0)') & !exists($1, $2)
do	loop(#0)	set(L(#4)[$3], $4)	!empty(L(#0)') & !exists($1, $2)
do	loop(#0)	set(L(#1)[lin(#-1, $3)], back(L(#0)).#2')	!empty(L(#0)') & !eq(0, $3) & !exists($1, $2)
do	loop(#0) ; foreach($5)	do(`insert`, L(#3), $5@0.#0)	!empty($5@0.#1) & !empty(L(#0)') & !exists($1, $2)
do	loop(#0) ; foreach($5)	set(L(#4)[lin(#1, $3)], $5@0.#0)	!$7 & !empty($5@0.#1) & !empty(L(#0)') & !exists($1, $2) & $6
do	loop(#0) ; foreach($5)	set(L(#1)[$3], $5@0.#1[0].#0)	!$7 & !empty($5@0.#1) & !empty(L(#0)') & !exists($1, $2) & $6
do	loop(#0) ; foreach($5) ; foreach($8)	do(`push`, L(#2), tuple{#0: $8@0^, #1: lin(#1, ix($8, #0), rbegin(L(#4)))^})	!$7 & !empty($5@0.#1) & !empty(L(#0)') & !exists($1, $2) & $6
do	loop(#0) ; foreach($5)	do(`push`, L(#0), tuple{#0: $5@0.#0, #1: lin(#1, $3), #2: $5@0.#1[0].#0})	!$6 & !$7 & !empty($5@0.#1) & !empty(L(#0)') & !exists($1, $2)
do	loop(#0) ; foreach($5)	exit	!$7 & !empty($5@0.#1) & !empty(L(#0)') & !exists($1, $2) & $6
do	loop(#0)	exit	!exists($1, $2) & $9 | !exists($1, $2) & empty(L(#0)')
dom		init(L(#0), $10)	true
dom		init(L(#3), new(`std::unordered_set`))	true
dom		init(L(#4), $10)	true
dom		init(L(#1), $10)	true
dom	loop(#0) ; foreach($5)	init(L(#2), $10)	true
ret	firstval($1, $2, pdaaal::AutomatonPath{_edges: $10, _end: ix($1, #0)})	exists($1, $2)
ret	pdaaal::AutomatonPath{_edges: L(#2)', _end: back(L(#4))''}	!empty(L(#0)') & !exists($1, $2) & $11 & $9
ret	pdaaal::AutomatonPath{_edges: $10, _end: 18446744073709551615}	!$11 & !exists($1, $2) | !$9 & !exists($1, $2) | !exists($1, $2) & empty(L(#0)')
== i::PAutomaton::accepts | i::PAutomaton<W0, TI::Single> | (u64, const std::vector<u32> &) const |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 204
let	$1	empty(param(#1))
let	$2	self._states[top(L(#0)).#0']^._edges
let	$3	lin(#1, top(L(#0)).#1')
let	$4	contains($2@0.#1, param(#1)[top(L(#0)).#1'])
let	$5	lt($3, size(param(#1)))
let	$6	self._states[$2@0.#0]^._accepting
let	$7	exists($2, {$4 & $6})
let	$8	self._states[param(#0)]^
let	$9	self._states[$8._edges@0.#0]
let	$10	contains($8._edges@0.#1, 4294967295)
do		do(`push`, L(#0), tuple{#0: param(#0), #1: 0})	!$1
do	loop(#0)	do(`pop`, L(#0))	!$1 & !empty(L(#0)')
do	loop(#0) ; foreach($2)	do(`push`, L(#0), tuple{#0: $2@0.#0, #1: $3})	!$1 & !empty(L(#0)') & $4 & $5
do	loop(#0) ; foreach($2)	exit	!$1 & !$5 & !empty(L(#0)') & $4 & $6
do	loop(#0)	exit	!$1 & !$5 & $7 | !$1 & empty(L(#0)')
dom		init(L(#0), new(`std::stack`))	true
ret	{!$1 & !$5 & !empty(L(#0)') & $7 & exists(loop(#0), true) | !eq(fold($8._edges, 0, ite([{$10 & $9^._accepting}, $9, {!$10 | !$9^._accepting}, phi(#0, 0, #0)]), none, false), 0) & $1 | $1 & $8._accepting}	true
== i::PAutomaton::accept_path | i::PAutomaton<W0, TI::Single> | (u64, const std::vector<u32> &) const | TT::Any | std::vector<u64>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 205
let	$1	empty(param(#1))
let	$2	self._states[top(L(#1)).#0']^._edges
let	$3	lin(#1, top(L(#1)).#1')
let	$4	size(param(#1))
let	$5	contains($2@0.#1, param(#1)[top(L(#1)).#1'])
let	$6	self._states[$2@0.#0]^._accepting
let	$7	exists($2, {$5 & $6})
let	$8	self._states[param(#0)]^
let	$9	self._states[$8._edges@0.#0]
let	$10	contains($8._edges@0.#1, 4294967295)
let	$11	fold($8._edges, 0, ite([{$10 & $9^._accepting}, $9, {!$10 | !$9^._accepting}, phi(#0, 0, #0)]), none, false)
let	$12	exists(loop(#0), true)
do		do(`push`, L(#1), tuple{#0: param(#0), #1: 0})	!$1
do	loop(#0)	do(`pop`, L(#1))	!$1 & !empty(L(#1)')
do	loop(#0)	set(L(#0)[top(L(#1)).#1'], top(L(#1)).#0')	!$1 & !empty(L(#1)')
do	loop(#0) ; foreach($2)	do(`push`, L(#1), tuple{#0: $2@0.#0, #1: $3})	!$1 & !empty(L(#1)') & $5 & lt($3, $4)
do	loop(#0) ; foreach($2)	set(L(#0)[$3], $2@0.#0)	!$1 & !empty(L(#1)') & !lt($3, $4) & $5 & $6
do	loop(#0) ; foreach($2)	exit	!$1 & !empty(L(#1)') & !lt($3, $4) & $5 & $6
do	loop(#0)	exit	!$1 & !lt($3, $4) & $7 | !$1 & empty(L(#1)')
dom		init(L(#1), new(`std::stack`))	true
dom		init(L(#0), ctor(`std::vector`, lin(#1, $4)))	true
ret	list(param(#0))	$1 & $8._accepting
ret	list(param(#0), $11^._id)	!$8._accepting & !eq($11, 0) & $1
ret	new(`std::vector`)	!$1 & !$12 | !$1 & !$7 | !$1 & empty(L(#1)') | !$1 & lt($3, $4) | !$8._accepting & $1 & eq($11, 0)
ret	L(#0)''	!$1 & !empty(L(#1)') & !lt($3, $4) & $12 & $7
== i::PAutomaton::get_trace_label | i::PAutomaton<W0, TI::Single> | (u64, u32, u64) const |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 206
let	$1	self._states[param(#0)]^._edges
let	$2	contains($1, param(#2), param(#1))
let	$3	18446744073709551615
ret	$1[param(#2), param(#1)]	$2
ret	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $3, _state: $3}	!$2
== i::PAutomaton::number_of_labels | i::PAutomaton<W0, TI::Single> | () const |  | u64
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 10
== i::PAutomaton::add_state | i::PAutomaton<W0, TI::Single> | (bool, bool) |  | u64
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 207
let	$1	size(self._states)
let	$2	newobj(pdaaal::internal::PAutomaton::state_t{_accepting: param(#1), _back_edge_label: 4294967294, _back_edge_state: 18446744073709551615, _best_weight: false, _edges: pdaaal::fut::detail::fut_set{elems: new(`std::unordered_map`)}, _id: $1})
do		do(`push`, self._states, $2)	true
do		do(`push`, self._accepting, $2)	param(#1)
do		do(`push`, self._initial, $2)	param(#0)
ret	$1	true
== i::PAutomaton::next_state_id | i::PAutomaton<W0, TI::Single> | () const |  | u64
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 12
== i::PAutomaton::add_edge | i::PAutomaton<W0, TI::Single> | (u64, u64, u32, i::trace_t) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 14
== i::PAutomaton::emplace_edge | i::PAutomaton<W0, TI::Single> | (u64, u32, u64, i::trace_t) |  | std::pair<__gnu_cxx::__normal_iterator<fut::vector_map<u32, i::trace_t>::elem_t *, std::vector<fut::vector_map<u32, i::trace_t>::elem_t>>, bool>
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 16
== i::PAutomaton::add_edges | i::PAutomaton<W0, TI::Single> | (u64, u64, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 208
let	$1	foreach(param(#3))
let	$2	range(phi(#0, 0, #0), param(#3)@0)
let	$3	self._states[param(#0)]^._edges
let	$4	18446744073709551615
let	$5	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $4, _state: $4}
let	$6	phi(#0, ite([{!param(#2)}, 0, param(#2), fold(param(#3), 0, lin(#1, param(#3)@0), none, false)]), #0)
let	$7	lt($6, call(`pdaaal::internal::PDA::number_of_labels`, self._pda))
do	$1 ; foreach($2)	do(`insert`, $3, param(#1), cast(#32, $2@0), $5)	param(#2)
do	loop(#0)	do(`insert`, $3, param(#1), cast(#32, $6), $5)	$7 & param(#2)
do	loop(#0)	exit	!$7 & param(#2)
do	$1	do(`insert`, $3, param(#1), param(#3)@0, $5)	!param(#2)
== i::PAutomaton::add_edges | i::PAutomaton<W0, TI::Single> | (const std::vector<u64> &, u64, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 209
let	$1	foreach(param(#3))
let	$2	range(phi(#0, 0, #0), param(#3)@0)
let	$3	foreach(param(#0))
let	$4	self._states[param(#0)@0]^._edges
let	$5	18446744073709551615
let	$6	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $5, _state: $5}
let	$7	phi(#0, ite([{!param(#2)}, 0, param(#2), fold(param(#3), 0, lin(#1, param(#3)@0), none, false)]), #0)
let	$8	lt($7, call(`pdaaal::internal::PDA::number_of_labels`, self._pda))
do	$1 ; foreach($2) ; $3	do(`insert`, $4, param(#1), cast(#32, $2@0), $6)	param(#2)
do	loop(#0) ; $3	do(`insert`, $4, param(#1), cast(#32, $7), $6)	$8 & param(#2)
do	loop(#0)	exit	!$8 & param(#2)
do	$3 ; $1	do(`insert`, $4, param(#1), param(#3)@0, $6)	!param(#2)
== i::PAutomaton::new_pre_trace | i::PAutomaton<W0, TI::Single> | (u64) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 19
== i::PAutomaton::new_pre_trace | i::PAutomaton<W0, TI::Single> | (u64, u64) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 20
== i::PAutomaton::new_post_trace | i::PAutomaton<W0, TI::Single> | (u64, u64, u32) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 21
== i::PAutomaton::new_post_trace | i::PAutomaton<W0, TI::Single> | (u64) |  | i::trace_t
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 22
== i::PAutomaton::construct | i::PAutomaton<W0, TI::Single> | (const NFA<u32> &, const std::vector<u64> &, const std::function<std::vector<u32> (const NFA<u32>::edge_t &)> &, const std::function<void (const NFA<u32>::state_t *, u64)> &) | u32, false, false | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 210
let	$1	param(#0)._initial
let	$2	foreach($1@0^._edges)
let	$3	call(`pdaaal::NFA::edge_t::follow_epsilon`, $1@0^._edges@0)
let	$4	do(`pdaaal::internal::PAutomaton::add_state`, self, false, true)
let	$5	contains(L(#1), $3@0)
let	$6	$3@0^._accepting
let	$7	do(`pdaaal::internal::PAutomaton::add_state`, self, false, false)
let	$8	res(`pdaaal::internal::PAutomaton::add_state`, self, false, true)
let	$9	res(`pdaaal::internal::PAutomaton::add_state`, self, false, false)
let	$10	$1@0^._edges@0._symbols
let	$11	$1@0^._edges@0._negated
let	$12	back(L(#0)).#0'^._edges
let	$13	call(`pdaaal::NFA::edge_t::follow_epsilon`, $12@0')
let	$14	$13@0^._accepting
let	$15	contains(L(#1), $13@0)
let	$16	res(`pdaaal::internal::PAutomaton::add_state`, self, false, true, #1)
let	$17	res(`pdaaal::internal::PAutomaton::add_state`, self, false, false, #1)
let	$18	back(L(#0)).#1'
let	$19	$12@0._symbols''
let	$20	$12@0._negated''
do	foreach($1) ; $2 ; foreach($3)	$4	!$5 & $6
do	foreach($1) ; $2 ; foreach($3)	$7	!$5 & !$6
do	foreach($1) ; $2 ; foreach($3)	do(`insert`, L(#1), $3@0, $8)	!$5 & $6
do	foreach($1) ; $2 ; foreach($3)	do(`insert`, L(#1), $3@0, $9)	!$5 & !$6
do	foreach($1) ; $2 ; foreach($3)	do(`push`, L(#0), tuple{#0: $3@0, #1: $8})	!$5 & $6
do	foreach($1) ; $2 ; foreach($3)	do(`push`, L(#0), tuple{#0: $3@0, #1: $9})	!$5 & !$6
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), $8, true, $10)	!$5 & $11 & $6
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), $8, false, $10)	!$11 & !$5 & $6
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), $9, true, $10)	!$5 & !$6 & $11
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), $9, false, $10)	!$11 & !$5 & !$6
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), L(#1)[$3@0]', true, $10)	$11 & $5
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), L(#1)[$3@0]', false, $10)	!$11 & $5
do	loop(#0)	do(`pop`, L(#0))	!empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	$4	!$15 & !empty(L(#0)') & $14
do	loop(#0) ; foreach($12) ; foreach($13)	$7	!$14 & !$15 & !empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	do(`insert`, L(#1), $13@0, $16)	!$15 & !empty(L(#0)') & $14
do	loop(#0) ; foreach($12) ; foreach($13)	do(`insert`, L(#1), $13@0, $17)	!$14 & !$15 & !empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	do(`push`, L(#0), tuple{#0: $13@0, #1: $16})	!$15 & !empty(L(#0)') & $14
do	loop(#0) ; foreach($12) ; foreach($13)	do(`push`, L(#0), tuple{#0: $13@0, #1: $17})	!$14 & !$15 & !empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, $16, true, $19)	!$15 & !empty(L(#0)') & $14 & $20
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, $16, false, $19)	!$15 & !$20 & !empty(L(#0)') & $14
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, $17, true, $19)	!$14 & !$15 & !empty(L(#0)') & $20
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, $17, false, $19)	!$14 & !$15 & !$20 & !empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, L(#1)[$13@0]', true, $19)	!empty(L(#0)') & $15 & $20
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, L(#1)[$13@0]', false, $19)	!$20 & !empty(L(#0)') & $15
do	loop(#0)	exit	empty(L(#0)')
dom		init(L(#1), new(`std::unordered_map`))	true
dom		init(L(#0), new(`std::vector`))	true
== i::PAutomaton::state_t::state_t | i::PAutomaton<Wu, TI::Single>::state_t | (bool, u64) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 24
== i::PAutomaton::PAutomaton | i::PAutomaton<Wu, TI::Single> | (const i::PDA<Wu, fut::vector> &, const NFA<u32> &, const std::vector<u64> &) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 198
== i::PAutomaton::PAutomaton | i::PAutomaton<Wu, TI::Single> | (const i::PDA<Wu, fut::vector> &, const std::vector<u64> &, bool) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 199
== i::PAutomaton::PAutomaton | i::PAutomaton<Wu, TI::Single> | (const i::PAutomaton<Wu, TI::Single> &) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 200
== i::PAutomaton::states | i::PAutomaton<Wu, TI::Single> | () const |  | const std::vector<std::unique_ptr<i::PAutomaton<Wu, TI::Single>::state_t, std::default_delete<i::PAutomaton<Wu, TI::Single>::state_t>>, std::allocator<std::unique_ptr<i::PAutomaton<Wu, TI::Single>::state_t, std::default_delete<i::PAutomaton<Wu, TI::Single>::state_t>>>> &
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 26
== i::PAutomaton::pda | i::PAutomaton<Wu, TI::Single> | () const |  | const i::PDA<Wu, fut::vector> &
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 27
== i::PAutomaton::find_path | i::PAutomaton<Wu, TI::Single> | () const |  | AutomatonPath<false>
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 202
