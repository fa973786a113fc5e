== nfa_build_action::apply0 | nfa_build_action<negation> | (NfaBuilder<u64> &) | u64 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 0
do		do(`pdaaal::NfaBuilder::set_negation`, param(#0))	true
== nfa_build_action::apply0 | nfa_build_action<star_symbol> | (NfaBuilder<u64> &) | u64 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 1
do		do(`pdaaal::NFA::star_extend`, back(param(#0)._nfa_stack))	true
== nfa_build_action::apply0 | nfa_build_action<plus_symbol> | (NfaBuilder<u64> &) | u64 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 2
do		do(`pdaaal::NFA::plus_extend`, back(param(#0)._nfa_stack))	true
== nfa_build_action::apply0 | nfa_build_action<question_symbol> | (NfaBuilder<u64> &) | u64 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 3
do		do(`pdaaal::NFA::question_extend`, back(param(#0)._nfa_stack))	true
== nfa_build_action::apply0 | nfa_build_action<or_symbol> | (NfaBuilder<u64> &) | u64 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 4
do		do(`pdaaal::NfaBuilder::push_op`, param(#0), enum(`pdaaal::nfa_op_tag::OR`, `pdaaal::nfa_op_tag`))	true
== parse |  | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, const std::function<u64 (const std::string &)> &) | u64, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> | NFA<u64>
-- file: include/pdaaal/parsing/NfaParser.cpp
-- id: 5
let	$1	new(`std::vector`)
let	$2	pdaaal::NfaBuilder{_label_function: param(#1), _label_set: new(`std::unordered_set`), _negated: false, _nfa_stack: $1, _op_type_stack: $1}
let	$3	exc(`tao::pegtl::parse_error`)
let	$4	caught(`tao::pegtl::parse_error`)
let	$5	call(`tao::pegtl::parse_error::positions`, $3)[0]
do		do(`tao::pegtl::parse`, param(#0), $2)	true
do		out(`<<`, L(#0), call(`tao::pegtl::parse_error::what`, $3))	$4
dom		do(`operator<<`, L(#0), fnref(`std::endl`))	$4
do		out(`<<`, L(#0), call(`tao::pegtl::memory_input::line_at`, param(#0)', $5))	$4
do		out(`<<`, L(#0), call(`std::setw`, cast(#32, $5.column)))	$4
do		out(`<<`, L(#0), "^")	$4
do		throw(`std::runtime_error`)	$4
do		do(`pdaaal::NfaBuilder::get_nfa`, L(#1))	true
dom		init(L(#1), $2)	true
dom		init(L(#0), new(`std::basic_stringstream`))	true
dom		init(L(#1)._nfa_stack, L(#1)'._nfa_stack)	true
ret	res(`pdaaal::NfaBuilder::get_nfa`, L(#1))	true
== parse |  | (tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string> &, const std::function<u64 (const std::string &)> &) | u64, tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string> | NFA<u64>
-- file: include/pdaaal/parsing/NfaParser.cpp
-- same: 5
== NfaParser::parse_file | NfaParser | (const std::string &, const std::function<u64 (const std::string &)> &) |  | NFA<u64>
-- file: include/pdaaal/parsing/NfaParser.cpp
-- id: 6
let	$1	ctor(`tao::pegtl::file_input`, ctor(`std::filesystem::path`, param(#0), enum(`std::filesystem::path::auto_format`, `std::filesystem::path::format`)))
let	$2	new(`std::vector`)
let	$3	pdaaal::NfaBuilder{_label_function: param(#1), _label_set: new(`std::unordered_set`), _negated: false, _nfa_stack: $2, _op_type_stack: $2}
let	$4	exc(`tao::pegtl::parse_error`)
let	$5	caught(`tao::pegtl::parse_error`)
let	$6	call(`tao::pegtl::parse_error::positions`, $4)[0]
do		do(`tao::pegtl::parse`, $1, $3)	true
do		out(`<<`, L(#0), call(`tao::pegtl::parse_error::what`, $4))	$5
dom		do(`operator<<`, L(#0), fnref(`std::endl`))	$5
do		out(`<<`, L(#0), call(`tao::pegtl::memory_input::line_at`, L(#1)', $6))	$5
do		out(`<<`, L(#0), call(`std::setw`, cast(#32, $6.column)))	$5
do		out(`<<`, L(#0), "^")	$5
do		throw(`std::runtime_error`)	$5
do		do(`pdaaal::NfaBuilder::get_nfa`, L(#2))	true
dom		init(L(#1), $1)	true
dom		init(L(#2), $3)	true
dom		init(L(#0), new(`std::basic_stringstream`))	true
dom		init(L(#2)._nfa_stack, L(#2)'._nfa_stack)	true
ret	res(`pdaaal::NfaBuilder::get_nfa`, L(#2))	true
== NfaParser::parse_string | NfaParser | (const std::string &, const std::function<u64 (const std::string &)> &) |  | NFA<u64>
-- file: include/pdaaal/parsing/NfaParser.cpp
-- id: 7
let	$1	ctor(`tao::pegtl::memory_input`, param(#0), "")
let	$2	new(`std::vector`)
let	$3	pdaaal::NfaBuilder{_label_function: param(#1), _label_set: new(`std::unordered_set`), _negated: false, _nfa_stack: $2, _op_type_stack: $2}
let	$4	exc(`tao::pegtl::parse_error`)
let	$5	caught(`tao::pegtl::parse_error`)
let	$6	call(`tao::pegtl::parse_error::positions`, $4)[0]
do		do(`tao::pegtl::parse`, $1, $3)	true
do		out(`<<`, L(#2), call(`tao::pegtl::parse_error::what`, $4))	$5
dom		do(`operator<<`, L(#2), fnref(`std::endl`))	$5
do		out(`<<`, L(#2), call(`tao::pegtl::memory_input::line_at`, L(#0)', $6))	$5
do		out(`<<`, L(#2), call(`std::setw`, cast(#32, $6.column)))	$5
do		out(`<<`, L(#2), "^")	$5
do		throw(`std::runtime_error`)	$5
do		do(`pdaaal::NfaBuilder::get_nfa`, L(#1))	true
dom		init(L(#0), $1)	true
dom		init(L(#1), $3)	true
dom		init(L(#2), new(`std::basic_stringstream`))	true
dom		init(L(#1)._nfa_stack, L(#1)'._nfa_stack)	true
ret	res(`pdaaal::NfaBuilder::get_nfa`, L(#1))	true
== i::labels_t::merge | i::labels_t | (bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/internal/PDA.cpp
-- id: 8
do		do(`clear`, self._labels)	!self._wildcard & param(#0)
do		set(self._wildcard, true)	!self._wildcard & param(#0)
do		set(self._labels, call(`std::set_union`, self._labels, param(#1)))	!param(#0) & !self._wildcard
== i::labels_t::intersect | i::labels_t | (const std::vector<u32> &, u64) |  | bool
-- file: include/pdaaal/internal/PDA.cpp
-- id: 9
let	$1	eq(param(#1), size(param(#0)))
let	$2	foreach(self._labels)
let	$3	self._labels@0'
let	$4	range(phi(#0, begin(param(#0)), #0), end(param(#0)))
let	$5	exists($4, {!lt($4@0^, $3)})
let	$6	firstval($4, {!lt($4@0^, $3)}, $4@0)
let	$7	eq($6, end(param(#0)))
do		set(self._labels, param(#0))	!$1 & self._wildcard
do		set(self._wildcard, false)	!$1 & self._wildcard
do	$2	set(self._labels[phi(#0, 0, #0)], $3)	!$1 & !$7 & !self._wildcard & $5 & eq($6^, $3)
do	$2	exit	!$1 & !$5 & !self._wildcard | !$1 & !self._wildcard & $7
do		do(`resize`, self._labels, fold(self._labels, 0, ite([{!$5 | !eq($6^, $3) | $7}, phi(#0, 0, #0), {!$7 & $5 & eq($6^, $3)}, lin(#1, phi(#0, 0, #0))]), phi(#0, 0, #0), {!$5 | $7}))	!$1 & !self._wildcard
ret	{!$1 & !empty(self._labels'') | !empty(self._labels) & $1 | $1 & self._wildcard}	true
== i::labels_t::noop_pre_filter | i::labels_t | (const std::set<u32, std::less<u32>> &) |  | bool
-- file: include/pdaaal/internal/PDA.cpp
-- id: 10
let	$1	begin(self._labels)
let	$2	begin(param(#0))
let	$3	phi(#0, $1, #0)
let	$4	self._labels@0'
let	$5	range(phi(#0, $2, #0), end(param(#0)))
let	$6	exists($5, {!lt($5@0^, $4)})
let	$7	firstval($5, {!lt($5@0^, $4)}, $5@0)
let	$8	eq($7, end(param(#0)))
let	$9	fold(self._labels, $1, ite([{!$8 & $6 & eq($7^, $4)}, lin(#1, $3), {!$6 | !eq($7^, $4) | $8}, $3]), none, false)
let	$10	eq($9, lin(#0, size(self._labels), $1))
do		do(`insert_at`, self._labels, $1, $2, end(param(#0)))	self._wildcard
do		set(self._wildcard, false)	true
do	foreach(self._labels)	set($3^, $4)	!$8 & !self._wildcard & $6 & eq($7^, $4)
do		do(`resize`, self._labels, lin(#0, $9, mul(#-1, $1)))	!$10 & !self._wildcard
ret	{!$10 | self._wildcard}	true
== i::Reducer::tos_t::update_state | i::Reducer::tos_t | (const std::pair<bool, bool> &) |  | bool
-- file: include/pdaaal/internal/Reducer.cpp
-- id: 11
let	$1	self._in_waiting
let	$2	enum(`pdaaal::internal::Reducer::tos_t::TOS`, `pdaaal::internal::Reducer::tos_t::waiting_t`)
let	$3	enum(`pdaaal::internal::Reducer::tos_t::BOS`, `pdaaal::internal::Reducer::tos_t::waiting_t`)
let	$4	bor(bor($1, $2), $3)
let	$5	eq($1, enum(`pdaaal::internal::Reducer::tos_t::BOTH`, `pdaaal::internal::Reducer::tos_t::waiting_t`))
do		set($1, $4)	!$5 & param(#0).#0 & param(#0).#1
do		set($1, bor($1, $3))	!$5 & !param(#0).#0 & param(#0).#1
do		set($1, bor($1, $2))	!$5 & !param(#0).#1 & param(#0).#0
ret	{!eq($1, $4) & eq($1, $2) & param(#0).#0 & param(#0).#1 | !eq($1, $4) & eq($1, $3) & param(#0).#0 & param(#0).#1 | !eq($1, $4) & eq($1, enum(`pdaaal::internal::Reducer::tos_t::NOT_IN_STACK`, `pdaaal::internal::Reducer::tos_t::waiting_t`)) & param(#0).#0 & param(#0).#1 | !eq($1, bor($1, $2)) & !param(#0).#1 & eq($1, $2) & param(#0).#0 | !eq($1, bor($1, $2)) & !param(#0).#1 & eq($1, $3) & param(#0).#0 | !eq($1, bor($1, $2)) & !param(#0).#1 & eq($1, enum(`pdaaal::internal::Reducer::tos_t::NOT_IN_STACK`, `pdaaal::internal::Reducer::tos_t::waiting_t`)) & param(#0).#0 | !eq($1, bor($1, $3)) & !param(#0).#0 & eq($1, $2) & param(#0).#1 | !eq($1, bor($1, $3)) & !param(#0).#0 & eq($1, $3) & param(#0).#1 | !eq($1, bor($1, $3)) & !param(#0).#0 & eq($1, enum(`pdaaal::internal::Reducer::tos_t::NOT_IN_STACK`, `pdaaal::internal::Reducer::tos_t::waiting_t`)) & param(#0).#1}	true
== i::Reducer::tos_t::empty_tos | i::Reducer::tos_t | () const |  | bool
-- file: include/pdaaal/internal/Reducer.cpp
-- id: 12
ret	empty(self._tos)	true
== i::Reducer::tos_t::forward_stack | i::Reducer::tos_t | (const i::Reducer::tos_t &, u64) |  | bool
-- file: include/pdaaal/internal/Reducer.cpp
-- id: 13
let	$1	param(#0)._stack
let	$2	eq(param(#1), size($1))
let	$3	size(self._stack)
let	$4	eq(param(#1), $3)
let	$5	begin(self._stack)
let	$6	phi(#0, $5, #0)
let	$7	end(self._stack)
let	$8	range($6, $7)@0
let	$9	phi(#0, begin($1), #0)
let	$10	firstval(range($6, $7), {!lt($8^, $9^)}, $8)
let	$11	eq($9, end($1))
let	$12	exists(range($6, $7), {!lt($8^, $9^)})
let	$13	phi(#1, ite([{!$11 & !eq($7, $10) & $12 & eq($10^, $9^)}, lin(#1, $9), {!$12 | !eq($10^, $9^) | $11 | eq($7, $10)}, $9]), #0)
let	$14	fold(loop(#1), $9, lin(#1, $13), $13, {!lt($13^, $10^) | eq(end($1), $13)})
do		set(self._stack, $1)	!$4 & $2
do	loop(#0)	do(`insert_at`, self._stack, $10, $9, $14)	!$11 & !$2 & !$4 & !eq($10^, $9^) & !eq($7, $10) & $12
do	loop(#0)	exit	!$12 & !$2 & !$4 | !$2 & !$4 & $11 | !$2 & !$4 & eq($7, $10)
do		do(`insert_at`, self._stack, fold(loop(#0), $5, ite([{!$11 & !eq($10^, $9^) & !eq($7, $10) & $12}, res(`std::vector::insert`, self._stack, $10, $9, $14), {!$11 & $12 & eq($10^, $9^) | !$11 & $12 & eq($7, $10)}, $10]), ite([{!$11 & !$12}, $7, $11, $6, {!$11 & $12 & eq($10^, $9^) | !$11 & $12 & eq($7, $10)}, $10]), {!$12 | $11 | eq($7, $10)}), fold(loop(#0), begin($1), ite([{!$11 & !eq($7, $10) & $12 & eq($10^, $9^)}, lin(#1, $9), {!$11 & !eq($10^, $9^) & !eq($7, $10) & $12}, $14]), $9, {!$12 | $11 | eq($7, $10)}), end($1))	!$2 & !$4
ret	{!eq($3, size(self._stack''))}	true
== i::Reducer::tos_t::active | i::Reducer::tos_t | (const i::Reducer::tos_t &, const i::labels_t &) |  | bool
-- file: include/pdaaal/internal/Reducer.cpp
-- id: 14
let	$1	param(#1)._labels
let	$2	range(phi(#0, begin($1), #0), end($1))
let	$3	param(#0)._tos@0
let	$4	firstval($2, {!lt($2@0^, $3)}, $2@0)
let	$5	eq($4, end($1))
let	$6	exists($2, {!lt($2@0^, $3)})
ret	{!empty($1) & exists(param(#0)._tos, {!$5 & $6 & eq($4^, $3)}, {!$6 | $5}) | param(#1)._wildcard}	true
== i::Reducer::tos_t::merge_pop | i::Reducer::tos_t | (const i::Reducer::tos_t &, const i::labels_t &, bool, u64) |  | std::pair<bool, bool>
-- file: include/pdaaal/internal/Reducer.cpp
-- id: 15
let	$1	param(#1)._wildcard
let	$2	eq(param(#3), size(self._tos))
let	$3	param(#1)._labels
let	$4	range(phi(#0, begin($3), #0), end($3))
let	$5	param(#0)._tos@0
let	$6	firstval($4, {!lt($4@0^, $5)}, $4@0)
let	$7	eq($6, end($3))
let	$8	exists($4, {!lt($4@0^, $5)})
let	$9	exists(param(#0)._tos, {!$7 & $8 & eq($6^, $5)}, {!$8 | $7})
let	$10	range(0, param(#3))
let	$11	param(#0)._stack
let	$12	eq(param(#3), size($11))
let	$13	range(phi(#0, begin(self._tos), #0), end(self._tos))
let	$14	firstval($13, {!lt($13@0^, $11@0)}, $13@0)
let	$15	eq(end(self._tos), $14)
let	$16	exists($13, {!lt($13@0^, $11@0)})
let	$17	eq($14^, $11@0)
do		do(`resize`, self._tos, param(#3))	!$2 & !empty($3) & !param(#2) & $9 | !$2 & !param(#2) & $1
do	foreach($10)	set(self._tos[$10@0], $10@0)	!$2 & !empty($3) & !param(#2) & $9 | !$2 & !param(#2) & $1
do		do(`pdaaal::internal::Reducer::tos_t::forward_stack`, self, param(#0), param(#3))	!empty($3) & $9 & param(#2) | $1 & param(#2)
do		set(self._tos, $11)	!$2 & !empty($3) & $12 & $9 & param(#2) | !$2 & $1 & $12 & param(#2)
do	foreach($11)	do(`insert_at`, self._tos, $14, $11@0)	!$12 & !$17 & !$2 & !empty($3) & $16 & $9 & param(#2) | !$12 & !$17 & !$2 & $1 & $16 & param(#2) | !$12 & !$2 & !empty($3) & $15 & $16 & $9 & param(#2) | !$12 & !$2 & $1 & $15 & $16 & param(#2)
do	foreach($11)	do(`insert_at`, self._tos, end(self._tos), $11@0)	!$12 & !$16 & !$2 & !empty($3) & $9 & param(#2) | !$12 & !$16 & !$2 & $1 & param(#2)
ret	tuple{#0: false, #1: false}	!$1 & !$9 | !$1 & empty($3)
ret	tuple{#0: {!$2 & !empty($3) & !param(#2) & $9 | !$2 & !empty($3) & $12 & $9 | !$2 & !empty($3) & $9 & exists($11, {!$16 | !$17 | $15}) | !$2 & !param(#2) & $1 | !$2 & $1 & $12 | !$2 & $1 & exists($11, {!$16 | !$17 | $15})}, #1: {!empty($3) & $9 & param(#2) & res(`pdaaal::internal::Reducer::tos_t::forward_stack`, self, param(#0), param(#3)) | $1 & param(#2) & res(`pdaaal::internal::Reducer::tos_t::forward_stack`, self, param(#0), param(#3))}}	!empty($3) & $9 | $1
== i::Reducer::tos_t::merge_noop | i::Reducer::tos_t | (const i::Reducer::tos_t &, const i::labels_t &, bool, u64) |  | std::pair<bool, bool>
-- file: include/pdaaal/internal/Reducer.cpp
-- id: 16
let	$1	foreach(param(#0)._tos)
let	$2	begin(self._tos)
let	$3	range(phi(#0, $2, #0), end(self._tos))
let	$4	param(#0)._tos@0
let	$5	firstval($3, {!lt($3@0^, $4)}, $3@0)
let	$6	exists($3, {!lt($3@0^, $4)})
let	$7	param(#1)._wildcard
let	$8	eq(end(self._tos), $5)
let	$9	param(#1)._labels
let	$10	range(phi(#0, ite([{!$7}, $2, $7, fold(param(#0)._tos, $2, ite([{!$6}, lin(#1, res(`std::vector::insert`, self._tos, end(self._tos), $4)), {!eq($4, $5^) & $6 | $6 & $8}, lin(#1, res(`std::vector::insert`, self._tos, $5, $4)), {!$8 & $6 & eq($4, $5^)}, lin(#1, $5)]), none, false)]), #0), end(self._tos))
let	$11	firstval($10, {!lt($10@0^, $9@0)}, $10@0)
let	$12	eq(end(self._tos), $11)
let	$13	exists($10, {!lt($10@0^, $9@0)})
do	$1	do(`insert_at`, self._tos, $5, $4)	!eq($4, $5^) & $6 & $7 | $6 & $7 & $8
do	$1	do(`insert_at`, self._tos, end(self._tos), $4)	!$6 & $7
do	foreach($9)	do(`insert_at`, self._tos, $11, $9@0)	!$7 & !eq($11^, $9@0) & $13 | !$7 & $12 & $13
do	foreach($9)	do(`insert_at`, self._tos, end(self._tos), $9@0)	!$13 & !$7
do		do(`pdaaal::internal::Reducer::tos_t::forward_stack`, self, param(#0), param(#3))	!empty($9) & param(#2) | $7 & param(#2)
ret	tuple{#0: false, #1: false}	!$7 & empty($9)
ret	tuple{#0: {!$7 & !empty($9) & exists($9, {!$13 | !eq($11^, $9@0) | $12}) | $7 & exists(param(#0)._tos, {!$6 | !eq($4, $5^) | $8})}, #1: {!empty($9) & param(#2) & res(`pdaaal::internal::Reducer::tos_t::forward_stack`, self, param(#0), param(#3)) | $7 & param(#2) & res(`pdaaal::internal::Reducer::tos_t::forward_stack`, self, param(#0), param(#3))}}	!empty($9) | $7
== i::Reducer::tos_t::merge_swap | i::Reducer::tos_t | (const i::Reducer::tos_t &, u32, const i::labels_t &, bool, u64) |  | std::pair<bool, bool>
-- file: include/pdaaal/internal/Reducer.cpp
-- id: 17
let	$1	call(`std::lower_bound`, begin(self._tos), end(self._tos), param(#1))
let	$2	param(#0)._tos@0
let	$3	param(#2)._labels
let	$4	range(phi(#0, begin($3), #0), end($3))
let	$5	firstval($4, {!lt($4@0^, $2)}, $4@0)
let	$6	eq($5, end($3))
let	$7	exists($4, {!lt($4@0^, $2)})
let	$8	exists(param(#0)._tos, {!$6 & $7 & eq($2, $5^)}, {!$7 | $6})
let	$9	eq($1, end(self._tos))
let	$10	param(#2)._wildcard
let	$11	eq(param(#1), $1^)
do		do(`insert_at`, self._tos, $1, param(#1))	!$11 & !empty($3) & $8 | !$11 & $10 | !empty($3) & $8 & $9 | $10 & $9
do		do(`pdaaal::internal::Reducer::tos_t::forward_stack`, self, param(#0), param(#4))	!empty($3) & $8 & param(#3) | $10 & param(#3)
ret	tuple{#0: false, #1: false}	!$10 & !$8 | !$10 & empty($3)
ret	tuple{#0: {!$11 & !empty($3) & $8 | !$11 & $10 | !empty($3) & $8 & $9 | $10 & $9}, #1: {!empty($3) & $8 & param(#3) & res(`pdaaal::internal::Reducer::tos_t::forward_stack`, self, param(#0), param(#4)) | $10 & param(#3) & res(`pdaaal::internal::Reducer::tos_t::forward_stack`, self, param(#0), param(#4))}}	!empty($3) & $8 | $10
== i::Reducer::tos_t::merge_push | i::Reducer::tos_t | (const i::Reducer::tos_t &, u32, const i::labels_t &, bool, u64) |  | std::pair<bool, bool>
-- file: include/pdaaal/internal/Reducer.cpp
-- id: 18
let	$1	eq(param(#4), size(param(#0)._tos))
let	$2	eq(param(#4), size(self._stack'))
let	$3	foreach(param(#0)._tos)
let	$4	end(self._stack)
let	$5	range(phi(#0, begin(self._stack), #0), $4)
let	$6	param(#0)._tos@0
let	$7	firstval($5, {!lt($5@0^, $6)}, $5@0)
let	$8	exists($5, {!lt($5@0^, $6)})
let	$9	res(`pdaaal::internal::Reducer::tos_t::merge_swap`, self, param(#0), param(#1), param(#2), true, param(#4))
do		do(`pdaaal::internal::Reducer::tos_t::merge_swap`, self, param(#0), param(#1), param(#2), true, param(#4))	param(#3)
do		do(`pdaaal::internal::Reducer::tos_t::merge_swap`, self, param(#0), param(#1), param(#2), false, param(#4))	!param(#3)
do		set(self._stack, param(#0)._tos)	!$2 & $1 & param(#3)
do	$3	do(`insert_at`, self._stack, $7, $6)	!$1 & !$2 & !eq($7^, $6) & $8 & param(#3) | !$1 & !$2 & $8 & eq($7, $4) & param(#3)
do	$3	do(`insert_at`, self._stack, $4, $6)	!$1 & !$2 & !$8 & param(#3)
ret	tuple{#0: $9.#0, #1: fold(param(#0)._tos, $9.#1, {!$8 & param(#3) | !eq($7^, $6) & param(#3) | eq($7, $4) & param(#3) | param(#3) & phi(#0, $9.#1, #0)}, none, false)}	true
== NfaBuilder::NfaBuilder | NfaBuilder<u64> | (const std::function<u64 (const std::string &)> &) |  | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 19
let	$1	new(`std::vector`)
do		set(self._label_function, param(#0))	true
do		set(self._negated, false)	true
do		set(self._label_set, new(`std::unordered_set`))	true
do		set(self._nfa_stack, $1)	true
do		set(self._op_type_stack, $1)	true
== NfaBuilder::open | NfaBuilder<u64> | () |  | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 20
do		do(`push`, self._op_type_stack, enum(`pdaaal::nfa_op_tag::BRACKET`, `pdaaal::nfa_op_tag`))	true
== NfaBuilder::close | NfaBuilder<u64> | () |  | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 21
let	$1	self._nfa_stack
let	$2	self._op_type_stack
let	$3	eq(back($2)', enum(`pdaaal::nfa_op_tag::BRACKET`, `pdaaal::nfa_op_tag`))
dom	loop(#0)	do(`pop`, $1)	!$3
do	loop(#0)	do(`pdaaal::NFA::or_extend`, back($1), back($1)')	eq(back($2)', enum(`pdaaal::nfa_op_tag::OR`, `pdaaal::nfa_op_tag`))
dom	loop(#0)	do(`pop`, $2)	!$3
do	loop(#0)	do(`pdaaal::NFA::concat`, back($1), back($1)')	eq(back($2)', enum(`pdaaal::nfa_op_tag::CONCAT`, `pdaaal::nfa_op_tag`))
do	loop(#0)	exit	$3
do		do(`pop`, $2)	true
== NfaBuilder::set_negation | NfaBuilder<u64> | () |  | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 22
do		set(self._negated, true)	true
== NfaBuilder::add_label | NfaBuilder<u64> | (const std::string &) |  | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 23
let	$1	self._label_function
do		invoke($1, param(#0))	true
do		do(`insert`, self._label_set, res_invoke($1, param(#0)))	true
== NfaBuilder::use_label_set | NfaBuilder<u64> | () |  | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 24
let	$1	new(`std::vector`)
let	$2	newobj(pdaaal::NFA::state_t{_accepting: false, _backedges: $1, _edges: $1})
let	$3	self._label_set
let	$4	newobj(pdaaal::NFA::state_t{_accepting: true, _backedges: $1, _edges: $1})
let	$5	self._nfa_stack
do		do(`push`, L(#3), $2)	!empty($3) | self._negated
do		do(`push`, L(#2), $2)	!empty($3) | self._negated
do		do(`push`, L(#3), $4)	!empty($3) | self._negated
do		do(`push`, L(#1), $4)	!empty($3) | self._negated
do		do(`push`, $4^._backedges, tuple{#0: $2, #1: 0})	!empty($3) | self._negated
do		do(`std::sort`, L(#0))	!empty($3) | self._negated
do		do(`push`, $2^._edges, pdaaal::NFA::edge_t{_destination: $4, _epsilon: false, _negated: self._negated, _symbols: L(#0)'})	!empty($3) | self._negated
do		do(`push`, $5, pdaaal::NFA{_accepting: L(#1)', _initial: L(#2)', _states: L(#3)''})	!empty($3) | self._negated
do		do(`push`, $5, pdaaal::NFA{_accepting: $1, _initial: $1, _states: $1})	!self._negated & empty($3)
do		do(`clear`, $3)	true
do		set(self._negated, false)	true
dom		init(L(#3), $1)	true
dom		init(L(#2), $1)	true
dom		init(L(#1), $1)	true
dom		init(L(#0), copyof($3))	true
== NfaBuilder::push_op | NfaBuilder<u64> | (nfa_op_tag) |  | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 25
do		do(`push`, self._op_type_stack, param(#0))	true
== NfaBuilder::get_nfa | NfaBuilder<u64> | () |  | NFA<u64>
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 26
let	$1	self._nfa_stack
let	$2	new(`std::vector`)
let	$3	pdaaal::NFA{_accepting: $2, _initial: $2, _states: $2}
do		do(`push`, $1, $3)	empty($1)
ret	$3	empty($1)
ret	back($1)	!empty($1)
== nfa_build_action::apply0 | nfa_build_action<nfa_expr<label_set<label, comment>, comment>> | (NfaBuilder<u64> &) | u64 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 27
let	$1	param(#0)._nfa_stack
let	$2	param(#0)._op_type_stack
let	$3	eq(enum(`pdaaal::nfa_op_tag::OR`, `pdaaal::nfa_op_tag`), back($2)')
do	loop(#0)	do(`pop`, $1)	!empty($2') & $3
do	loop(#0)	do(`pdaaal::NFA::or_extend`, back($1), back($1)')	!empty($2') & $3
do	loop(#0)	do(`pop`, $2)	!empty($2') & $3
do	loop(#0)	exit	!$3 | empty($2')
== nfa_build_action::apply0 | nfa_build_action<seq_expr<label_set<label, comment>, comment>> | (NfaBuilder<u64> &) | u64 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 28
let	$1	param(#0)._op_type_stack
let	$2	param(#0)._nfa_stack
let	$3	eq(enum(`pdaaal::nfa_op_tag::CONCAT`, `pdaaal::nfa_op_tag`), back($1)')
do		do(`pop`, $1)	true
do	loop(#0)	do(`pop`, $2)	!empty($1') & $3
do	loop(#0)	do(`pdaaal::NFA::concat`, back($2), back($2)')	!empty($1') & $3
do	loop(#0)	do(`pop`, $1)	!empty($1') & $3
do	loop(#0)	exit	!$3 | empty($1')
== nfa_build_action::apply0 | nfa_build_action<unary_expr<label_set<label, comment>, comment>> | (NfaBuilder<u64> &) | u64 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 29
do		do(`pdaaal::NfaBuilder::push_op`, param(#0), enum(`pdaaal::nfa_op_tag::CONCAT`, `pdaaal::nfa_op_tag`))	true
== nfa_build_action::apply0 | nfa_build_action<label_set<label, comment>> | (NfaBuilder<u64> &) | u64 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 30
do		do(`pdaaal::NfaBuilder::use_label_set`, param(#0))	true
== nfa_build_action::apply | nfa_build_action<label> | (const tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>> &, NfaBuilder<u64> &) | tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>>, u64 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 31
do		do(`pdaaal::NfaBuilder::add_label`, param(#1), call(`tao::pegtl::internal::action_input::string`, param(#0)))	true
== nfa_build_action::apply0 | nfa_build_action<wildcard> | (NfaBuilder<u64> &) | u64 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 32
let	$1	new(`std::vector`)
let	$2	newobj(pdaaal::NFA::state_t{_accepting: false, _backedges: $1, _edges: $1})
let	$3	newobj(pdaaal::NFA::state_t{_accepting: true, _backedges: $1, _edges: $1})
do		do(`push`, L(#0), $2)	true
do		do(`push`, L(#2), $2)	true
do		do(`push`, L(#0), $3)	true
do		do(`push`, L(#1), $3)	true
do		do(`push`, $3^._backedges, tuple{#0: $2, #1: 0})	true
do		do(`std::sort`, L(#3))	true
do		do(`push`, $2^._edges, pdaaal::NFA::edge_t{_destination: $3, _epsilon: false, _negated: true, _symbols: L(#3)'})	true
do		do(`push`, param(#0)._nfa_stack, pdaaal::NFA{_accepting: L(#1)', _initial: L(#2)', _states: L(#0)''})	true
dom		init(L(#0), $1)	true
dom		init(L(#2), $1)	true
dom		init(L(#1), $1)	true
dom		init(L(#3), copyof(new(`std::unordered_set`)))	true
== nfa_build_action::apply0 | nfa_build_action<bracket_open> | (NfaBuilder<u64> &) | u64 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 33
do		do(`pdaaal::NfaBuilder::open`, param(#0))	true
== nfa_build_action::apply0 | nfa_build_action<bracket_close> | (NfaBuilder<u64> &) | u64 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 34
do		do(`pdaaal::NfaBuilder::close`, param(#0))	true
