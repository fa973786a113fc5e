== state_mapping::get_state | state_mapping<std::string> | (u64) const |  | std::string
-- file: include/pdaaal/PDA.h
-- id: 0
ret	call(`pdaaal::utils::ptrie_set::at`, self._state_map, param(#0))	true
== state_mapping::state_map_size | state_mapping<std::string> | () const |  | u64
-- file: include/pdaaal/PDA.h
-- id: 1
ret	size(self._state_map)	true
== no_state_mapping::get_state | no_state_mapping | (u64) const |  | u64
-- file: include/pdaaal/PDA.h
-- id: 2
ret	param(#0)	true
== PDA::PDA | PDA<char, W0, fut::vector, u64, true> | (PDA<char, W0, fut::vector, u64, true> &&) | fut::vector | void
-- file: include/pdaaal/PDA.h
-- id: 3
do		do(`pdaaal::PDA::move_label_map`, param(#0))	true
do		set(fld(self, `<base:pdaaal::internal::PDA>`), param(#0))	true
do		set(self._label_map, res(`pdaaal::PDA::move_label_map`, param(#0)))	true
== PDA::PDA | PDA<char, W0, fut::vector, u64, true> | (PDA<char, W0, fut::hash, u64, true> &&) | fut::hash | void
-- file: include/pdaaal/PDA.h
-- id: 4
let	$1	param(#0)._states
do		do(`pdaaal::PDA::move_label_map`, param(#0))	true
do		set(self._states, ctor(`std::vector`, call(`std::make_move_iterator`, begin($1)), call(`std::make_move_iterator`, end($1))))	true
do		set(self._label_map, res(`pdaaal::PDA::move_label_map`, param(#0)))	true
== PDA::PDA | PDA<char, W0, fut::vector, u64, true> | (const std::unordered_set<char, std::hash<char>, std::equal_to<char>> &) |  | void
-- file: include/pdaaal/PDA.h
-- id: 5
let	$1	self._label_map
let	$2	copyof(param(#0))
do		set(self._states, new(`std::vector`))	true
do		set($1, pdaaal::utils::ptrie_set{})	true
do	foreach($2)	do(`pdaaal::utils::ptrie_set::insert`, $1, $2@0)	true
== PDA::move_label_map | PDA<char, W0, fut::vector, u64, true> | () |  | utils::ptrie_set<char>
-- file: include/pdaaal/PDA.h
-- id: 6
ret	self._label_map	true
== PDA::number_of_labels | PDA<char, W0, fut::vector, u64, true> | () const |  | u64
-- file: include/pdaaal/PDA.h
-- id: 7
ret	size(self._label_map)	true
== PDA::get_symbol | PDA<char, W0, fut::vector, u64, true> | (u64) const |  | char
-- file: include/pdaaal/PDA.h
-- id: 8
ret	call(`pdaaal::utils::ptrie_set::at`, self._label_map, param(#0))	true
== PDA::encode_pre | PDA<char, W0, fut::vector, u64, true> | (const std::vector<char> &) const |  | std::vector<u32>
-- file: include/pdaaal/PDA.h
-- id: 9
dom		init(L(#0), new(`std::vector`))	true
do	foreach(param(#0))	do(`push`, L(#0), cast(#32, call(`pdaaal::utils::ptrie_set::exists`, self._label_map, param(#0)@0).#1))	true
ret	L(#0)'	true
== PDA::PDA | PDA<char, Wu, fut::vector, u64, true> | (PDA<char, Wu, fut::hash, u64, true> &&) | fut::hash | void
-- file: include/pdaaal/PDA.h
-- same: 4
== PDA::PDA | PDA<char, Wu, fut::vector, u64, true> | (PDA<char, Wu, fut::vector, u64, true> &&) | fut::vector | void
-- file: include/pdaaal/PDA.h
-- same: 3
== PDA::move_label_map | PDA<char, Wu, fut::vector, u64, true> | () |  | utils::ptrie_set<char>
-- file: include/pdaaal/PDA.h
-- same: 6
== PDA::number_of_labels | PDA<char, Wu, fut::vector, u64, true> | () const |  | u64
-- file: include/pdaaal/PDA.h
-- same: 7
== PDA::get_symbol | PDA<char, Wu, fut::vector, u64, true> | (u64) const |  | char
-- file: include/pdaaal/PDA.h
-- same: 8
== PDA::encode_pre | PDA<char, Wu, fut::vector, u64, true> | (const std::vector<char> &) const |  | std::vector<u32>
-- file: include/pdaaal/PDA.h
-- same: 9
== PDA::to_json | PDA<char, Wu, fut::vector, u64, true> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PDA.h
-- id: 10
do		set(L(#0)["pda"], ctor(`nlohmann::basic_json`, self))	true
dom		init(L(#0), ctor(`nlohmann::basic_json`, 0))	true
ret	L(#0)'	true
== PDA::number_of_labels | PDA<char, Wi, fut::vector, u64, true> | () const |  | u64
-- file: include/pdaaal/PDA.h
-- same: 7
== PDA::get_symbol | PDA<char, Wi, fut::vector, u64, true> | (u64) const |  | char
-- file: include/pdaaal/PDA.h
-- same: 8
== PDA::rule_t_::rule_t_ | PDA<char, Wu, fut::hash, u64, true>::rule_t_<Wu, void> | (const PDA<char, Wu, fut::hash, u64, true> &, u64, u32, i::pda_rule_t<Wu, void>) |  | void
-- file: include/pdaaal/PDA.h
-- id: 11
let	$1	param(#3)._operation
let	$2	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $1)
let	$3	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $1)
do		set(self._from, param(#1))	true
do		set(self._pre, call(`pdaaal::PDA::get_symbol`, param(#0), param(#2)))	true
do		set(self._to, param(#3)._to)	true
do		set(self._op, $1)	true
do		set(self._op_label, 0)	$2 | $3
do		set(self._op_label, call(`pdaaal::PDA::get_symbol`, param(#0), param(#3)._op_label))	!$2 & !$3
do		set(self._weight, param(#3)._weight)	true
== PDA::move_label_map | PDA<char, Wu, fut::hash, u64, true> | () |  | utils::ptrie_set<char>
-- file: include/pdaaal/PDA.h
-- same: 6
== PDA::number_of_labels | PDA<char, Wu, fut::hash, u64, true> | () const |  | u64
-- file: include/pdaaal/PDA.h
-- same: 7
== PDA::get_symbol | PDA<char, Wu, fut::hash, u64, true> | (u64) const |  | char
-- file: include/pdaaal/PDA.h
-- same: 8
== PDA::add_rule | PDA<char, Wu, fut::hash, u64, true> | (const PDA<char, Wu, fut::hash, u64, true>::rule_t_<Wu, void> &) |  | void
-- file: include/pdaaal/PDA.h
-- id: 12
do		do(`pdaaal::PDA::add_rule`, self, param(#0)._from, param(#0)._to, param(#0)._op, param(#0)._op_label, param(#0)._pre, param(#0)._weight)	true
== PDA::add_wildcard_rule | PDA<char, Wu, fut::hash, u64, true> | (const PDA<char, Wu, fut::hash, u64, true>::rule_t_<Wu, void> &) |  | void
-- file: include/pdaaal/PDA.h
-- id: 13
do		do(`pdaaal::internal::PDA::add_untyped_rule`, self, param(#0)._from, param(#0)._to, param(#0)._op, call(`pdaaal::PDA::find_labelid`, self, param(#0)._op, param(#0)._op_label), param(#0)._weight, true, new(`std::vector`))	true
== PDA::add_rule | PDA<char, Wu, fut::hash, u64, true> | (int &&, int &&, op_t &&, char &, bool &&, std::vector<char> &&, u32 &&) | <int, int, op_t, char &, bool, std::vector<char>, u32> | void
-- file: include/pdaaal/PDA.h
-- id: 14
do		do(`pdaaal::PDA::add_rule_`, self, param(#0), param(#1), param(#2), param(#3), true, param(#5), param(#6))	param(#4)
do		do(`pdaaal::PDA::add_rule_`, self, param(#0), param(#1), param(#2), param(#3), false, param(#5), param(#6))	!param(#4)
== PDA::add_rule | PDA<char, Wu, fut::hash, u64, true> | (int &&, int &&, op_t &&, char &, char &, u32 &&) | <int, int, op_t, char &, char &, u32> | void
-- file: include/pdaaal/PDA.h
-- id: 15
do		do(`pdaaal::PDA::add_rule_`, self, param(#0), param(#1), param(#2), param(#3), param(#4), param(#5))	true
== PDA::add_rule | PDA<char, Wu, fut::hash, u64, true> | (const u64 &, const u64 &, const op_t &, const char &, const char &, const u32 &) | <const u64 &, const u64 &, const op_t &, const char &, const char &, const u32 &> | void
-- file: include/pdaaal/PDA.h
-- same: 15
== PDA::add_rule | PDA<char, Wu, fut::hash, u64, true> | (u64 &, u64 &, op_t &, char &, bool &&, std::vector<char> &, u32 &) | <u64 &, u64 &, op_t &, char &, bool, std::vector<char> &, u32 &> | void
-- file: include/pdaaal/PDA.h
-- same: 14
== PDA::encode_pre | PDA<char, Wu, fut::hash, u64, true> | (const std::vector<char> &) const |  | std::vector<u32>
-- file: include/pdaaal/PDA.h
-- same: 9
== PDA::exists_label | PDA<char, Wu, fut::hash, u64, true> | (const char &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PDA.h
-- id: 16
ret	call(`pdaaal::utils::ptrie_set::exists`, self._label_map, param(#0))	true
== PDA::exists_state | PDA<char, Wu, fut::hash, u64, true> | (const u64 &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PDA.h
-- id: 17
ret	tuple{#0: lt(param(#0), size(self._states)), #1: param(#0)}	true
== PDA::insert_label | PDA<char, Wu, fut::hash, u64, true> | (const char &) |  | u32
-- file: include/pdaaal/PDA.h
-- id: 18
let	$1	self._label_map
do		do(`pdaaal::utils::ptrie_set::insert`, $1, param(#0))	true
ret	cast(#32, fresh(`pdaaal::utils::ptrie_set::insert`, $1, param(#0)))	true
== PDA::insert_state | PDA<char, Wu, fut::hash, u64, true> | (const u64 &) |  | u64
-- file: include/pdaaal/PDA.h
-- id: 19
do		do(`pdaaal::internal::PDA::add_state`, self, param(#0))	true
ret	param(#0)	true
== PDA::all_rules | PDA<char, Wu, fut::hash, u64, true> | () const |  | std::vector<PDA<char, Wu, fut::hash, u64, true>::rule_t_<Wu, void>>
-- file: include/pdaaal/PDA.h
-- id: 20
let	$1	foreach(self._states)
let	$2	self._states@0._rules
let	$3	range(0, call(`pdaaal::PDA::number_of_labels`, self))
let	$4	ix(self._states, #0)
let	$5	$2@0.#0._operation
let	$6	call(`pdaaal::PDA::get_symbol`, self, $3@0)
let	$7	$2@0.#0._weight
let	$8	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $5)
let	$9	$2@0.#1._wildcard
let	$10	eq($5, enum(`pdaaal::POP`, `pdaaal::op_t`))
let	$11	call(`pdaaal::PDA::get_symbol`, self, $2@0.#0._op_label)
let	$12	$2@0.#1._labels
let	$13	call(`pdaaal::PDA::get_symbol`, self, $12@0)
do	$1 ; foreach($2) ; foreach($3)	do(`push`, L(#0), pdaaal::PDA::rule_t_{_from: $4, _op: $5, _op_label: 0, _pre: $6, _to: $2@0.#0._to, _weight: $7})	$10 & $9 | $8 & $9
do	$1 ; foreach($2) ; foreach($3)	do(`push`, L(#0), pdaaal::PDA::rule_t_{_from: $4, _op: $5, _op_label: $11, _pre: $6, _to: $2@0.#0._to, _weight: $7})	!$10 & !$8 & $9
do	$1 ; foreach($2) ; foreach($12)	do(`push`, L(#0), pdaaal::PDA::rule_t_{_from: $4, _op: $5, _op_label: 0, _pre: $13, _to: $2@0.#0._to, _weight: $7})	!$9 & $10 | !$9 & $8
do	$1 ; foreach($2) ; foreach($12)	do(`push`, L(#0), pdaaal::PDA::rule_t_{_from: $4, _op: $5, _op_label: $11, _pre: $13, _to: $2@0.#0._to, _weight: $7})	!$10 & !$8 & !$9
dom		init(L(#0), new(`std::vector`))	true
ret	L(#0)'	true
== PDA::find_labelid | PDA<char, Wu, fut::hash, u64, true> | (op_t, char) const |  | u32
-- file: include/pdaaal/PDA.h
-- id: 21
let	$1	eq(param(#0), enum(`pdaaal::POP`, `pdaaal::op_t`))
let	$2	call(`pdaaal::utils::ptrie_set::exists`, self._label_map, param(#1))
let	$3	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), param(#0))
do		throw(`std::logic_error`)	!$1 & !$2.#0 & !$3
ret	cast(#32, $2.#1)	!$1 & !$3 & $2.#0
ret	4294967295	$1 | $3
== PDA::add_rule_ | PDA<char, Wu, fut::hash, u64, true> | (u64, u64, op_t, char, bool, const std::vector<char> &, u32) | Wu, void | void
-- file: include/pdaaal/PDA.h
-- id: 22
let	$1	pdaaal::internal::pda_rule_t{_op_label: call(`pdaaal::PDA::find_labelid`, self, param(#2), param(#3)), _operation: param(#2), _to: param(#1), _weight: param(#6)}
let	$2	call(`pdaaal::PDA::encode_pre`, self, param(#5))
do		do(`pdaaal::internal::PDA::add_untyped_rule_impl`, self, param(#0), $1, true, $2)	param(#4)
do		do(`pdaaal::internal::PDA::add_untyped_rule_impl`, self, param(#0), $1, false, $2)	!param(#4)
== PDA::add_rule_ | PDA<char, Wu, fut::hash, u64, true> | (u64, u64, op_t, char, char, u32) | Wu, void | void
-- file: include/pdaaal/PDA.h
-- id: 23
do		do(`pdaaal::PDA::add_rule`, self, param(#0), param(#1), param(#2), param(#3), false, list(param(#4)), param(#5))	true
== PDA::rule_t_::rule_t_ | PDA<std::string, W0, fut::hash, std::string, false>::rule_t_<W0, void> | (const PDA<std::string, W0, fut::hash, std::string, false> &, u64, u32, i::pda_rule_t<W0, void>) |  | void
-- file: include/pdaaal/PDA.h
-- id: 24
let	$1	param(#3)._operation
let	$2	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $1)
let	$3	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $1)
do		set(self._from, param(#1))	true
do		set(self._pre, call(`pdaaal::PDA::get_symbol`, param(#0), param(#2)))	true
do		set(self._to, param(#3)._to)	true
do		set(self._op, $1)	true
do		set(self._op_label, "")	$2 | $3
do		set(self._op_label, call(`pdaaal::PDA::get_symbol`, param(#0), param(#3)._op_label))	!$2 & !$3
== PDA::move_label_map | PDA<std::string, W0, fut::hash, std::string, false> | () |  | utils::ptrie_set<std::string>
-- file: include/pdaaal/PDA.h
-- same: 6
== PDA::number_of_labels | PDA<std::string, W0, fut::hash, std::string, false> | () const |  | u64
-- file: include/pdaaal/PDA.h
-- same: 7
== PDA::get_symbol | PDA<std::string, W0, fut::hash, std::string, false> | (u64) const |  | std::string
-- file: include/pdaaal/PDA.h
-- same: 8
== PDA::add_rule | PDA<std::string, W0, fut::hash, std::string, false> | (const PDA<std::string, W0, fut::hash, std::string, false>::rule_t_<W0, void> &) |  | void
-- file: include/pdaaal/PDA.h
-- id: 25
do		do(`pdaaal::PDA::add_rule`, self, param(#0)._from, param(#0)._to, param(#0)._op, param(#0)._op_label, param(#0)._pre)	true
== PDA::add_wildcard_rule | PDA<std::string, W0, fut::hash, std::string, false> | (const PDA<std::string, W0, fut::hash, std::string, false>::rule_t_<W0, void> &) |  | void
-- file: include/pdaaal/PDA.h
-- id: 26
do		do(`pdaaal::internal::PDA::add_untyped_rule`, self, param(#0)._from, param(#0)._to, param(#0)._op, call(`pdaaal::PDA::find_labelid`, self, param(#0)._op, param(#0)._op_label), true, new(`std::vector`))	true
== PDA::add_rule | PDA<std::string, W0, fut::hash, std::string, false> | (int &&, int &&, op_t &&, std::string &, bool &&, std::vector<std::string> &&) | <int, int, op_t, std::string &, bool, std::vector<std::string>> | void
-- file: include/pdaaal/PDA.h
-- id: 27
do		do(`pdaaal::PDA::add_rule_`, self, param(#0), param(#1), param(#2), param(#3), true, param(#5))	param(#4)
do		do(`pdaaal::PDA::add_rule_`, self, param(#0), param(#1), param(#2), param(#3), false, param(#5))	!param(#4)
== PDA::add_rule | PDA<std::string, W0, fut::hash, std::string, false> | (int &&, int &&, op_t &&, std::string &, std::string &) | <int, int, op_t, std::string &, std::string &> | void
-- file: include/pdaaal/PDA.h
-- id: 28
do		do(`pdaaal::PDA::add_rule_`, self, param(#0), param(#1), param(#2), param(#3), param(#4))	true
== PDA::add_rule | PDA<std::string, W0, fut::hash, std::string, false> | (const u64 &, const u64 &, const op_t &, const std::string &, const std::string &) | <const u64 &, const u64 &, const op_t &, const std::string &, const std::string &> | void
-- file: include/pdaaal/PDA.h
-- same: 28
== PDA::add_rule | PDA<std::string, W0, fut::hash, std::string, false> | (u64 &, u64 &, op_t &, std::string &, bool &&, std::vector<std::string> &) | <u64 &, u64 &, op_t &, std::string &, bool, std::vector<std::string> &> | void
-- file: include/pdaaal/PDA.h
-- same: 27
== PDA::encode_pre | PDA<std::string, W0, fut::hash, std::string, false> | (const std::vector<std::string> &) const |  | std::vector<u32>
-- file: include/pdaaal/PDA.h
-- same: 9
== PDA::exists_label | PDA<std::string, W0, fut::hash, std::string, false> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PDA.h
-- same: 16
== PDA::exists_state | PDA<std::string, W0, fut::hash, std::string, false> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PDA.h
-- id: 29
ret	call(`pdaaal::utils::ptrie_set::exists`, self._state_map, param(#0))	true
== PDA::insert_label | PDA<std::string, W0, fut::hash, std::string, false> | (const std::string &) |  | u32
-- file: include/pdaaal/PDA.h
-- same: 18
== PDA::insert_state | PDA<std::string, W0, fut::hash, std::string, false> | (const std::string &) |  | u64
-- file: include/pdaaal/PDA.h
-- id: 30
let	$1	self._state_map
let	$2	fresh(`pdaaal::utils::ptrie_set::insert`, $1, param(#0))
do		do(`pdaaal::utils::ptrie_set::insert`, $1, param(#0))	true
do		do(`pdaaal::internal::PDA::add_state`, self, $2)	true
ret	$2	true
== PDA::all_rules | PDA<std::string, W0, fut::hash, std::string, false> | () const |  | std::vector<PDA<std::string, W0, fut::hash, std::string, false>::rule_t_<W0, void>>
-- file: include/pdaaal/PDA.h
-- id: 31
let	$1	foreach(self._states)
let	$2	self._states@0._rules
let	$3	range(0, call(`pdaaal::PDA::number_of_labels`, self))
let	$4	ix(self._states, #0)
let	$5	$2@0.#0._operation
let	$6	call(`pdaaal::PDA::get_symbol`, self, $3@0)
let	$7	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $5)
let	$8	$2@0.#1._wildcard
let	$9	eq($5, enum(`pdaaal::POP`, `pdaaal::op_t`))
let	$10	call(`pdaaal::PDA::get_symbol`, self, $2@0.#0._op_label)
let	$11	$2@0.#1._labels
let	$12	call(`pdaaal::PDA::get_symbol`, self, $11@0)
do	$1 ; foreach($2) ; foreach($3)	do(`push`, L(#0), pdaaal::PDA::rule_t_{_from: $4, _op: $5, _op_label: "", _pre: $6, _to: $2@0.#0._to})	$7 & $8 | $8 & $9
do	$1 ; foreach($2) ; foreach($3)	do(`push`, L(#0), pdaaal::PDA::rule_t_{_from: $4, _op: $5, _op_label: $10, _pre: $6, _to: $2@0.#0._to})	!$7 & !$9 & $8
do	$1 ; foreach($2) ; foreach($11)	do(`push`, L(#0), pdaaal::PDA::rule_t_{_from: $4, _op: $5, _op_label: "", _pre: $12, _to: $2@0.#0._to})	!$8 & $7 | !$8 & $9
do	$1 ; foreach($2) ; foreach($11)	do(`push`, L(#0), pdaaal::PDA::rule_t_{_from: $4, _op: $5, _op_label: $10, _pre: $12, _to: $2@0.#0._to})	!$7 & !$8 & !$9
dom		init(L(#0), new(`std::vector`))	true
ret	L(#0)'	true
== PDA::find_labelid | PDA<std::string, W0, fut::hash, std::string, false> | (op_t, std::string) const |  | u32
-- file: include/pdaaal/PDA.h
-- same: 21
== PDA::add_rule_ | PDA<std::string, W0, fut::hash, std::string, false> | (u64, u64, op_t, std::string, bool, const std::vector<std::string> &) | W0, void | void
-- file: include/pdaaal/PDA.h
-- id: 32
let	$1	pdaaal::internal::pda_rule_t{_op_label: call(`pdaaal::PDA::find_labelid`, self, param(#2), param(#3)), _operation: param(#2), _to: param(#1)}
let	$2	call(`pdaaal::PDA::encode_pre`, self, param(#5))
do		do(`pdaaal::internal::PDA::add_untyped_rule_impl`, self, param(#0), $1, true, $2)	param(#4)
do		do(`pdaaal::internal::PDA::add_untyped_rule_impl`, self, param(#0), $1, false, $2)	!param(#4)
== PDA::add_rule_ | PDA<std::string, W0, fut::hash, std::string, false> | (u64, u64, op_t, std::string, std::string) | W0, void | void
-- file: include/pdaaal/PDA.h
-- id: 33
do		do(`pdaaal::PDA::add_rule`, self, param(#0), param(#1), param(#2), param(#3), false, list(param(#4)))	true
== PDA::PDA | PDA<std::string, W0, fut::vector, std::string, false> | (PDA<std::string, W0, fut::hash, std::string, false> &&) | fut::hash | void
-- file: include/pdaaal/PDA.h
-- id: 34
let	$1	param(#0)._states
do		do(`pdaaal::PDA::move_label_map`, param(#0))	true
do		set(self._states, ctor(`std::vector`, call(`std::make_move_iterator`, begin($1)), call(`std::make_move_iterator`, end($1))))	true
do		set(fld(self, `<base:pdaaal::state_mapping>`), param(#0))	true
do		set(self._label_map, res(`pdaaal::PDA::move_label_map`, param(#0)))	true
== PDA::PDA | PDA<std::string, W0, fut::vector, std::string, false> | (PDA<std::string, W0, fut::vector, std::string, false> &&) | fut::vector | void
-- file: include/pdaaal/PDA.h
-- id: 35
do		do(`pdaaal::PDA::move_label_map`, param(#0))	true
do		set(fld(self, `<base:pdaaal::internal::PDA>`), param(#0))	true
do		set(fld(self, `<base:pdaaal::state_mapping>`), param(#0))	true
do		set(self._label_map, res(`pdaaal::PDA::move_label_map`, param(#0)))	true
== PDA::move_label_map | PDA<std::string, W0, fut::vector, std::string, false> | () |  | utils::ptrie_set<std::string>
-- file: include/pdaaal/PDA.h
-- same: 6
== PDA::number_of_labels | PDA<std::string, W0, fut::vector, std::string, false> | () const |  | u64
-- file: include/pdaaal/PDA.h
-- same: 7
== PDA::get_symbol | PDA<std::string, W0, fut::vector, std::string, false> | (u64) const |  | std::string
-- file: include/pdaaal/PDA.h
-- same: 8
== PDA::to_json | PDA<std::string, W0, fut::vector, std::string, false> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PDA.h
-- same: 10
== PDA::number_of_labels | PDA<char, weight<std::array<u32, 3>, void>, fut::vector, u64, true> | () const |  | u64
-- file: include/pdaaal/PDA.h
-- same: 7
== PDA::number_of_labels | PDA<char, weight<std::vector<int>, void>, fut::vector, u64, true> | () const |  | u64
-- file: include/pdaaal/PDA.h
-- same: 7
== PDA::PDA | PDA<char, W0, fut::hash, u64, true> | (const std::unordered_set<char, std::hash<char>, std::equal_to<char>> &) |  | void
-- file: include/pdaaal/PDA.h
-- same: 5
== PDA::move_label_map | PDA<char, W0, fut::hash, u64, true> | () |  | utils::ptrie_set<char>
-- file: include/pdaaal/PDA.h
-- same: 6
== PDA::number_of_labels | PDA<char, W0, fut::hash, u64, true> | () const |  | u64
-- file: include/pdaaal/PDA.h
-- same: 7
== PDA::add_rule | PDA<char, W0, fut::hash, u64, true> | (const PDA<char, W0, fut::hash, u64, true>::rule_t_<W0, void> &) |  | void
-- file: include/pdaaal/PDA.h
-- same: 25
== PDA::add_wildcard_rule | PDA<char, W0, fut::hash, u64, true> | (const PDA<char, W0, fut::hash, u64, true>::rule_t_<W0, void> &) |  | void
-- file: include/pdaaal/PDA.h
-- same: 26
== PDA::add_rule | PDA<char, W0, fut::hash, u64, true> | (const u64 &, const u64 &, const op_t &, const char &, const char &) | <const u64 &, const u64 &, const op_t &, const char &, const char &> | void
-- file: include/pdaaal/PDA.h
-- same: 28
== PDA::add_rule | PDA<char, W0, fut::hash, u64, true> | (u64 &, u64 &, op_t &, char &, bool &&, std::vector<char> &) | <u64 &, u64 &, op_t &, char &, bool, std::vector<char> &> | void
-- file: include/pdaaal/PDA.h
-- same: 27
== PDA::encode_pre | PDA<char, W0, fut::hash, u64, true> | (const std::vector<char> &) const |  | std::vector<u32>
-- file: include/pdaaal/PDA.h
-- same: 9
== PDA::find_labelid | PDA<char, W0, fut::hash, u64, true> | (op_t, char) const |  | u32
-- file: include/pdaaal/PDA.h
-- same: 21
== PDA::add_rule_ | PDA<char, W0, fut::hash, u64, true> | (u64, u64, op_t, char, bool, const std::vector<char> &) | W0, void | void
-- file: include/pdaaal/PDA.h
-- same: 32
== PDA::add_rule_ | PDA<char, W0, fut::hash, u64, true> | (u64, u64, op_t, char, char) | W0, void | void
-- file: include/pdaaal/PDA.h
-- same: 33
== details::label_to_string |  | (const char &) | char | std::string
-- file: include/pdaaal/PDA.h
-- id: 36
do		out(`<<`, L(#0), param(#0))	true
dom		init(L(#0), new(`std::basic_stringstream`))	true
ret	str_of(L(#0)')	true
== details::label_to_string |  | (const std::string &) | std::string | std::string
-- file: include/pdaaal/PDA.h
-- id: 37
ret	param(#0)	true
== details::pda_rule_to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const std::string &, const i::pda_rule_t<Wu, void> &, const PDA<char, Wu, fut::vector, u64, true> &) | char, Wu, fut::vector, u64, true | void
-- file: include/pdaaal/PDA.h
-- id: 38
let	$1	call(`pdaaal::PDA::get_symbol`, param(#4), param(#3)._op_label)
let	$2	param(#3)._operation
let	$3	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $2)
let	$4	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $2)
let	$5	param(#0)[param(#2)]
let	$6	contains(param(#0), param(#2))
let	$7	call(`nlohmann::basic_json::is_array`, $5)
let	$8	param(#1)["swap"]
let	$9	new(`std::basic_stringstream`)
do		out(`<<`, L(#0), $1)	$3
do		out(`<<`, L(#1), $1)	$4
do		do(`push`, $5, $5)	!$7 & $6
do		do(`push`, $5, param(#1))	$6
do		set(param(#1)["pop"], ctor(`nlohmann::basic_json`, ""))	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $2)
do		set($8, ctor(`nlohmann::basic_json`, param(#2)))	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $2)
do		set($8, ctor(`nlohmann::basic_json`, str_of(L(#0)')))	$3
do		set(param(#1)["push"], ctor(`nlohmann::basic_json`, str_of(L(#1)')))	$4
do		set(param(#1)["weight"], ctor(`nlohmann::basic_json`, param(#3)._weight))	true
do		set($5, param(#1))	!$6
do		set($5, call(`nlohmann::basic_json::array`, new(`std::initializer_list`)))	!$7 & $6
dom		init(L(#0), $9)	true
dom		init(L(#1), $9)	true
== details::pda_rule_to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const std::string &, const i::pda_rule_t<W0, void> &, const PDA<std::string, W0, fut::vector, std::string, false> &) | std::string, W0, fut::vector, std::string, false | void
-- file: include/pdaaal/PDA.h
-- id: 39
let	$1	param(#0)[param(#2)]
let	$2	contains(param(#0), param(#2))
let	$3	call(`nlohmann::basic_json::is_array`, $1)
let	$4	param(#3)._operation
let	$5	param(#1)["swap"]
let	$6	ctor(`nlohmann::basic_json`, call(`pdaaal::PDA::get_symbol`, param(#4), param(#3)._op_label))
do		do(`push`, $1, $1)	!$3 & $2
do		do(`push`, $1, param(#1))	$2
do		set(param(#1)["pop"], ctor(`nlohmann::basic_json`, ""))	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $4)
do		set($5, ctor(`nlohmann::basic_json`, param(#2)))	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $4)
do		set($5, $6)	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $4)
do		set(param(#1)["push"], $6)	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $4)
do		set($1, param(#1))	!$2
do		set($1, call(`nlohmann::basic_json::array`, new(`std::initializer_list`)))	!$3 & $2
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<char, Wu, fut::vector, u64, true> &) | char, Wu, fut::vector | void
-- file: include/pdaaal/PDA.h
-- id: 40
let	$1	new(`std::initializer_list`)
let	$2	call(`nlohmann::basic_json::object`, $1)
let	$3	param(#1)._states
let	$4	foreach($3@0._rules)
let	$5	$3@0._rules@0.#0
let	$6	call(`pdaaal::PDA::get_symbol`, param(#1), $5._op_label)
let	$7	$3@0._rules@0.#1
let	$8	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $5._operation)
let	$9	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $5._operation)
let	$10	contains(L(#3)', "*")
let	$11	call(`nlohmann::basic_json::is_array`, L(#3)["*"]')
let	$12	ctor(`nlohmann::basic_json`, $5._to)
let	$13	ctor(`nlohmann::basic_json`, "")
let	$14	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $5._operation)
let	$15	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $5._operation)
let	$16	ctor(`nlohmann::basic_json`, $5._weight)
let	$17	call(`nlohmann::basic_json::array`, $1)
let	$18	foreach($7._labels)
let	$19	L(#3)[str_of(L(#2)')]
let	$20	call(`nlohmann::basic_json::is_array`, $19')
let	$21	contains(L(#3)', str_of(L(#2)'))
let	$22	new(`std::basic_stringstream`)
do		set(param(#0), $2)	true
do	foreach($3) ; $4	out(`<<`, L(#8), $6)	$7._wildcard & $8
do	foreach($3) ; $4	out(`<<`, L(#1), $6)	$7._wildcard & $9
do	foreach($3) ; $4	do(`push`, L(#3)["*"], L(#3)["*"]')	!$11 & $10 & $7._wildcard
do	foreach($3) ; $4	do(`push`, L(#3)["*"], L(#4)'')	$10 & $7._wildcard
do	foreach($3) ; $4	set(L(#4)["to"], $12)	$7._wildcard
do	foreach($3) ; $4	set(L(#4)["pop"], $13)	$14 & $7._wildcard
do	foreach($3) ; $4	set(L(#4)["swap"], ctor(`nlohmann::basic_json`, "*"))	$15 & $7._wildcard
do	foreach($3) ; $4	set(L(#4)["swap"], ctor(`nlohmann::basic_json`, str_of(L(#8)')))	$7._wildcard & $8
do	foreach($3) ; $4	set(L(#4)["push"], ctor(`nlohmann::basic_json`, str_of(L(#1)')))	$7._wildcard & $9
do	foreach($3) ; $4	set(L(#4)["weight"], $16)	$7._wildcard
do	foreach($3) ; $4	set(L(#3)["*"], L(#4)'')	!$10 & $7._wildcard
do	foreach($3) ; $4	set(L(#3)["*"], $17)	!$11 & $10 & $7._wildcard
do	foreach($3) ; $4 ; $18	out(`<<`, L(#2), call(`pdaaal::PDA::get_symbol`, param(#1), $7._labels@0))	!$7._wildcard
do	foreach($3) ; $4 ; $18	out(`<<`, L(#5), $6)	!$7._wildcard & $8
do	foreach($3) ; $4 ; $18	out(`<<`, L(#7), $6)	!$7._wildcard & $9
do	foreach($3) ; $4 ; $18	do(`push`, $19, $19')	!$20 & !$7._wildcard & $21
do	foreach($3) ; $4 ; $18	do(`push`, $19, L(#6)'')	!$7._wildcard & $21
do	foreach($3) ; $4 ; $18	set(L(#6)["to"], $12)	!$7._wildcard
do	foreach($3) ; $4 ; $18	set(L(#6)["pop"], $13)	!$7._wildcard & $14
do	foreach($3) ; $4 ; $18	set(L(#6)["swap"], ctor(`nlohmann::basic_json`, str_of(L(#2)')))	!$7._wildcard & $15
do	foreach($3) ; $4 ; $18	set(L(#6)["swap"], ctor(`nlohmann::basic_json`, str_of(L(#5)')))	!$7._wildcard & $8
do	foreach($3) ; $4 ; $18	set(L(#6)["push"], ctor(`nlohmann::basic_json`, str_of(L(#7)')))	!$7._wildcard & $9
do	foreach($3) ; $4 ; $18	set(L(#6)["weight"], $16)	!$7._wildcard
do	foreach($3) ; $4 ; $18	set($19, L(#6)'')	!$21 & !$7._wildcard
do	foreach($3) ; $4 ; $18	set($19, $17)	!$20 & !$7._wildcard & $21
do	foreach($3)	do(`push`, L(#0), L(#3)')	true
do		set(param(#0)["states"], L(#0)')	true
dom		init(L(#0), $17)	true
dom	foreach($3)	init(L(#3), $2)	true
dom	foreach($3) ; $4	init(L(#4), $2)	true
dom	foreach($3) ; $4	init(L(#8), $22)	true
dom	foreach($3) ; $4	init(L(#1), $22)	true
dom	foreach($3) ; $4 ; $18	init(L(#6), $2)	true
dom	foreach($3) ; $4 ; $18	init(L(#2), $22)	true
dom	foreach($3) ; $4 ; $18	init(L(#5), $22)	true
dom	foreach($3) ; $4 ; $18	init(L(#7), $22)	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, W0, fut::vector, std::string, false> &) | std::string, W0, fut::vector, std::string | void
-- file: include/pdaaal/PDA.h
-- id: 41
let	$1	new(`std::initializer_list`)
let	$2	call(`nlohmann::basic_json::object`, $1)
let	$3	param(#1)._states
let	$4	foreach($3@0._rules)
let	$5	$3@0._rules@0.#0
let	$6	$3@0._rules@0.#1
let	$7	call(`nlohmann::basic_json::is_array`, L(#6)["*"]')
let	$8	contains(L(#6)', "*")
let	$9	ctor(`nlohmann::basic_json`, str_of(L(#3)'))
let	$10	ctor(`nlohmann::basic_json`, "")
let	$11	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $5._operation)
let	$12	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $5._operation)
let	$13	ctor(`nlohmann::basic_json`, call(`pdaaal::PDA::get_symbol`, param(#1), $5._op_label))
let	$14	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $5._operation)
let	$15	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $5._operation)
let	$16	call(`nlohmann::basic_json::array`, $1)
let	$17	foreach($6._labels)
let	$18	call(`pdaaal::PDA::get_symbol`, param(#1), $6._labels@0)
let	$19	contains(L(#6)', $18)
let	$20	call(`nlohmann::basic_json::is_array`, L(#6)[$18]')
let	$21	range(size($3), call(`pdaaal::state_mapping::state_map_size`, param(#1)))
let	$22	new(`std::basic_stringstream`)
do		set(param(#0), $2)	true
do	foreach($3) ; $4	out(`<<`, L(#3), call(`pdaaal::state_mapping::get_state`, param(#1), $5._to))	true
do	foreach($3) ; $4	do(`push`, L(#6)["*"], L(#6)["*"]')	!$7 & $6._wildcard & $8
do	foreach($3) ; $4	do(`push`, L(#6)["*"], L(#2)'')	$6._wildcard & $8
do	foreach($3) ; $4	set(L(#2)["to"], $9)	$6._wildcard
do	foreach($3) ; $4	set(L(#2)["pop"], $10)	$11 & $6._wildcard
do	foreach($3) ; $4	set(L(#2)["swap"], ctor(`nlohmann::basic_json`, "*"))	$12 & $6._wildcard
do	foreach($3) ; $4	set(L(#2)["swap"], $13)	$14 & $6._wildcard
do	foreach($3) ; $4	set(L(#2)["push"], $13)	$15 & $6._wildcard
do	foreach($3) ; $4	set(L(#6)["*"], L(#2)'')	!$8 & $6._wildcard
do	foreach($3) ; $4	set(L(#6)["*"], $16)	!$7 & $6._wildcard & $8
do	foreach($3) ; $4 ; $17	do(`push`, L(#6)[$18], L(#6)[$18]')	!$20 & !$6._wildcard & $19
do	foreach($3) ; $4 ; $17	do(`push`, L(#6)[$18], L(#0)'')	!$6._wildcard & $19
do	foreach($3) ; $4 ; $17	set(L(#0)["to"], $9)	!$6._wildcard
do	foreach($3) ; $4 ; $17	set(L(#0)["pop"], $10)	!$6._wildcard & $11
do	foreach($3) ; $4 ; $17	set(L(#0)["swap"], ctor(`nlohmann::basic_json`, $18))	!$6._wildcard & $12
do	foreach($3) ; $4 ; $17	set(L(#0)["swap"], $13)	!$6._wildcard & $14
do	foreach($3) ; $4 ; $17	set(L(#0)["push"], $13)	!$6._wildcard & $15
do	foreach($3) ; $4 ; $17	set(L(#6)[$18], L(#0)'')	!$19 & !$6._wildcard
do	foreach($3) ; $4 ; $17	set(L(#6)[$18], $16)	!$20 & !$6._wildcard & $19
do	foreach($3)	out(`<<`, L(#1), call(`pdaaal::state_mapping::get_state`, param(#1), ix($3, #0)))	true
do	foreach($3)	set(L(#5)[str_of(L(#1)')], L(#6)')	true
do	foreach($21)	out(`<<`, L(#4), call(`pdaaal::state_mapping::get_state`, param(#1), $21@0))	true
do	foreach($21)	set(L(#5)[str_of(L(#4)')], $2)	true
do		set(param(#0)["states"], L(#5)'')	true
dom		init(L(#5), $2)	true
dom	foreach($3)	init(L(#6), $2)	true
dom	foreach($3) ; $4	init(L(#3), $22)	true
dom	foreach($3) ; $4	init(L(#2), $2)	true
dom	foreach($3) ; $4 ; $17	init(L(#0), $2)	true
dom	foreach($3)	init(L(#1), $22)	true
dom	foreach($21)	init(L(#4), $22)	true
== details::params_state_names |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<char, Wu, fut::vector, u64, true> &) | char, Wu | void
-- file: include/pdaaal/PDA.h
-- id: 42
do		set(param(#0)["state-names"], ctor(`nlohmann::basic_json`, false))	true
== details::params_state_names |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, W0, fut::vector, std::string, false> &) | std::string, W0, std::string | void
-- file: include/pdaaal/PDA.h
-- id: 43
do		set(param(#0)["state-names"], ctor(`nlohmann::basic_json`, true))	true
== details::params_weight_type |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<char, W0, fut::vector, u64, true> &) | char, u64, true | void
-- file: include/pdaaal/PDA.h
-- id: 44
do		set(param(#0)["weight-type"], ctor(`nlohmann::basic_json`, "none"))	true
== details::params_weight_type |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<char, weight<std::array<u32, 3>, void>, fut::vector, u64, true> &) | u32, 3UL, char, u64, true | void
-- file: include/pdaaal/PDA.h
-- id: 45
let	$1	param(#0)["weight-type"]
do		do(`push`, $1, "uint")	true
do		do(`push`, $1, 3)	true
do		set($1, call(`nlohmann::basic_json::array`, new(`std::initializer_list`)))	true
== details::params_weight_type |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<char, weight<std::vector<int>, void>, fut::vector, u64, true> &) | int, char, u64, true | void
-- file: include/pdaaal/PDA.h
-- id: 46
let	$1	param(#0)["weight-type"]
do		do(`push`, $1, "int")	true
do		set($1, call(`nlohmann::basic_json::array`, new(`std::initializer_list`)))	true
== details::params_weight_type |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<char, Wi, fut::vector, u64, true> &) | char, Wi, u64, true | void
-- file: include/pdaaal/PDA.h
-- id: 47
do		set(param(#0)["weight-type"], ctor(`nlohmann::basic_json`, "int"))	true
== details::params_weight_type |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<char, Wu, fut::vector, u64, true> &) | char, Wu, u64, true | void
-- file: include/pdaaal/PDA.h
-- id: 48
do		set(param(#0)["weight-type"], ctor(`nlohmann::basic_json`, "uint"))	true
== i::edge_annotation::get_trace_info | i::edge_annotation<Wi, TI::Pair> | (std::pair<std::pair<i::trace_t, i::trace_t>, int>) |  | std::pair<i::trace_t, i::trace_t>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 49
ret	param(#0).#0	true
== i::PAutomaton::PAutomaton | i::PAutomaton<W0, TI::Single> | (i::PAutomaton<W0, TI::Single> &&, const i::PDA<W0, fut::vector> &) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 50
do		set(self._states, param(#0)._states)	true
do		set(self._initial, param(#0)._initial)	true
do		set(self._accepting, param(#0)._accepting)	true
do		set(self._pda, addrof(param(#1)))	true
== i::PAutomaton::to_dot | i::PAutomaton<W0, TI::Single> | (std::basic_ostream<char, std::char_traits<char>> &, const std::function<void (std::basic_ostream<char, std::char_traits<char>> &, const u32 &)> &, const std::function<void (std::basic_ostream<char, std::char_traits<char>> &, const u64 &)> &) const | TT::None | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 51
let	$1	foreach(self._states)
let	$2	out(`<<`, param(#0), "\"")
let	$3	self._states@0^
let	$4	invoke(param(#2), param(#0), $3._id)
let	$5	foreach($3._edges)
let	$6	out(`<<`, param(#0), "\" -> \"")
let	$7	contains($3._edges@0.#1, 4294967295)
let	$8	size($3._edges@0.#1)
let	$9	call(`pdaaal::internal::PDA::number_of_labels`, self._pda)
let	$10	eq($8, lin(#1, $9))
let	$11	empty($3._edges@0.#1)
let	$12	foreach($3._edges@0.#1)
let	$13	$3._edges@0.#1@0.#0
let	$14	eq(4294967295, $13)
let	$15	foreach(self._initial)
do		out(`<<`, param(#0), "digraph NFA {\n")	true
do	$1	$2	true
do	$1	$4	true
do	$1	out(`<<`, param(#0), "\" [shape=")	true
do	$1	out(`<<`, param(#0), "double")	$3._accepting
do	$1	out(`<<`, param(#0), "circle];\n")	true
do	$1 ; $5	$2	true
do	$1 ; $5	$4	true
do	$1 ; $5	$6	true
do	$1 ; $5	invoke(param(#2), param(#0), $3._edges@0.#0)	true
do	$1 ; $5	out(`<<`, param(#0), "\" [ label=\"")	true
do	$1 ; $5	out(`<<`, param(#0), "*")	!$7 & eq($8, $9) | $10 & $7
do	$1 ; $5	out(`<<`, param(#0), "\\[")	!$10 & !eq($8, 1) & $7 | !$11 & !$7 & !eq($8, $9)
do	$1 ; $5 ; $12	out(`<<`, param(#0), ", ")	!$10 & !$14 & !eq($8, 1) & !phi(#2, true, #0) & $7 | !$14 & !$7 & !eq($8, $9) & !phi(#2, true, #0)
do	$1 ; $5 ; $12	invoke(param(#1), param(#0), $13)	!$10 & !$14 & !eq($8, 1) & $7 | !$14 & !$7 & !eq($8, $9)
do	$1 ; $5	out(`<<`, param(#0), "\\]")	!$10 & !eq($8, 1) & $7 | !$11 & !$7 & !eq($8, $9)
do	$1 ; $5	out(`<<`, param(#0), " ")	$7 & lt(1, $8)
do	$1 ; $5	out(`<<`, param(#0), "𝜀")	$7
do	$1 ; $5	out(`<<`, param(#0), "\"];\n")	true
dom	$15	out(`<<`, param(#0), "\"I")	true
dom	$15	invoke(param(#2), param(#0), self._initial@0^._id)	true
do	$15	$6	true
do	$15	out(`<<`, param(#0), "\";\n")	true
do	$15	out(`<<`, param(#0), "\" [style=invisible];\n")	true
do		out(`<<`, param(#0), "}\n")	true
== i::PAutomaton::find_path | i::PAutomaton<W0, TI::Single> | (lambda &&) const | lambda | AutomatonPath<true>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 52
let	$1	self._pda._states
let	$2	self._states[ix($1, #0)]^._accepting
let	$3	back(L(#1)).#1'
let	$4	back(L(#1)).#0'
let	$5	self._states[$4]^._edges
let	$6	contains(L(#2)', $5@0.#0)
let	$7	self._states[$5@0.#0]^._accepting
let	$8	range(rbegin(L(#0)), rend(L(#0)))
let	$9	exists($5, {!$6 & !empty($5@0.#1) & $7})
let	$10	new(`std::vector`)
let	$11	exists(loop(#0), true)
let	$12	18446744073709551615
do	foreach($1)	do(`push`, L(#1), tuple{#0: ix($1, #0), #1: 0, #2: 4294967295})	!$2
do	foreach($1)	exit	$2
do	loop(#0)	do(`pop`, L(#1))	!empty(L(#1)') & !exists($1, $2)
do	loop(#0)	do(`resize`, L(#3), lin(#2, $3))	!empty(L(#1)') & !exists($1, $2)
do	loop(#0)	do(`resize`, L(#0), lin(#1, $3))	!empty(L(#1)') & !exists($1, $2)
do	loop(#0)	set(L(#3)[$3], call(`pdaaal::PAutomatonProduct::get_original`, param(#0), $4))	!empty(L(#1)') & !exists($1, $2)
do	loop(#0)	set(L(#0)[lin(#-1, $3)], back(L(#1)).#2')	!empty(L(#1)') & !eq($3, 0) & !exists($1, $2)
do	loop(#0) ; foreach($5)	do(`insert`, L(#2), $5@0.#0)	!empty($5@0.#1) & !empty(L(#1)') & !exists($1, $2)
do	loop(#0) ; foreach($5)	set(L(#3)[lin(#1, $3)], call(`pdaaal::PAutomatonProduct::get_original`, param(#0), $5@0.#0))	!$6 & !empty($5@0.#1) & !empty(L(#1)') & !exists($1, $2) & $7
do	loop(#0) ; foreach($5)	set(L(#0)[$3], $5@0.#1[0].#0)	!$6 & !empty($5@0.#1) & !empty(L(#1)') & !exists($1, $2) & $7
do	loop(#0) ; foreach($5) ; foreach($8)	do(`push`, L(#4), tuple{#0: $8@0^, #1: lin(#1, ix($8, #0), rbegin(L(#3)))^})	!$6 & !empty($5@0.#1) & !empty(L(#1)') & !exists($1, $2) & $7
do	loop(#0) ; foreach($5)	do(`push`, L(#1), tuple{#0: $5@0.#0, #1: lin(#1, $3), #2: $5@0.#1[0].#0})	!$6 & !$7 & !empty($5@0.#1) & !empty(L(#1)') & !exists($1, $2)
do	loop(#0) ; foreach($5)	exit	!$6 & !empty($5@0.#1) & !empty(L(#1)') & !exists($1, $2) & $7
do	loop(#0)	exit	!exists($1, $2) & $9 | !exists($1, $2) & empty(L(#1)')
dom		init(L(#1), $10)	true
dom		init(L(#0), $10)	true
dom		init(L(#3), $10)	true
dom		init(L(#2), new(`std::unordered_set`))	true
dom	loop(#0) ; foreach($5)	init(L(#4), $10)	true
ret	firstval($1, $2, pdaaal::AutomatonPath{_edges: $10, _end: call(`pdaaal::PAutomatonProduct::get_original`, param(#0), ix($1, #0))})	exists($1, $2)
ret	pdaaal::AutomatonPath{_edges: L(#4)', _end: back(L(#3))''}	!empty(L(#1)') & !exists($1, $2) & $11 & $9
ret	pdaaal::AutomatonPath{_edges: $10, _end: tuple{#0: $12, #1: $12}}	!$11 & !exists($1, $2) | !$9 & !exists($1, $2) | !exists($1, $2) & empty(L(#1)')
== i::PAutomaton::has_accepting_state | i::PAutomaton<W0, TI::Single> | () const |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 53
ret	{!empty(self._accepting)}	true
== i::PAutomaton::add_epsilon_edge | i::PAutomaton<W0, TI::Single> | (u64, u64, i::trace_t) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 54
do		do(`insert`, self._states[param(#0)]^._edges, param(#1), 4294967295, param(#2))	true
== i::PAutomaton::construct | i::PAutomaton<W0, TI::Single> | (const NFA<char> &, const std::vector<u64> &, const std::function<std::vector<u32> (const NFA<char>::edge_t &)> &, const std::function<void (const NFA<char>::state_t *, u64)> &) | char, true, false | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 55
let	$1	param(#0)._initial
let	$2	foreach($1@0^._edges)
let	$3	call(`pdaaal::NFA::edge_t::follow_epsilon`, $1@0^._edges@0)
let	$4	do(`pdaaal::internal::PAutomaton::add_state`, self, false, true)
let	$5	contains(L(#1), $3@0)
let	$6	$3@0^._accepting
let	$7	do(`pdaaal::internal::PAutomaton::add_state`, self, false, false)
let	$8	res(`pdaaal::internal::PAutomaton::add_state`, self, false, true)
let	$9	res(`pdaaal::internal::PAutomaton::add_state`, self, false, false)
let	$10	res_invoke(param(#2), $1@0^._edges@0)
let	$11	$1@0^._edges@0._negated
let	$12	back(L(#0)).#0'^._edges
let	$13	call(`pdaaal::NFA::edge_t::follow_epsilon`, $12@0')
let	$14	$13@0^._accepting
let	$15	contains(L(#1), $13@0)
let	$16	res(`pdaaal::internal::PAutomaton::add_state`, self, false, true, #1)
let	$17	res(`pdaaal::internal::PAutomaton::add_state`, self, false, false, #1)
let	$18	back(L(#0)).#1'
let	$19	res_invoke(param(#2), $12@0'')
let	$20	$12@0._negated''
do	foreach($1) ; $2 ; foreach($3)	$4	!$5 & $6
do	foreach($1) ; $2 ; foreach($3)	$7	!$5 & !$6
do	foreach($1) ; $2 ; foreach($3)	do(`insert`, L(#1), $3@0, $8)	!$5 & $6
do	foreach($1) ; $2 ; foreach($3)	do(`insert`, L(#1), $3@0, $9)	!$5 & !$6
do	foreach($1) ; $2 ; foreach($3)	do(`push`, L(#0), tuple{#0: $3@0, #1: $8})	!$5 & $6
do	foreach($1) ; $2 ; foreach($3)	do(`push`, L(#0), tuple{#0: $3@0, #1: $9})	!$5 & !$6
do	foreach($1) ; $2 ; foreach($3)	invoke(param(#2), $1@0^._edges@0)	true
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), $8, true, $10)	!$5 & $11 & $6
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), $8, false, $10)	!$11 & !$5 & $6
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), $9, true, $10)	!$5 & !$6 & $11
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), $9, false, $10)	!$11 & !$5 & !$6
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), L(#1)[$3@0]', true, $10)	$11 & $5
do	foreach($1) ; $2 ; foreach($3)	do(`pdaaal::internal::PAutomaton::add_edges`, self, param(#1), L(#1)[$3@0]', false, $10)	!$11 & $5
do	loop(#0)	do(`pop`, L(#0))	!empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	$4	!$15 & !empty(L(#0)') & $14
do	loop(#0) ; foreach($12) ; foreach($13)	$7	!$14 & !$15 & !empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	do(`insert`, L(#1), $13@0, $16)	!$15 & !empty(L(#0)') & $14
do	loop(#0) ; foreach($12) ; foreach($13)	do(`insert`, L(#1), $13@0, $17)	!$14 & !$15 & !empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	do(`push`, L(#0), tuple{#0: $13@0, #1: $16})	!$15 & !empty(L(#0)') & $14
do	loop(#0) ; foreach($12) ; foreach($13)	do(`push`, L(#0), tuple{#0: $13@0, #1: $17})	!$14 & !$15 & !empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	invoke(param(#2), $12@0'')	!empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, $16, true, $19)	!$15 & !empty(L(#0)') & $14 & $20
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, $16, false, $19)	!$15 & !$20 & !empty(L(#0)') & $14
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, $17, true, $19)	!$14 & !$15 & !empty(L(#0)') & $20
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, $17, false, $19)	!$14 & !$15 & !$20 & !empty(L(#0)')
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, L(#1)[$13@0]', true, $19)	!empty(L(#0)') & $15 & $20
do	loop(#0) ; foreach($12) ; foreach($13)	do(`pdaaal::internal::PAutomaton::add_edges`, self, $18, L(#1)[$13@0]', false, $19)	!$20 & !empty(L(#0)') & $15
do	loop(#0)	exit	empty(L(#0)')
dom		init(L(#1), new(`std::unordered_map`))	true
dom		init(L(#0), new(`std::vector`))	true
== i::PAutomaton::PAutomaton | i::PAutomaton<Wu, TI::Single> | (i::PAutomaton<Wu, TI::Single> &&, const i::PDA<Wu, fut::vector> &) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 50
== i::PAutomaton::to_dot | i::PAutomaton<Wu, TI::Single> | (std::basic_ostream<char, std::char_traits<char>> &, const std::function<void (std::basic_ostream<char, std::char_traits<char>> &, const u32 &)> &, const std::function<void (std::basic_ostream<char, std::char_traits<char>> &, const u64 &)> &) const | TT::None | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 56
let	$1	foreach(self._states)
let	$2	out(`<<`, param(#0), "\"")
let	$3	self._states@0^
let	$4	invoke(param(#2), param(#0)', $3._id)
let	$5	foreach($3._edges)
let	$6	out(`<<`, param(#0), "\" -> \"")
let	$7	empty($3._edges@0.#1)
let	$8	contains($3._edges@0.#1, 4294967295)
let	$9	size($3._edges@0.#1)
let	$10	foreach($3._edges@0.#1)
let	$11	$3._edges@0.#1@0
let	$12	eq(4294967295, $11.#0)
let	$13	eq(4294967295, $11.#1.#1)
let	$14	out(`<<`, param(#0), "(")
let	$15	out(`<<`, param(#0), ")")
let	$16	foreach(self._initial)
do		out(`<<`, param(#0), "digraph NFA {\n")	true
do	$1	$2	true
do	$1	$4	true
do	$1	out(`<<`, param(#0), "\" [shape=")	true
do	$1	out(`<<`, param(#0), "double")	$3._accepting
do	$1	out(`<<`, param(#0), "circle];\n")	true
do	$1 ; $5	$2	true
do	$1 ; $5	$4	true
do	$1 ; $5	$6	true
do	$1 ; $5	invoke(param(#2), param(#0)', $3._edges@0.#0)	true
do	$1 ; $5	out(`<<`, param(#0), "\" [ label=\"")	true
do	$1 ; $5	out(`<<`, param(#0), "\\[")	!$7 & !$8 | !eq($9, 1) & $8
do	$1 ; $5 ; $10	out(`<<`, param(#0), ", ")	!$12 & !$8 & !phi(#2, true, #0) | !$12 & !eq($9, 1) & !phi(#2, true, #0)
do	$1 ; $5 ; $10	invoke(param(#1), param(#0)', $11.#0)	!$12 & !$8 | !$12 & !eq($9, 1)
do	$1 ; $5 ; $10	out(`<<`, param(#0), "(-)")	!$12 & !$8 & $13 | !$12 & !eq($9, 1) & $13
do	$1 ; $5 ; $10	$14	!$12 & !$13 & !$8 | !$12 & !$13 & !eq($9, 1)
do	$1 ; $5 ; $10	do(`operator<<`, param(#0), $11.#1.#1)	!$12 & !$13 & !$8 | !$12 & !$13 & !eq($9, 1)
do	$1 ; $5 ; $10	$15	!$12 & !$13 & !$8 | !$12 & !$13 & !eq($9, 1)
do	$1 ; $5	out(`<<`, param(#0), "\\]")	!$7 & !$8 | !eq($9, 1) & $8
do	$1 ; $5	out(`<<`, param(#0), " ")	$8 & lt(1, $9)
do	$1 ; $5	out(`<<`, param(#0), "𝜀")	$8
do	$1 ; $5	$14	$8
do	$1 ; $5	do(`operator<<`, param(#0), $3._edges@0.#1[4294967295].#1)	$8
do	$1 ; $5	$15	$8
do	$1 ; $5	out(`<<`, param(#0), "\"];\n")	true
dom	$16	out(`<<`, param(#0), "\"I")	true
dom	$16	invoke(param(#2), param(#0)', self._initial@0^._id)	true
do	$16	$6	true
do	$16	out(`<<`, param(#0), "\";\n")	true
do	$16	out(`<<`, param(#0), "\" [style=invisible];\n")	true
do		out(`<<`, param(#0), "}\n")	true
== i::PAutomaton::find_path | i::PAutomaton<Wu, TI::Single> | (lambda &&) const | lambda | AutomatonPath<true>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 57
let	$1	self._pda._states
let	$2	self._states[ix($1, #0)]^._accepting
let	$3	back(L(#1)).#1'
let	$4	back(L(#1)).#0'
let	$5	self._states[$4]^._edges
let	$6	contains(L(#2)', $5@0.#0)
let	$7	self._states[$5@0.#0]^._accepting
let	$8	range(rbegin(L(#0)), rend(L(#0)))
let	$9	exists($5, {!$6 & !empty($5@0.#1) & $7})
let	$10	new(`std::vector`)
let	$11	exists(loop(#0), true)
let	$12	18446744073709551615
do	foreach($1)	do(`push`, L(#1), tuple{#0: ix($1, #0), #1: 0, #2: 4294967295})	!$2
do	foreach($1)	exit	$2
do	loop(#0)	do(`pop`, L(#1))	!empty(L(#1)') & !exists($1, $2)
do	loop(#0)	do(`resize`, L(#3), lin(#2, $3))	!empty(L(#1)') & !exists($1, $2)
do	loop(#0)	do(`resize`, L(#0), lin(#1, $3))	!empty(L(#1)') & !exists($1, $2)
do	loop(#0)	set(L(#3)[$3], call(`pdaaal::PAutomatonProduct::get_original`, param(#0), $4))	!empty(L(#1)') & !exists($1, $2)
do	loop(#0)	set(L(#0)[lin(#-1, $3)], back(L(#1)).#2')	!empty(L(#1)') & !eq($3, 0) & !exists($1, $2)
do	loop(#0) ; foreach($5)	do(`insert`, L(#2), $5@0.#0)	!empty($5@0.#1) & !empty(L(#1)') & !exists($1, $2)
do	loop(#0) ; foreach($5)	set(L(#3)[lin(#1, $3)], call(`pdaaal::PAutomatonProduct::get_original`, param(#0), $5@0.#0))	!$6 & !empty($5@0.#1) & !empty(L(#1)') & !exists($1, $2) & $7
do	loop(#0) ; foreach($5)	set(L(#0)[$3], $5@0.#1[0].#0)	!$6 & !empty($5@0.#1) & !empty(L(#1)') & !exists($1, $2) & $7
do	loop(#0) ; foreach($5) ; foreach($8)	do(`push`, L(#4), tuple{#0: $8@0^, #1: lin(#1, ix($8, #0), rbegin(L(#3)))^})	!$6 & !empty($5@0.#1) & !empty(L(#1)') & !exists($1, $2) & $7
do	loop(#0) ; foreach($5)	do(`push`, L(#1), tuple{#0: $5@0.#0, #1: lin(#1, $3), #2: $5@0.#1[0].#0})	!$6 & !$7 & !empty($5@0.#1) & !empty(L(#1)') & !exists($1, $2)
do	loop(#0) ; foreach($5)	exit	!$6 & !empty($5@0.#1) & !empty(L(#1)') & !exists($1, $2) & $7
do	loop(#0)	exit	!exists($1, $2) & $9 | !exists($1, $2) & empty(L(#1)')
dom		init(L(#1), $10)	true
dom		init(L(#2), new(`std::unordered_set`))	true
dom		init(L(#3), $10)	true
dom		init(L(#0), $10)	true
dom	loop(#0) ; foreach($5)	init(L(#4), $10)	true
ret	firstval($1, $2, pdaaal::AutomatonPath{_edges: $10, _end: call(`pdaaal::PAutomatonProduct::get_original`, param(#0), ix($1, #0))})	exists($1, $2)
ret	pdaaal::AutomatonPath{_edges: L(#4)', _end: back(L(#3))''}	!empty(L(#1)') & !exists($1, $2) & $11 & $9
ret	pdaaal::AutomatonPath{_edges: $10, _end: tuple{#0: $12, #1: $12}}	!$11 & !exists($1, $2) | !$9 & !exists($1, $2) | !exists($1, $2) & empty(L(#1)')
== i::PAutomaton::has_accepting_state | i::PAutomaton<Wu, TI::Single> | () const |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 53
== i::PAutomaton::min_accepting_weight | i::PAutomaton<Wu, TI::Single> | () const | TT::Shortest | const u32 &
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 58
let	$1	self._accepting
ret	4294967295	empty($1)
ret	call(`std::min_element`, begin($1), end($1), fun(call(`pdaaal::details::weight_impl::less`, lp(#0, #0)^._best_weight, lp(#0, #1)^._best_weight), []))^^._best_weight	!empty($1)
== i::PAutomaton::get_path_shortest | i::PAutomaton<Wu, TI::Single> | (lambda &&) const | false, lambda | std::tuple<AutomatonPath<false>, u32>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 59
let	$1	self._accepting
let	$2	call(`std::min_element`, begin($1), end($1), fun(call(`pdaaal::details::weight_impl::less`, lp(#0, #0)^._best_weight, lp(#0, #1)^._best_weight), []))^
let	$3	phi(#0, $2, #0)^
let	$4	$3._back_edge_state
let	$5	18446744073709551615
let	$6	new(`std::vector`)
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, L(#0), call(`pdaaal::PAutomatonProduct::get_original`, param(#0), self._states[$4]^._id), $3._back_edge_label)	!empty($1) & !eq($4, $5)
do	loop(#0)	exit	!empty($1) & eq($4, $5)
dom		init(L(#0)._edges, $6)	true
ret	tuple{#0: pdaaal::AutomatonPath{_edges: $6, _end: $5}, #1: 4294967295}	empty($1)
ret	tuple{#0: pdaaal::AutomatonPath{_edges: L(#0)._edges', _end: call(`pdaaal::PAutomatonProduct::get_original`, param(#0), $2^._id)}, #1: $2^._best_weight}	!empty($1)
== i::PAutomaton::get_path_shortest | i::PAutomaton<Wu, TI::Single> | (lambda &&) const | true, lambda | std::tuple<AutomatonPath<true>, u32>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 60
let	$1	self._accepting
let	$2	call(`std::min_element`, begin($1), end($1), fun(call(`pdaaal::details::weight_impl::less`, lp(#0, #0)^._best_weight, lp(#0, #1)^._best_weight), []))^
let	$3	phi(#0, $2, #0)^
let	$4	$3._back_edge_state
let	$5	18446744073709551615
let	$6	new(`std::vector`)
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, L(#0), call(`pdaaal::PAutomatonProduct::get_original`, param(#0), self._states[$4]^._id), $3._back_edge_label)	!empty($1) & !eq($4, $5)
do	loop(#0)	exit	!empty($1) & eq($4, $5)
dom		init(L(#0)._edges, $6)	true
ret	tuple{#0: pdaaal::AutomatonPath{_edges: $6, _end: tuple{#0: $5, #1: $5}}, #1: 4294967295}	empty($1)
ret	tuple{#0: pdaaal::AutomatonPath{_edges: L(#0)._edges', _end: call(`pdaaal::PAutomatonProduct::get_original`, param(#0), $2^._id)}, #1: $2^._best_weight}	!empty($1)
== i::PAutomaton::make_back_edge_shortest | i::PAutomaton<Wu, TI::Single> | (u64, u32, u64, const u32 &) |  | std::optional<u32>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 61
let	$1	self._states[param(#2)]^
let	$2	$1._back_edge_state
let	$3	call(`pdaaal::details::weight_impl::add`, self._states[param(#0)]^._best_weight, param(#3))
let	$4	$1._best_weight
let	$5	call(`pdaaal::details::weight_impl::less`, $3, $4)
let	$6	size(self._pda._states)
let	$7	lt(param(#2), $6)
let	$8	call(`pdaaal::details::weight_impl::less`, param(#3), $4)
let	$9	eq(18446744073709551615, $2)
let	$10	lt(param(#0), $6)
do		set($2, param(#0))	!$10 & !$7 & $5 | !$7 & $10 & $8 | !$7 & $9
do		set($1._back_edge_label, param(#1))	!$10 & !$7 & $5 | !$7 & $10 & $8 | !$7 & $9
do		set($4, param(#3))	!$7 & $10 & $8 | !$7 & $10 & $9
do		set($4, $3)	!$10 & !$7 & $5 | !$10 & !$7 & $9
ret	nullopt	!$10 & !$5 & !$9 | !$8 & !$9 & $10 | $7
ret	some(param(#3))	!$7 & $10 & $8 | !$7 & $10 & $9
ret	some($3)	!$10 & !$7 & $5 | !$10 & !$7 & $9
== i::PAutomaton::construct | i::PAutomaton<Wu, TI::Single> | (const NFA<char> &, const std::vector<u64> &, const std::function<std::vector<u32> (const NFA<char>::edge_t &)> &, const std::function<void (const NFA<char>::state_t *, u64)> &) | char, true, false | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 55
== i::PAutomaton::PAutomaton | i::PAutomaton<Wu, TI::Pair> | (const i::PDA<Wu, fut::vector> &, const std::vector<u64> &, bool) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 62
let	$1	new(`std::vector`)
let	$2	param(#0)._states
let	$3	lt(phi(#0, 0, #0), size(param(#1)))
let	$4	eq(ix($2, #0), param(#1)[phi(#0, 0, #0)])
do		set(self._states, $1)	true
do		set(self._initial, $1)	true
do		set(self._accepting, $1)	true
do		set(self._pda, addrof(param(#0)))	true
do	foreach($2)	do(`pdaaal::internal::PAutomaton::add_state`, self, true, true)	$3 & $4 & param(#2)
dom	foreach($2)	do(`pdaaal::internal::PAutomaton::add_state`, self, true, false)	!$3 | !$4 | !param(#2)
== i::PAutomaton::PAutomaton | i::PAutomaton<Wu, TI::Pair> | (i::PAutomaton<Wu, TI::Pair> &&, const i::PDA<Wu, fut::vector> &) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 50
== i::PAutomaton::PAutomaton | i::PAutomaton<Wu, TI::Pair> | (const i::PAutomaton<Wu, TI::Pair> &) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 63
let	$1	new(`std::vector`)
let	$2	self._accepting
let	$3	param(#0)._states
let	$4	param(#0)._accepting
let	$5	param(#0)._initial
do		set(self._states, $1)	true
do		set(self._initial, $1)	true
do		set($2, $1)	true
do		set(self._pda, addrof(param(#0)._pda))	true
do	foreach($3)	do(`push`, self._states, newobj($3@0^))	true
do	foreach($3)	set(L(#0)[$3@0], newobj($3@0^))	true
do	foreach($4)	do(`push`, $2, L(#0)[$4@0]')	true
do	foreach($5)	do(`push`, self._initial, L(#0)[$5@0]')	true
dom		init(L(#0), new(`std::unordered_map`))	true
== i::PAutomaton::has_accepting_state | i::PAutomaton<Wu, TI::Pair> | () const |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 53
== i::PAutomaton::add_epsilon_edge | i::PAutomaton<Wu, TI::Pair> | (u64, u64, std::pair<std::pair<i::trace_t, i::trace_t>, u32>) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 54
== i::PAutomaton::add_edge | i::PAutomaton<Wu, TI::Pair> | (u64, u64, u32, std::pair<std::pair<i::trace_t, i::trace_t>, u32>) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 64
do		do(`insert`, self._states[param(#0)]^._edges, param(#1), param(#2), param(#3))	true
== i::PAutomaton::PAutomaton | i::PAutomaton<Wi, TI::Pair> | (const i::PDA<Wi, fut::vector> &, const std::vector<u64> &, bool) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 62
== i::PAutomaton::PAutomaton | i::PAutomaton<Wi, TI::Pair> | (i::PAutomaton<Wi, TI::Pair> &&, const i::PDA<Wi, fut::vector> &) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 50
== i::PAutomaton::PAutomaton | i::PAutomaton<Wi, TI::Pair> | (const i::PAutomaton<Wi, TI::Pair> &) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 63
== i::PAutomaton::get_trace_label | i::PAutomaton<Wi, TI::Pair> | (u64, u32, u64) const |  | std::pair<i::trace_t, i::trace_t>
-- file: include/pdaaal/internal/PAutomaton.h
-- id: 65
let	$1	self._states[param(#0)]^._edges
let	$2	contains($1, param(#2), param(#1))
let	$3	18446744073709551615
let	$4	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $3, _state: $3}
ret	$1[param(#2), param(#1)].#0	$2
ret	tuple{#0: $4, #1: $4}	!$2
== i::PAutomaton::has_accepting_state | i::PAutomaton<Wi, TI::Pair> | () const |  | bool
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 53
== i::PAutomaton::add_epsilon_edge | i::PAutomaton<Wi, TI::Pair> | (u64, u64, std::pair<std::pair<i::trace_t, i::trace_t>, int>) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 54
== i::PAutomaton::add_edge | i::PAutomaton<Wi, TI::Pair> | (u64, u64, u32, std::pair<std::pair<i::trace_t, i::trace_t>, int>) |  | void
-- file: include/pdaaal/internal/PAutomaton.h
-- same: 64
== PAutomaton::PAutomaton | PAutomaton<char, W0, u64, true, TI::Single> | (const PDA<char, W0, fut::vector, u64, true> &, const NFA<char> &, const std::vector<u64> &) |  | void
-- file: include/pdaaal/PAutomaton.h
-- id: 66
do		do(`pdaaal::internal::PAutomaton::construct`, self, param(#1), param(#2), fun(call(`pdaaal::PDA::encode_pre`, param(#0), lp(#0, #0)._symbols), []), fun(none, []))	true
do		set(fld(self, `<base:pdaaal::internal::PAutomaton>`), ctor(`pdaaal::internal::PAutomaton`, param(#0), param(#2), call(`pdaaal::NFA::empty_accept`, param(#1))))	true
do		set(self._pda, addrof(param(#0)))	true
== PAutomaton::PAutomaton | PAutomaton<char, Wu, u64, true, TI::Single> | (const PDA<char, Wu, fut::vector, u64, true> &, const NFA<char> &, const std::vector<u64> &) |  | void
-- file: include/pdaaal/PAutomaton.h
-- same: 66
== PAutomaton::PAutomaton | PAutomaton<char, Wu, u64, true, TI::Single> | (PAutomaton<char, Wu, u64, true, TI::Single> &&, const PDA<char, Wu, fut::vector, u64, true> &) |  | void
-- file: include/pdaaal/PAutomaton.h
-- id: 67
do		set(fld(self, `<base:pdaaal::internal::PAutomaton>`), ctor(`pdaaal::internal::PAutomaton`, param(#0), param(#1)))	true
do		set(self._pda, addrof(param(#1)))	true
== PAutomaton::to_json | PAutomaton<char, Wu, u64, true, TI::Single> | (const std::string &) const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomaton.h
-- id: 68
do		set(L(#0)[param(#0)], ctor(`nlohmann::basic_json`, self))	true
dom		init(L(#0), ctor(`nlohmann::basic_json`, 0))	true
ret	L(#0)'	true
== PAutomaton::get_symbol | PAutomaton<char, Wu, u64, true, TI::Single> | (u64) const |  | char
-- file: include/pdaaal/PAutomaton.h
-- id: 69
ret	call(`pdaaal::PDA::get_symbol`, self._pda, param(#0))	true
== PAutomaton::PAutomaton | PAutomaton<char, Wu, u64, true, TI::Pair> | (PAutomaton<char, Wu, u64, true, TI::Pair> &&, const PDA<char, Wu, fut::vector, u64, true> &) |  | void
-- file: include/pdaaal/PAutomaton.h
-- same: 67
== PAutomaton::PAutomaton | PAutomaton<char, Wi, u64, true, TI::Pair> | (PAutomaton<char, Wi, u64, true, TI::Pair> &&, const PDA<char, Wi, fut::vector, u64, true> &) |  | void
-- file: include/pdaaal/PAutomaton.h
-- same: 67
== PAutomaton::PAutomaton | PAutomaton<std::string, W0, std::string, false, TI::Single> | (PAutomaton<std::string, W0, std::string, false, TI::Single> &&, const PDA<std::string, W0, fut::vector, std::string, false> &) |  | void
-- file: include/pdaaal/PAutomaton.h
-- id: 70
do		set(fld(self, `<base:pdaaal::internal::PAutomaton>`), ctor(`pdaaal::internal::PAutomaton`, param(#0), param(#1)))	true
do		set(fld(self, `<base:pdaaal::state_mapping>`), param(#0))	true
do		set(self._pda, addrof(param(#1)))	true
== PAutomaton::to_json | PAutomaton<std::string, W0, std::string, false, TI::Single> | (const std::string &) const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomaton.h
-- same: 68
== PAutomaton::get_state_optional | PAutomaton<std::string, W0, std::string, false, TI::Single> | (u64) const |  | std::optional<std::string>
-- file: include/pdaaal/PAutomaton.h
-- id: 71
let	$1	size(self._pda._states)
let	$2	lt(param(#0), $1)
let	$3	lin(#0, param(#0), mul(#-1, $1))
let	$4	lt($3, call(`pdaaal::state_mapping::state_map_size`, self))
ret	some(call(`pdaaal::state_mapping::get_state`, self._pda, param(#0)))	$2
ret	some(call(`pdaaal::state_mapping::get_state`, self, $3))	!$2 & $4
ret	nullopt	!$2 & !$4
== PAutomaton::get_symbol | PAutomaton<std::string, W0, std::string, false, TI::Single> | (u64) const |  | std::string
-- file: include/pdaaal/PAutomaton.h
-- same: 69
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, W0, std::string, false, TI::Single> &) | true, std::string, W0, std::string, false, TI::Single | void
-- file: include/pdaaal/PAutomaton.h
-- id: 72
let	$1	new(`std::initializer_list`)
let	$2	param(#1)._states
let	$3	param(#0)["initial"]
let	$4	ctor(`nlohmann::basic_json`, $2@0^._id)
let	$5	call(`pdaaal::PAutomaton::get_state_optional`, param(#1), $2@0^._id)
let	$6	lt($2@0^._id, size(param(#1)._pda._states))
let	$7	ctor(`nlohmann::basic_json`, val($5))
let	$8	param(#0)["accepting"]
let	$9	$2@0^._accepting
let	$10	foreach($2@0^._edges)
let	$11	$2@0^._edges@0.#1
let	$12	ctor(`nlohmann::detail::json_ref`, $4)
let	$13	ctor(`nlohmann::detail::json_ref`, "")
let	$14	$2@0^._edges@0.#0
let	$15	ctor(`nlohmann::detail::json_ref`, ctor(`nlohmann::basic_json`, $14))
let	$16	eq(4294967295, $11@0.#0)
let	$17	call(`pdaaal::PAutomaton::get_state_optional`, param(#1), $14)
let	$18	ctor(`nlohmann::detail::json_ref`, ctor(`nlohmann::basic_json`, val($17)))
let	$19	ctor(`nlohmann::detail::json_ref`, call(`pdaaal::PAutomaton::get_symbol`, param(#1), $11@0.#0))
let	$20	ctor(`nlohmann::detail::json_ref`, $7)
do		set(param(#0), call(`nlohmann::basic_json::object`, $1))	true
do	foreach($2)	do(`push`, $3, $4)	!has($5) & $6
do	foreach($2)	do(`push`, $3, $7)	$6 & has($5)
do	foreach($2)	do(`push`, $8, $4)	!has($5) & $9
do	foreach($2)	do(`push`, $8, $7)	$9 & has($5)
do	foreach($2) ; $10 ; foreach($11)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($12, $13, $15)))	!has($17) & !has($5) & $16
do	foreach($2) ; $10 ; foreach($11)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($12, $13, $18)))	!has($5) & $16 & has($17)
do	foreach($2) ; $10 ; foreach($11)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($12, $19, $15)))	!$16 & !has($17) & !has($5)
do	foreach($2) ; $10 ; foreach($11)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($12, $19, $18)))	!$16 & !has($5) & has($17)
do	foreach($2) ; $10 ; foreach($11)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($20, $13, $15)))	!has($17) & $16 & has($5)
do	foreach($2) ; $10 ; foreach($11)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($20, $13, $18)))	$16 & has($17) & has($5)
do	foreach($2) ; $10 ; foreach($11)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($20, $19, $15)))	!$16 & !has($17) & has($5)
do	foreach($2) ; $10 ; foreach($11)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($20, $19, $18)))	!$16 & has($17) & has($5)
do		set(param(#0)["edges"], L(#0)')	true
dom		init(L(#0), call(`nlohmann::basic_json::array`, $1))	true
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<char, Wu, u64, true, TI::Single> &) | true, char, Wu, u64, true, TI::Single | void
-- file: include/pdaaal/PAutomaton.h
-- id: 73
let	$1	new(`std::initializer_list`)
let	$2	param(#1)._states
let	$3	ctor(`nlohmann::basic_json`, $2@0^._id)
let	$4	foreach($2@0^._edges)
let	$5	$2@0^._edges@0.#1
let	$6	eq(4294967295, $5@0.#0)
let	$7	ctor(`nlohmann::detail::json_ref`, $3)
let	$8	ctor(`nlohmann::detail::json_ref`, ctor(`nlohmann::basic_json`, $2@0^._edges@0.#0))
do		set(param(#0), call(`nlohmann::basic_json::object`, $1))	true
do	foreach($2)	do(`push`, param(#0)["initial"], $3)	lt($2@0^._id, size(param(#1)._pda._states))
do	foreach($2)	do(`push`, param(#0)["accepting"], $3)	$2@0^._accepting
do	foreach($2) ; $4 ; foreach($5)	out(`<<`, L(#0), call(`pdaaal::PAutomaton::get_symbol`, param(#1), $5@0.#0))	!$6
do	foreach($2) ; $4 ; foreach($5)	do(`push`, L(#1), call(`nlohmann::basic_json::array`, list($7, ctor(`nlohmann::detail::json_ref`, ""), $8)))	$6
do	foreach($2) ; $4 ; foreach($5)	do(`push`, L(#1), call(`nlohmann::basic_json::array`, list($7, ctor(`nlohmann::detail::json_ref`, str_of(L(#0)')), $8)))	!$6
do		set(param(#0)["edges"], L(#1)')	true
dom		init(L(#1), call(`nlohmann::basic_json::array`, $1))	true
dom	foreach($2) ; $4 ; foreach($5)	init(L(#0), new(`std::basic_stringstream`))	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, W0, std::string, false, TI::Single> &) | std::string, W0, std::string, false, TI::Single | void
-- file: include/pdaaal/PAutomaton.h
-- id: 74
do		do(`pdaaal::to_json_impl`, param(#0), param(#1))	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<char, Wu, u64, true, TI::Single> &) | char, Wu, u64, true, TI::Single | void
-- file: include/pdaaal/PAutomaton.h
-- same: 74
== PAutomatonProduct::PAutomatonProduct | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (const PDA<char, W0, fut::vector, u64, true> &, const NFA<char> &, const std::vector<u64> &, const NFA<char> &, const std::vector<u64> &) | char | void
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 75
let	$1	addrof(param(#0))
let	$2	new(`std::vector`)
do		set(self._pda, $1)	true
do		set(self._pda_size, size($1._states))	true
do		set(self._initial, ctor(`pdaaal::PAutomaton`, $1, param(#1), param(#2)))	true
do		set(self._final, ctor(`pdaaal::PAutomaton`, $1, param(#3), param(#4)))	true
do		set(self._product, ctor(`pdaaal::internal::PAutomaton`, $1, call(`std::set_intersection`, param(#2), param(#4)), {call(`pdaaal::NFA::empty_accept`, param(#1)) & call(`pdaaal::NFA::empty_accept`, param(#3))}))	true
do		set(self._swap_initial_final, false)	true
do		set(self._id_map, new(`ptrie::set_stable`))	true
do		set(self._id_fast_lookup, $2)	true
do		set(self._id_fast_lookup_back, $2)	true
== PAutomatonProduct::initialize_product | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () | false, true, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 76
let	$1	self._product._states
let	$2	self._swap_initial_final
do	foreach($1)	do(`push`, L(#0), ix($1, #0))	true
do		do(`pdaaal::PAutomatonProduct::construct_reachable`, self, L(#0)', self._final, self._initial, true)	$2
do		do(`pdaaal::PAutomatonProduct::construct_reachable`, self, L(#0)', self._initial, self._final, true)	!$2
dom		init(L(#0), new(`std::vector`))	true
ret	res(`pdaaal::PAutomatonProduct::construct_reachable`, self, L(#0)', self._final, self._initial, true)	$2
ret	res(`pdaaal::PAutomatonProduct::construct_reachable`, self, L(#0)', self._initial, self._final, true)	!$2
== PAutomatonProduct::initialize_product | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () | false, true, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 76
== PAutomatonProduct::initialize_product | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () | true, true, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 76
== PAutomatonProduct::initialize_product | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () | false, false, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 76
== PAutomatonProduct::initialize_product | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () | false, false, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 76
== PAutomatonProduct::add_edge_product | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (u64, u32, u64, i::trace_t, const bool &) | true, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 77
let	$1	self._swap_initial_final
do		do(`pdaaal::PAutomatonProduct::add_edge`, self, param(#0), param(#1), param(#2), param(#3), self._final, self._initial, param(#4))	$1
do		do(`pdaaal::PAutomatonProduct::add_edge`, self, param(#0), param(#1), param(#2), param(#3), self._initial, self._final, param(#4))	!$1
ret	{!$1 & res(`pdaaal::PAutomatonProduct::add_edge`, self, param(#0), param(#1), param(#2), param(#3), self._initial, self._final, param(#4)) | $1 & res(`pdaaal::PAutomatonProduct::add_edge`, self, param(#0), param(#1), param(#2), param(#3), self._final, self._initial, param(#4))}	true
== PAutomatonProduct::add_edge_product | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (u64, u32, u64, i::trace_t, const bool &) | true, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 77
== PAutomatonProduct::add_initial_edge | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (u64, u32, u64, i::trace_t, const bool &) | TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 78
do		do(`pdaaal::PAutomatonProduct::add_edge`, self, param(#0), param(#1), param(#2), param(#3), self._initial, self._final, param(#4))	true
ret	res(`pdaaal::PAutomatonProduct::add_edge`, self, param(#0), param(#1), param(#2), param(#3), self._initial, self._final, param(#4))	true
== PAutomatonProduct::add_final_edge | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (u64, u32, u64, i::trace_t, const bool &) | TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 79
do		do(`pdaaal::PAutomatonProduct::add_edge`, self, param(#0), param(#1), param(#2), param(#3), self._initial, self._final, param(#4))	true
ret	res(`pdaaal::PAutomatonProduct::add_edge`, self, param(#0), param(#1), param(#2), param(#3), self._initial, self._final, param(#4))	true
== PAutomatonProduct::automaton | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () |  | PAutomaton<char, W0, u64, true, TI::Single> &
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 80
let	$1	self._swap_initial_final
ret	self._final	$1
ret	self._initial	!$1
== PAutomatonProduct::automaton | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () const |  | const PAutomaton<char, W0, u64, true, TI::Single> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 80
== PAutomatonProduct::initial_automaton | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () |  | PAutomaton<char, W0, u64, true, TI::Single> &
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 81
ret	self._initial	true
== PAutomatonProduct::initial_automaton | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () const |  | const PAutomaton<char, W0, u64, true, TI::Single> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 81
== PAutomatonProduct::final_automaton | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () |  | PAutomaton<char, W0, u64, true, TI::Single> &
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 82
ret	self._final	true
== PAutomatonProduct::final_automaton | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () const |  | const PAutomaton<char, W0, u64, true, TI::Single> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 82
== PAutomatonProduct::product_automaton | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () const |  | const i::PAutomaton<W0, TI::Single> &
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 83
ret	self._product	true
== PAutomatonProduct::pda | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () const |  | const PDA<char, W0, fut::vector, u64, true> &
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 84
ret	self._pda	true
== PAutomatonProduct::enable_pre_star | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () |  | void
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 85
do		set(self._swap_initial_final, true)	true
== PAutomatonProduct::find_path | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () const | TT::Any, false | AutomatonPath<false>
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 86
ret	call(`pdaaal::internal::PAutomaton::find_path`, self._product, fun(call(`pdaaal::PAutomatonProduct::get_original`, self, lp(#0, #0)), []))	true
== PAutomatonProduct::find_path | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | () const | TT::Any, true | AutomatonPath<true>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 86
== PAutomatonProduct::add_edge | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (u64, u32, u64, i::trace_t, const PAutomaton<char, W0, u64, true, TI::Single> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const bool &) | true, false, true, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 87
let	$1	eq(param(#1), 4294967295)
let	$2	param(#5)._states
let	$3	$2[L(#2)@0.#0']^._edges
let	$4	tuple{#0: param(#4)._states[param(#2)], #1: $2[L(#1)@0.#0']}
let	$5	self._product._states[L(#2)@0.#1']''^._edges
let	$6	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $4)
let	$7	empty(self._product._accepting'')
let	$8	self._id_fast_lookup
let	$9	lt(param(#0), size($8))
let	$10	new(`std::vector`)
do		do(`push`, L(#2), tuple{#0: param(#0), #1: param(#0)})	lt(param(#0), self._pda_size)
do	foreach(L(#2))	do(`push`, L(#1), tuple{#0: L(#2)@0.#0', #1: param(#3)})	$1
do	foreach(L(#2)) ; foreach($3)	do(`push`, L(#1), tuple{#0: $3@0.#0, #1: param(#3)})	!$1 & contains($3@0.#1, param(#1))
do	foreach(L(#2)) ; foreach(L(#1))	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $4)	true
do	foreach(L(#2)) ; foreach(L(#1))	do(`insert`, $5, $6.#1, 4294967295, L(#1)@0.#1')	$1
do	foreach(L(#2)) ; foreach(L(#1))	do(`insert`, $5, $6.#1, param(#1), L(#1)@0.#1')	!$1
do	foreach(L(#2)) ; foreach(L(#1))	do(`push`, L(#0), $6.#1)	$6.#0 & $7
do	foreach(L(#2)) ; foreach(L(#1))	exit	!$7
do	foreach(L(#2))	exit	!$7 & !empty(L(#1))
do		do(`pdaaal::PAutomatonProduct::construct_reachable`, self, L(#0)', param(#4), param(#5), param(#6))	$7 | empty(L(#1)) | empty(L(#2))
dom		init(L(#2), ite([{!$9}, $10, $9, $8[param(#0)]]))	true
dom		init(L(#0), $10)	true
dom	foreach(L(#2))	init(L(#1), $10)	true
ret	{!$7 & !empty(L(#1)) & !empty(L(#2)) | res(`pdaaal::PAutomatonProduct::construct_reachable`, self, L(#0)', param(#4), param(#5), param(#6))}	true
== PAutomatonProduct::add_edge | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (u64, u32, u64, i::trace_t, const PAutomaton<char, W0, u64, true, TI::Single> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const bool &) | true, false, true, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 87
== PAutomatonProduct::add_edge | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (u64, u32, u64, i::trace_t, const PAutomaton<char, W0, u64, true, TI::Single> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const bool &) | true, true, true, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 87
== PAutomatonProduct::add_edge | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (u64, u32, u64, i::trace_t, const PAutomaton<char, W0, u64, true, TI::Single> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const bool &) | false, true, true, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 88
let	$1	eq(param(#1), 4294967295)
let	$2	param(#4)._states
let	$3	$2[L(#2)@0.#0']^._edges
let	$4	tuple{#0: $2[L(#0)@0.#0'], #1: param(#5)._states[param(#2)]}
let	$5	self._product._states[L(#2)@0.#1']''^._edges
let	$6	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $4)
let	$7	empty(self._product._accepting'')
let	$8	self._id_fast_lookup_back
let	$9	lt(param(#0), size($8))
let	$10	new(`std::vector`)
do		do(`push`, L(#2), tuple{#0: param(#0), #1: param(#0)})	lt(param(#0), self._pda_size)
do	foreach(L(#2))	do(`push`, L(#0), tuple{#0: L(#2)@0.#0', #1: param(#3)})	$1
do	foreach(L(#2)) ; foreach($3)	do(`push`, L(#0), tuple{#0: $3@0.#0, #1: param(#3)})	!$1 & contains($3@0.#1, param(#1))
do	foreach(L(#2)) ; foreach(L(#0))	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $4)	true
do	foreach(L(#2)) ; foreach(L(#0))	do(`insert`, $5, $6.#1, 4294967295, L(#0)@0.#1')	$1
do	foreach(L(#2)) ; foreach(L(#0))	do(`insert`, $5, $6.#1, param(#1), L(#0)@0.#1')	!$1
do	foreach(L(#2)) ; foreach(L(#0))	do(`push`, L(#1), $6.#1)	$6.#0 & $7
do	foreach(L(#2)) ; foreach(L(#0))	exit	!$7
do	foreach(L(#2))	exit	!$7 & !empty(L(#0))
do		do(`pdaaal::PAutomatonProduct::construct_reachable`, self, L(#1)', param(#4), param(#5), param(#6))	$7 | empty(L(#0)) | empty(L(#2))
dom		init(L(#2), ite([$9, $8[param(#0)], {!$9}, $10]))	true
dom		init(L(#1), $10)	true
dom	foreach(L(#2))	init(L(#0), $10)	true
ret	{!$7 & !empty(L(#0)) & !empty(L(#2)) | res(`pdaaal::PAutomatonProduct::construct_reachable`, self, L(#1)', param(#4), param(#5), param(#6))}	true
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (std::vector<u64> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const bool &) | false, true, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 89
let	$1	empty(param(#0)')
let	$2	list(list(true, false))
let	$3	param(#1)._states
let	$4	back(param(#0))'
let	$5	call(`pdaaal::PAutomatonProduct::get_original_ids`, self', $4)
let	$6	$3[$5.#0]^._edges
let	$7	param(#2)._states
let	$8	contains($6@0.#1, 4294967295)
let	$9	self._product._states[$4]''^._edges
let	$10	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$6@0.#0], $7[$5.#1])
let	$11	self._product._accepting'
let	$12	$7[$5.#1]^._edges
let	$13	contains($12@0.#1, 4294967295)
let	$14	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5.#0], $7[$12@0.#0])
let	$15	exists($12, $13)
let	$16	call(`std::set_intersection`, $6@0.#1, $12@0.#1)
let	$17	exists($2, {!$2@0 & $15 | $2@0 & exists($6, $8)})
let	$18	eq(4294967295, back(L(#0)).#0)
let	$19	lt(1, size($16))
let	$20	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$6@0.#0], $7[$12@0.#0])
let	$21	exists($12, {!$18 & !empty($16) | !empty($16) & $19})
let	$22	exists($6, $21)
do	loop(#0)	do(`pop`, param(#0))	!$1
do	loop(#0) ; foreach($2) ; foreach($6)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$6@0.#0], $7[$5.#1])	!$1 & $2@0 & $8
do	loop(#0) ; foreach($2) ; foreach($6)	do(`insert`, $9, $10.#1, 4294967295, $6@0.#1[4294967295])	!$1 & $2@0 & $8
do	loop(#0) ; foreach($2) ; foreach($6)	do(`push`, param(#0), $10.#1)	!$1 & $10.#0 & $2@0 & $8 & empty($11')
do	loop(#0) ; foreach($2) ; foreach($6)	exit	!$1 & !empty($11') & $2@0 & $8
do	loop(#0) ; foreach($2) ; foreach($12)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5.#0], $7[$12@0.#0])	!$1 & !$2@0 & $13
do	loop(#0) ; foreach($2) ; foreach($12)	do(`insert`, $9, $14.#1, 4294967295, $12@0.#1[4294967295])	!$1 & !$2@0 & $13
do	loop(#0) ; foreach($2) ; foreach($12)	do(`push`, param(#0), $14.#1)	!$1 & !$2@0 & $13 & $14.#0 & empty($11')
do	loop(#0) ; foreach($2) ; foreach($12)	exit	!$1 & !$2@0 & !empty($11') & $13
do	loop(#0) ; foreach($2)	exit	!$1 & !$2@0 & !empty($11') & $15 | !$1 & !empty($11') & $2@0 & exists($6, $8)
do	loop(#0) ; foreach($6) ; foreach($12)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$6@0.#0], $7[$12@0.#0])	!$1 & !$17 & !$18 & !empty($16) | !$1 & !$17 & !empty($16) & $19 | !$1 & !$18 & !empty($16) & empty($11') | !$1 & !empty($16) & $19 & empty($11')
do	loop(#0) ; foreach($6) ; foreach($12) ; foreach(L(#0))	do(`insert`, $9, $20.#1, L(#0)@0.#0, L(#0)@0.#1)	!$1 & !$17 & !$18 & !empty($16) & !eq(4294967295, L(#0)@0.#0) | !$1 & !$17 & !empty($16) & !eq(4294967295, L(#0)@0.#0) & $19 | !$1 & !$18 & !empty($16) & !eq(4294967295, L(#0)@0.#0) & empty($11') | !$1 & !empty($16) & !eq(4294967295, L(#0)@0.#0) & $19 & empty($11')
do	loop(#0) ; foreach($6) ; foreach($12)	do(`push`, param(#0), $20.#1)	!$1 & !$18 & !empty($16) & $20.#0 & empty($11') | !$1 & !empty($16) & $19 & $20.#0 & empty($11')
do	loop(#0) ; foreach($6) ; foreach($12)	exit	!$1 & !$17 & !$18 & !empty($11') & !empty($16) | !$1 & !$17 & !empty($11') & !empty($16) & $19
do	loop(#0) ; foreach($6)	exit	!$1 & !$17 & !empty($11') & $21
do	loop(#0)	exit	!empty($11') & $17 | !empty($11') & $22 | $1
dom		init(L(#0), new(`std::vector`))	true
ret	{!$1 & !empty($11') & exists(loop(#0), {$17 | $22}) | !empty($11)}	true
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (std::vector<u64> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const bool &) | false, true, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 89
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (std::vector<u64> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const bool &) | true, true, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 89
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (std::vector<u64> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const bool &) | true, true, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 89
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (std::vector<u64> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const bool &) | false, false, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 90
let	$1	empty(param(#0)')
let	$2	list(list(true, false))
let	$3	param(#1)._states
let	$4	back(param(#0))'
let	$5	call(`pdaaal::PAutomatonProduct::get_original_ids`, self', $4)
let	$6	$3[$5.#0]^._edges
let	$7	param(#2)._states
let	$8	contains($6@0.#1, 4294967295)
let	$9	self._product._states[$4]''^._edges
let	$10	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$6@0.#0], $7[$5.#1])
let	$11	$7[$5.#1]^._edges
let	$12	contains($11@0.#1, 4294967295)
let	$13	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5.#0], $7[$11@0.#0])
let	$14	call(`std::set_intersection`, $6@0.#1, $11@0.#1)
let	$15	eq(4294967295, back(L(#0)).#0)
let	$16	lt(1, size($14))
let	$17	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$6@0.#0], $7[$11@0.#0])
do	loop(#0)	do(`pop`, param(#0))	!$1
do	loop(#0) ; foreach($2) ; foreach($6)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$6@0.#0], $7[$5.#1])	!$1 & $2@0 & $8
do	loop(#0) ; foreach($2) ; foreach($6)	do(`insert`, $9, $10.#1, 4294967295, $6@0.#1[4294967295])	!$1 & $2@0 & $8
do	loop(#0) ; foreach($2) ; foreach($6)	do(`push`, param(#0), $10.#1)	!$1 & $10.#0 & $2@0 & $8
do	loop(#0) ; foreach($2) ; foreach($11)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5.#0], $7[$11@0.#0])	!$1 & !$2@0 & $12
do	loop(#0) ; foreach($2) ; foreach($11)	do(`insert`, $9, $13.#1, 4294967295, $11@0.#1[4294967295])	!$1 & !$2@0 & $12
do	loop(#0) ; foreach($2) ; foreach($11)	do(`push`, param(#0), $13.#1)	!$1 & !$2@0 & $12 & $13.#0
do	loop(#0) ; foreach($6) ; foreach($11)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$6@0.#0], $7[$11@0.#0])	!$1 & !$15 & !empty($14) | !$1 & !empty($14) & $16
do	loop(#0) ; foreach($6) ; foreach($11) ; foreach(L(#0))	do(`insert`, $9, $17.#1, L(#0)@0.#0, L(#0)@0.#1)	!$1 & !$15 & !empty($14) & !eq(4294967295, L(#0)@0.#0) | !$1 & !empty($14) & !eq(4294967295, L(#0)@0.#0) & $16
do	loop(#0) ; foreach($6) ; foreach($11)	do(`push`, param(#0), $17.#1)	!$1 & !$15 & !empty($14) & $17.#0 | !$1 & !empty($14) & $16 & $17.#0
do	loop(#0)	exit	$1
dom		init(L(#0), new(`std::vector`))	true
ret	{!empty(self._product._accepting')}	true
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (std::vector<u64> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const PAutomaton<char, W0, u64, true, TI::Single> &, const bool &) | false, false, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 90
== PAutomatonProduct::pair_size_t::to_pair | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single>::pair_size_t | () const |  | std::pair<u64, u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 91
ret	self	true
== PAutomatonProduct::get_original_ids | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (u64) const |  | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single>::pair_size_t
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 92
let	$1	lt(param(#0), self._pda_size)
ret	pdaaal::PAutomatonProduct::pair_size_t{#0: param(#0), #1: param(#0)}	$1
ret	out(`ptrie::set_stable::unpack`, #1, self._id_map, lin(#0, param(#0), mul(#-1, self._pda_size)))	!$1
== PAutomatonProduct::get_original | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (u64) const | false | u64
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 93
ret	call(`pdaaal::PAutomatonProduct::get_original_ids`, self, param(#0)).#0	true
== PAutomatonProduct::get_original | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (u64) const | true | std::pair<u64, u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 94
ret	call(`pdaaal::PAutomatonProduct::get_original_ids`, self, param(#0))	true
== PAutomatonProduct::get_product_state | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (std::pair<const i::PAutomaton<W0, TI::Single>::state_t *, const i::PAutomaton<W0, TI::Single>::state_t *>) | false | std::pair<bool, u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 95
do		do(`pdaaal::PAutomatonProduct::get_product_state`, self, param(#0).#0, param(#0).#1)	true
ret	res(`pdaaal::PAutomatonProduct::get_product_state`, self, param(#0).#0, param(#0).#1)	true
== PAutomatonProduct::get_product_state | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (std::pair<const i::PAutomaton<W0, TI::Single>::state_t *, const i::PAutomaton<W0, TI::Single>::state_t *>) | true | std::pair<bool, u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 95
== PAutomatonProduct::get_product_state | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (const i::PAutomaton<W0, TI::Single>::state_t *, const i::PAutomaton<W0, TI::Single>::state_t *) | false | std::pair<bool, u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 96
let	$1	pdaaal::PAutomatonProduct::pair_size_t{#0: param(#0)^._id, #1: param(#1)^._id}
let	$2	lt(param(#0)^._id, self._pda_size)
let	$3	eq(param(#1)^._id, param(#0)^._id)
let	$4	param(#1)^._accepting
let	$5	res(`ptrie::set_stable::insert`, self._id_map, $1)
let	$6	param(#0)^._accepting
let	$7	self._id_fast_lookup
let	$8	$7[param(#0)^._id]
let	$9	res(`pdaaal::internal::PAutomaton::add_state`, self._product, false, true)
let	$10	res(`pdaaal::internal::PAutomaton::add_state`, self._product, false, false)
do		do(`insert`, self._id_map, $1)	!$2 | !$3
do		do(`pdaaal::internal::PAutomaton::add_state`, self._product, false, true)	!$2 & $4 & $5.#0 & $6 | !$3 & $4 & $5.#0 & $6
do		do(`pdaaal::internal::PAutomaton::add_state`, self._product, false, false)	!$2 & !$4 & $5.#0 | !$2 & !$6 & $5.#0 | !$3 & !$4 & $5.#0 | !$3 & !$6 & $5.#0
do		do(`resize`, $7, lin(#1, param(#0)^._id))	!$2 & !lt(param(#0)^._id, size($7)) & $5.#0 | !$3 & !lt(param(#0)^._id, size($7)) & $5.#0
do		do(`push`, $8, tuple{#0: param(#1)^._id, #1: $9})	!$2 & $4 & $5.#0 & $6 | !$3 & $4 & $5.#0 & $6
do		do(`push`, $8, tuple{#0: param(#1)^._id, #1: $10})	!$2 & !$4 & $5.#0 | !$2 & !$6 & $5.#0 | !$3 & !$4 & $5.#0 | !$3 & !$6 & $5.#0
ret	tuple{#0: false, #1: param(#0)^._id}	$2 & $3
ret	tuple{#0: true, #1: $9}	!$2 & $4 & $5.#0 & $6 | !$3 & $4 & $5.#0 & $6
ret	tuple{#0: true, #1: $10}	!$2 & !$4 & $5.#0 | !$2 & !$6 & $5.#0 | !$3 & !$4 & $5.#0 | !$3 & !$6 & $5.#0
ret	tuple{#0: false, #1: lin(#0, self._pda_size, $5.#1)}	!$2 & !$5.#0 | !$3 & !$5.#0
== PAutomatonProduct::get_product_state | PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> | (const i::PAutomaton<W0, TI::Single>::state_t *, const i::PAutomaton<W0, TI::Single>::state_t *) | true | std::pair<bool, u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 97
let	$1	pdaaal::PAutomatonProduct::pair_size_t{#0: param(#0)^._id, #1: param(#1)^._id}
let	$2	lt(param(#0)^._id, self._pda_size)
let	$3	eq(param(#1)^._id, param(#0)^._id)
let	$4	param(#1)^._accepting
let	$5	res(`ptrie::set_stable::insert`, self._id_map, $1)
let	$6	param(#0)^._accepting
let	$7	self._id_fast_lookup
let	$8	$7[param(#0)^._id]
let	$9	res(`pdaaal::internal::PAutomaton::add_state`, self._product, false, true)
let	$10	res(`pdaaal::internal::PAutomaton::add_state`, self._product, false, false)
let	$11	self._id_fast_lookup_back
let	$12	$11[param(#1)^._id]
do		do(`insert`, self._id_map, $1)	!$2 | !$3
do		do(`pdaaal::internal::PAutomaton::add_state`, self._product, false, true)	!$2 & $4 & $5.#0 & $6 | !$3 & $4 & $5.#0 & $6
do		do(`pdaaal::internal::PAutomaton::add_state`, self._product, false, false)	!$2 & !$4 & $5.#0 | !$2 & !$6 & $5.#0 | !$3 & !$4 & $5.#0 | !$3 & !$6 & $5.#0
do		do(`resize`, $7, lin(#1, param(#0)^._id))	!$2 & !lt(param(#0)^._id, size($7)) & $5.#0 | !$3 & !lt(param(#0)^._id, size($7)) & $5.#0
do		do(`push`, $8, tuple{#0: param(#1)^._id, #1: $9})	!$2 & $4 & $5.#0 & $6 | !$3 & $4 & $5.#0 & $6
do		do(`push`, $8, tuple{#0: param(#1)^._id, #1: $10})	!$2 & !$4 & $5.#0 | !$2 & !$6 & $5.#0 | !$3 & !$4 & $5.#0 | !$3 & !$6 & $5.#0
do		do(`resize`, $11, lin(#1, param(#1)^._id))	!$2 & !lt(param(#1)^._id, size($11)) & $5.#0 | !$3 & !lt(param(#1)^._id, size($11)) & $5.#0
do		do(`push`, $12, tuple{#0: param(#0)^._id, #1: $9})	!$2 & $4 & $5.#0 & $6 | !$3 & $4 & $5.#0 & $6
do		do(`push`, $12, tuple{#0: param(#0)^._id, #1: $10})	!$2 & !$4 & $5.#0 | !$2 & !$6 & $5.#0 | !$3 & !$4 & $5.#0 | !$3 & !$6 & $5.#0
ret	tuple{#0: false, #1: param(#0)^._id}	$2 & $3
ret	tuple{#0: true, #1: $9}	!$2 & $4 & $5.#0 & $6 | !$3 & $4 & $5.#0 & $6
ret	tuple{#0: true, #1: $10}	!$2 & !$4 & $5.#0 | !$2 & !$6 & $5.#0 | !$3 & !$4 & $5.#0 | !$3 & !$6 & $5.#0
ret	tuple{#0: false, #1: lin(#0, self._pda_size, $5.#1)}	!$2 & !$5.#0 | !$3 & !$5.#0
== PAutomatonProduct::queue_elem_comp::operator() | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single>::queue_elem_comp | (const u32 &, const u32 &) const | u32, u32 | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 98
ret	call(`pdaaal::details::weight_impl::less`, param(#1), param(#0))	true
== PAutomatonProduct::PAutomatonProduct | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (const PDA<char, Wu, fut::vector, u64, true> &, const NFA<char> &, const std::vector<u64> &, const NFA<char> &, const std::vector<u64> &) | char | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 75
== PAutomatonProduct::PAutomatonProduct | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &&, const PDA<char, Wu, fut::vector, u64, true> &) |  | void
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 99
let	$1	addrof(param(#1))
let	$2	self._swap_initial_final
let	$3	param(#0)._swap_initial_final
do		set(self._pda, $1)	true
do		set(self._pda_size, size($1._states))	true
do		set(self._initial, ctor(`pdaaal::PAutomaton`, param(#0)._initial, $1))	true
do		set(self._final, ctor(`pdaaal::PAutomaton`, param(#0)._final, $1))	true
do		set(self._product, ctor(`pdaaal::internal::PAutomaton`, param(#0)._product, $1))	true
do		set($2, true)	$3
do		set($2, false)	!$3
do		set(self._id_map, param(#0)._id_map)	true
do		set(self._id_fast_lookup, param(#0)._id_fast_lookup)	true
do		set(self._id_fast_lookup_back, param(#0)._id_fast_lookup_back)	true
== PAutomatonProduct::initialize_product | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () | false, true, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 100
let	$1	self._product._states
let	$2	self._swap_initial_final
do	foreach($1)	do(`push`, L(#0), ix($1, #0))	true
do		do(`pdaaal::PAutomatonProduct::construct_reachable`, self, L(#0)', self._final, self._initial, 0)	$2
do		do(`pdaaal::PAutomatonProduct::construct_reachable`, self, L(#0)', self._initial, self._final, 0)	!$2
dom		init(L(#0), new(`std::vector`))	true
ret	res(`pdaaal::PAutomatonProduct::construct_reachable`, self, L(#0)', self._final, self._initial, 0)	$2
ret	res(`pdaaal::PAutomatonProduct::construct_reachable`, self, L(#0)', self._initial, self._final, 0)	!$2
== PAutomatonProduct::initialize_product | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () | false, true, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 100
== PAutomatonProduct::initialize_product | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () | true, true, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 100
== PAutomatonProduct::initialize_product | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () | false, false, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 100
== PAutomatonProduct::initialize_product | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () | false, true, TT::Shortest | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 101
let	$1	self._product._states
let	$2	pdaaal::priority_set{_queue: L(#0)._queue', _seen: new(`std::unordered_set`)}
let	$3	self._swap_initial_final
do	foreach($1)	do(`pdaaal::priority_set::emplace`, L(#0), 0, ix($1, #0))	true
do		do(`pdaaal::PAutomatonProduct::construct_reachable`, self, $2, self._final, self._initial, 0)	$3
do		do(`pdaaal::PAutomatonProduct::construct_reachable`, self, $2, self._initial, self._final, 0)	!$3
dom		init(L(#0)._queue, new(`std::priority_queue`))	true
dom		init(L(#0), $2)	true
ret	res(`pdaaal::PAutomatonProduct::construct_reachable`, self, $2, self._final, self._initial, 0)	$3
ret	res(`pdaaal::PAutomatonProduct::construct_reachable`, self, $2, self._initial, self._final, 0)	!$3
== PAutomatonProduct::initialize_product | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () | true, true, TT::Shortest | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 101
== PAutomatonProduct::initialize_product | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () | false, false, TT::Shortest | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 101
== PAutomatonProduct::initialize_product | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () | false, false, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 100
== PAutomatonProduct::add_edge_product | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &) | true, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 77
== PAutomatonProduct::add_edge_product | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &) | true, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 77
== PAutomatonProduct::add_edge_product | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &) | true, TT::Shortest | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 77
== PAutomatonProduct::add_initial_edge | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &) | TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 78
== PAutomatonProduct::add_initial_edge | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &) | TT::Shortest | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 78
== PAutomatonProduct::add_final_edge | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &) | TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 79
== PAutomatonProduct::add_final_edge | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &) | TT::Shortest | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 79
== PAutomatonProduct::automaton | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () |  | PAutomaton<char, Wu, u64, true, TI::Single> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 80
== PAutomatonProduct::automaton | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () const |  | const PAutomaton<char, Wu, u64, true, TI::Single> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 80
== PAutomatonProduct::initial_automaton | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () |  | PAutomaton<char, Wu, u64, true, TI::Single> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 81
== PAutomatonProduct::initial_automaton | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () const |  | const PAutomaton<char, Wu, u64, true, TI::Single> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 81
== PAutomatonProduct::final_automaton | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () |  | PAutomaton<char, Wu, u64, true, TI::Single> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 82
== PAutomatonProduct::final_automaton | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () const |  | const PAutomaton<char, Wu, u64, true, TI::Single> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 82
== PAutomatonProduct::product_automaton | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () const |  | const i::PAutomaton<Wu, TI::Single> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 83
== PAutomatonProduct::pda | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () const |  | const PDA<char, Wu, fut::vector, u64, true> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 84
== PAutomatonProduct::enable_pre_star | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () |  | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 85
== PAutomatonProduct::find_path_shortest | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () const | false | std::tuple<AutomatonPath<false>, u32>
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 102
ret	call(`pdaaal::internal::PAutomaton::get_path_shortest`, self._product, fun(call(`pdaaal::PAutomatonProduct::get_original`, self, lp(#0, #0)), []))	true
== PAutomatonProduct::find_path_shortest | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () const | true | std::tuple<AutomatonPath<true>, u32>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 102
== PAutomatonProduct::find_path | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () const | TT::Any, false | AutomatonPath<false>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 86
== PAutomatonProduct::find_path | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () const | TT::Any, true | AutomatonPath<true>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 86
== PAutomatonProduct::find_path | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () const | TT::Shortest, false | std::tuple<AutomatonPath<false>, u32>
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 103
ret	call(`pdaaal::PAutomatonProduct::find_path_shortest`, self)	true
== PAutomatonProduct::find_path | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | () const | TT::Shortest, true | std::tuple<AutomatonPath<true>, u32>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 103
== PAutomatonProduct::add_edge | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64, u32, u64, std::pair<i::trace_t, u32>, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | true, false, true, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 87
== PAutomatonProduct::add_edge | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64, u32, u64, std::pair<i::trace_t, u32>, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | true, false, true, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 87
== PAutomatonProduct::add_edge | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64, u32, u64, std::pair<i::trace_t, u32>, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | true, true, true, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 87
== PAutomatonProduct::add_edge | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64, u32, u64, std::pair<i::trace_t, u32>, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | false, true, true, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 88
== PAutomatonProduct::add_edge | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64, u32, u64, std::pair<i::trace_t, u32>, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | true, false, true, TT::Shortest | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 104
let	$1	eq(param(#1), 4294967295)
let	$2	param(#5)._states
let	$3	$2[L(#0)@0.#0']^._edges
let	$4	tuple{#0: param(#4)._states[param(#2)], #1: $2[L(#2)@0.#0']}
let	$5	self._product._states[L(#0)@0.#1']''^._edges
let	$6	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $4).#1
let	$7	res(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, L(#0)@0.#1', param(#1), $6, L(#2)@0.#1.#1')
let	$8	empty(self._product._accepting'')
let	$9	call(`pdaaal::details::weight_impl::less`, param(#6), call(`pdaaal::internal::PAutomaton::min_accepting_weight`, self._product''))
let	$10	pdaaal::priority_set{_queue: L(#1)._queue', _seen: new(`std::unordered_set`)}
let	$11	self._id_fast_lookup
let	$12	lt(param(#0), size($11))
let	$13	new(`std::vector`)
do		do(`push`, L(#0), tuple{#0: param(#0), #1: param(#0)})	lt(param(#0), self._pda_size)
do	foreach(L(#0))	do(`push`, L(#2), tuple{#0: L(#0)@0.#0', #1: param(#3)})	$1
do	foreach(L(#0)) ; foreach($3)	do(`push`, L(#2), tuple{#0: $3@0.#0, #1: param(#3)})	!$1 & contains($3@0.#1, param(#1))
do	foreach(L(#0)) ; foreach(L(#2))	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $4)	true
do	foreach(L(#0)) ; foreach(L(#2))	do(`insert`, $5, $6, 4294967295, L(#2)@0.#1')	$1
do	foreach(L(#0)) ; foreach(L(#2))	do(`insert`, $5, $6, param(#1), L(#2)@0.#1')	!$1
do	foreach(L(#0)) ; foreach(L(#2))	do(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, L(#0)@0.#1', param(#1), $6, L(#2)@0.#1.#1')	true
do	foreach(L(#0)) ; foreach(L(#2))	do(`pdaaal::priority_set::emplace`, L(#1), val($7), $6)	$8 & has($7) | $9 & has($7)
do	foreach(L(#0)) ; foreach(L(#2))	exit	!$8 & !$9
do	foreach(L(#0))	exit	!$8 & !$9 & !empty(L(#2))
do		do(`pdaaal::PAutomatonProduct::construct_reachable`, self, $10, param(#4), param(#5), param(#6))	$8 | $9 | empty(L(#0)) | empty(L(#2))
dom		init(L(#0), ite([{!$12}, $13, $12, $11[param(#0)]]))	true
dom		init(L(#1)._queue, new(`std::priority_queue`))	true
dom	foreach(L(#0))	init(L(#2), $13)	true
dom		init(L(#1), $10)	true
ret	{!$8 & !$9 & !empty(L(#0)) & !empty(L(#2)) | res(`pdaaal::PAutomatonProduct::construct_reachable`, self, $10, param(#4), param(#5), param(#6))}	true
== PAutomatonProduct::add_edge | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64, u32, u64, std::pair<i::trace_t, u32>, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | false, true, true, TT::Shortest | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 105
let	$1	eq(param(#1), 4294967295)
let	$2	param(#4)._states
let	$3	$2[L(#2)@0.#0']^._edges
let	$4	tuple{#0: $2[L(#0)@0.#0'], #1: param(#5)._states[param(#2)]}
let	$5	self._product._states[L(#2)@0.#1']''^._edges
let	$6	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $4).#1
let	$7	res(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, L(#2)@0.#1', param(#1), $6, L(#0)@0.#1.#1')
let	$8	empty(self._product._accepting'')
let	$9	call(`pdaaal::details::weight_impl::less`, param(#6), call(`pdaaal::internal::PAutomaton::min_accepting_weight`, self._product''))
let	$10	pdaaal::priority_set{_queue: L(#1)._queue', _seen: new(`std::unordered_set`)}
let	$11	self._id_fast_lookup_back
let	$12	lt(param(#0), size($11))
let	$13	new(`std::vector`)
do		do(`push`, L(#2), tuple{#0: param(#0), #1: param(#0)})	lt(param(#0), self._pda_size)
do	foreach(L(#2))	do(`push`, L(#0), tuple{#0: L(#2)@0.#0', #1: param(#3)})	$1
do	foreach(L(#2)) ; foreach($3)	do(`push`, L(#0), tuple{#0: $3@0.#0, #1: tuple{#0: param(#3).#0, #1: call(`pdaaal::details::weight_impl::add`, param(#3).#1, $3@0.#1[param(#1)].#1)}})	!$1 & contains($3@0.#1, param(#1))
do	foreach(L(#2)) ; foreach(L(#0))	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $4)	true
do	foreach(L(#2)) ; foreach(L(#0))	do(`insert`, $5, $6, 4294967295, L(#0)@0.#1')	$1
do	foreach(L(#2)) ; foreach(L(#0))	do(`insert`, $5, $6, param(#1), L(#0)@0.#1')	!$1
do	foreach(L(#2)) ; foreach(L(#0))	do(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, L(#2)@0.#1', param(#1), $6, L(#0)@0.#1.#1')	true
do	foreach(L(#2)) ; foreach(L(#0))	do(`pdaaal::priority_set::emplace`, L(#1), val($7), $6)	$8 & has($7) | $9 & has($7)
do	foreach(L(#2)) ; foreach(L(#0))	exit	!$8 & !$9
do	foreach(L(#2))	exit	!$8 & !$9 & !empty(L(#0))
do		do(`pdaaal::PAutomatonProduct::construct_reachable`, self, $10, param(#4), param(#5), param(#6))	$8 | $9 | empty(L(#0)) | empty(L(#2))
dom		init(L(#2), ite([$12, $11[param(#0)], {!$12}, $13]))	true
dom		init(L(#1)._queue, new(`std::priority_queue`))	true
dom	foreach(L(#2))	init(L(#0), $13)	true
dom		init(L(#1), $10)	true
ret	{!$8 & !$9 & !empty(L(#0)) & !empty(L(#2)) | res(`pdaaal::PAutomatonProduct::construct_reachable`, self, $10, param(#4), param(#5), param(#6))}	true
== PAutomatonProduct::add_edge | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64, u32, u64, std::pair<i::trace_t, u32>, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | true, true, true, TT::Shortest | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 106
let	$1	eq(param(#1), 4294967295)
let	$2	param(#5)._states
let	$3	$2[L(#0)@0.#0']^._edges
let	$4	tuple{#0: param(#4)._states[param(#2)], #1: $2[L(#2)@0.#0']}
let	$5	self._product._states[L(#0)@0.#1']''^._edges
let	$6	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $4).#1
let	$7	res(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, L(#0)@0.#1', param(#1), $6, L(#2)@0.#1.#1')
let	$8	empty(self._product._accepting'')
let	$9	call(`pdaaal::details::weight_impl::less`, param(#6), call(`pdaaal::internal::PAutomaton::min_accepting_weight`, self._product''))
let	$10	pdaaal::priority_set{_queue: L(#1)._queue', _seen: new(`std::unordered_set`)}
let	$11	self._id_fast_lookup
let	$12	lt(param(#0), size($11))
let	$13	new(`std::vector`)
do		do(`push`, L(#0), tuple{#0: param(#0), #1: param(#0)})	lt(param(#0), self._pda_size)
do	foreach(L(#0))	do(`push`, L(#2), tuple{#0: L(#0)@0.#0', #1: param(#3)})	$1
do	foreach(L(#0)) ; foreach($3)	do(`push`, L(#2), tuple{#0: $3@0.#0, #1: tuple{#0: param(#3).#0, #1: call(`pdaaal::details::weight_impl::add`, param(#3).#1, $3@0.#1[param(#1)].#1)}})	!$1 & contains($3@0.#1, param(#1))
do	foreach(L(#0)) ; foreach(L(#2))	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $4)	true
do	foreach(L(#0)) ; foreach(L(#2))	do(`insert`, $5, $6, 4294967295, L(#2)@0.#1')	$1
do	foreach(L(#0)) ; foreach(L(#2))	do(`insert`, $5, $6, param(#1), L(#2)@0.#1')	!$1
do	foreach(L(#0)) ; foreach(L(#2))	do(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, L(#0)@0.#1', param(#1), $6, L(#2)@0.#1.#1')	true
do	foreach(L(#0)) ; foreach(L(#2))	do(`pdaaal::priority_set::emplace`, L(#1), val($7), $6)	$8 & has($7) | $9 & has($7)
do	foreach(L(#0)) ; foreach(L(#2))	exit	!$8 & !$9
do	foreach(L(#0))	exit	!$8 & !$9 & !empty(L(#2))
do		do(`pdaaal::PAutomatonProduct::construct_reachable`, self, $10, param(#4), param(#5), param(#6))	$8 | $9 | empty(L(#0)) | empty(L(#2))
dom		init(L(#0), ite([{!$12}, $13, $12, $11[param(#0)]]))	true
dom		init(L(#1)._queue, new(`std::priority_queue`))	true
dom	foreach(L(#0))	init(L(#2), $13)	true
dom		init(L(#1), $10)	true
ret	{!$8 & !$9 & !empty(L(#0)) & !empty(L(#2)) | res(`pdaaal::PAutomatonProduct::construct_reachable`, self, $10, param(#4), param(#5), param(#6))}	true
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (std::vector<u64> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | false, true, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 89
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (std::vector<u64> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | false, true, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 89
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (std::vector<u64> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | true, true, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 107
let	$1	empty(param(#0)')
let	$2	list(list(true, false))
let	$3	param(#1)._states
let	$4	back(param(#0))'
let	$5	call(`pdaaal::PAutomatonProduct::get_original_ids`, self', $4)
let	$6	$3[$5.#0]^._edges
let	$7	param(#2)._states
let	$8	contains($6@0.#1, 4294967295)
let	$9	self._product._states[$4]''^._edges
let	$10	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$6@0.#0], $7[$5.#1])
let	$11	self._product._accepting'
let	$12	$7[$5.#1]^._edges
let	$13	contains($12@0.#1, 4294967295)
let	$14	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5.#0], $7[$12@0.#0])
let	$15	exists($12, $13)
let	$16	phi(#3, begin($6@0.#1), #0)
let	$17	phi(#3, begin($12@0.#1), #0)
let	$18	eq(end($12@0.#1), $17)
let	$19	exists($2, {!$2@0 & $15 | $2@0 & exists($6, $8)})
let	$20	eq(end($6@0.#1), $16)
let	$21	lt(1, size(L(#0)'))
let	$22	eq(4294967295, back(L(#0)).#0')
let	$23	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$6@0.#0], $7[$12@0.#0])
let	$24	exists($12, {!$22 | $21})
do	loop(#0)	do(`pop`, param(#0))	!$1
do	loop(#0) ; foreach($2) ; foreach($6)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$6@0.#0], $7[$5.#1])	!$1 & $2@0 & $8
do	loop(#0) ; foreach($2) ; foreach($6)	do(`insert`, $9, $10.#1, 4294967295, $6@0.#1[4294967295])	!$1 & $2@0 & $8
do	loop(#0) ; foreach($2) ; foreach($6)	do(`push`, param(#0), $10.#1)	!$1 & $10.#0 & $2@0 & $8 & empty($11')
do	loop(#0) ; foreach($2) ; foreach($6)	exit	!$1 & !empty($11') & $2@0 & $8
do	loop(#0) ; foreach($2) ; foreach($12)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5.#0], $7[$12@0.#0])	!$1 & !$2@0 & $13
do	loop(#0) ; foreach($2) ; foreach($12)	do(`insert`, $9, $14.#1, 4294967295, $12@0.#1[4294967295])	!$1 & !$2@0 & $13
do	loop(#0) ; foreach($2) ; foreach($12)	do(`push`, param(#0), $14.#1)	!$1 & !$2@0 & $13 & $14.#0 & empty($11')
do	loop(#0) ; foreach($2) ; foreach($12)	exit	!$1 & !$2@0 & !empty($11') & $13
do	loop(#0) ; foreach($2)	exit	!$1 & !$2@0 & !empty($11') & $15 | !$1 & !empty($11') & $2@0 & exists($6, $8)
do	loop(#0) ; foreach($6) ; foreach($12) ; loop(#3)	do(`push`, L(#0), pdaaal::fut::vector_map::elem_t{#0: $16^.#0, #1: tuple{#0: $16^.#1.#0, #1: call(`pdaaal::details::weight_impl::add`, $16^.#1.#1, $17^.#1.#1)}})	!$1 & !$18 & !$19 & !$20 & eq($16^.#0, $17^.#0) | !$1 & !$18 & !$20 & empty($11') & eq($16^.#0, $17^.#0)
do	loop(#0) ; foreach($6) ; foreach($12) ; loop(#3)	exit	!$1 & !$19 & $18 | !$1 & !$19 & $20 | !$1 & $18 & empty($11') | !$1 & $20 & empty($11')
do	loop(#0) ; foreach($6) ; foreach($12)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$6@0.#0], $7[$12@0.#0])	!$1 & !$19 & !$22 & !empty(L(#0)') | !$1 & !$19 & !empty(L(#0)') & $21 | !$1 & !$22 & !empty(L(#0)') & empty($11') | !$1 & !empty(L(#0)') & $21 & empty($11')
do	loop(#0) ; foreach($6) ; foreach($12) ; foreach(L(#0))	do(`insert`, $9, $23.#1, L(#0)@0.#0', L(#0)@0.#1')	!$1 & !$19 & !$22 & !eq(L(#0)@0.#0', 4294967295) | !$1 & !$19 & !eq(L(#0)@0.#0', 4294967295) & $21 | !$1 & !$22 & !eq(L(#0)@0.#0', 4294967295) & empty($11') | !$1 & !eq(L(#0)@0.#0', 4294967295) & $21 & empty($11')
do	loop(#0) ; foreach($6) ; foreach($12)	do(`push`, param(#0), $23.#1)	!$1 & !$22 & !empty(L(#0)') & $23.#0 & empty($11') | !$1 & !empty(L(#0)') & $21 & $23.#0 & empty($11')
do	loop(#0) ; foreach($6) ; foreach($12)	exit	!$1 & !$19 & !$22 & !empty($11') & !empty(L(#0)') | !$1 & !$19 & !empty($11') & !empty(L(#0)') & $21
do	loop(#0) ; foreach($6)	exit	!$1 & !$19 & !empty($11') & !empty(L(#0)') & $24
do	loop(#0)	exit	!empty($11') & !empty($6) & !empty(L(#0)') & $24 | !empty($11') & $19 | $1
dom	loop(#0) ; foreach($6) ; foreach($12)	init(L(#0), new(`std::vector`))	true
ret	{!$1 & !empty($11') & exists(loop(#0), {!empty($6) & !empty(L(#0)') & $24 | $19}) | !empty($11)}	true
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (std::vector<u64> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | true, true, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 107
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (std::vector<u64> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | false, false, TT::Any | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 90
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (priority_set<u32, u64, PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single>::queue_elem_comp> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | false, true, TT::Shortest | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 108
let	$1	param(#0)._queue
let	$2	list(list(true, false))
let	$3	param(#1)._states
let	$4	call(`pdaaal::PAutomatonProduct::get_original_ids`, self', top($1).#1')
let	$5	$3[$4.#0]^._edges
let	$6	param(#2)._states
let	$7	contains($5@0.#1, 4294967295)
let	$8	self._product._states[top($1).#1']''^._edges
let	$9	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5@0.#0], $6[$4.#1]).#1
let	$10	$5@0.#1[4294967295]
let	$11	res(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', 4294967295, $9, $10.#1)
let	$12	self._product._accepting'
let	$13	call(`pdaaal::details::weight_impl::less`, param(#3), call(`pdaaal::internal::PAutomaton::min_accepting_weight`, self._product''))
let	$14	$6[$4.#1]^._edges
let	$15	contains($14@0.#1, 4294967295)
let	$16	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$4.#0], $6[$14@0.#0]).#1
let	$17	$14@0.#1[4294967295]
let	$18	res(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', 4294967295, $16, $17.#1)
let	$19	exists($14, $15)
let	$20	exists($2, {!$2@0 & $19 | $2@0 & exists($5, $7)})
let	$21	call(`std::set_intersection`, $5@0.#1, $14@0.#1)
let	$22	lt(1, size($21))
let	$23	eq(4294967295, back(L(#0)).#0)
let	$24	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5@0.#0], $6[$14@0.#0]).#1
let	$25	fun(call(`pdaaal::details::weight_impl::less`, lp(#0, #0).#1.#1, lp(#0, #1).#1.#1), [])
let	$26	call(`std::min_element`, begin(L(#0)), lin(#-1, end(L(#0))), $25)^
let	$27	call(`std::min_element`, begin(L(#0)), end(L(#0)), $25)^
let	$28	res(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', $26.#0, $24, $26.#1.#1)
let	$29	res(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', $27.#0, $24, $27.#1.#1)
let	$30	exists($14, {!$23 & !empty($21) | !empty($21) & $22})
let	$31	exists($5, $30)
do	loop(#0)	do(`pdaaal::priority_set::pop_back`, param(#0))	!empty($1')
do	loop(#0) ; foreach($2) ; foreach($5)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5@0.#0], $6[$4.#1])	!empty($1') & $2@0 & $7
do	loop(#0) ; foreach($2) ; foreach($5)	do(`insert`, $8, $9, 4294967295, $10)	!empty($1') & $2@0 & $7
do	loop(#0) ; foreach($2) ; foreach($5)	do(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', 4294967295, $9, $10.#1)	!empty($1') & $2@0 & $7
do	loop(#0) ; foreach($2) ; foreach($5)	do(`pdaaal::priority_set::emplace`, param(#0), val($11), $9)	!empty($1') & $13 & $2@0 & $7 & has($11) | !empty($1') & $2@0 & $7 & empty($12') & has($11)
do	loop(#0) ; foreach($2) ; foreach($5)	exit	!$13 & !empty($1') & !empty($12') & $2@0 & $7
do	loop(#0) ; foreach($2) ; foreach($14)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$4.#0], $6[$14@0.#0])	!$2@0 & !empty($1') & $15
do	loop(#0) ; foreach($2) ; foreach($14)	do(`insert`, $8, $16, 4294967295, $17)	!$2@0 & !empty($1') & $15
do	loop(#0) ; foreach($2) ; foreach($14)	do(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', 4294967295, $16, $17.#1)	!$2@0 & !empty($1') & $15
do	loop(#0) ; foreach($2) ; foreach($14)	do(`pdaaal::priority_set::emplace`, param(#0), val($18), $16)	!$2@0 & !empty($1') & $13 & $15 & has($18) | !$2@0 & !empty($1') & $15 & empty($12') & has($18)
do	loop(#0) ; foreach($2) ; foreach($14)	exit	!$13 & !$2@0 & !empty($1') & !empty($12') & $15
do	loop(#0) ; foreach($2)	exit	!$13 & !$2@0 & !empty($1') & !empty($12') & $19 | !$13 & !empty($1') & !empty($12') & $2@0 & exists($5, $7)
do	loop(#0) ; foreach($5) ; foreach($14)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5@0.#0], $6[$14@0.#0])	!$20 & !$23 & !empty($1') & !empty($21) | !$20 & !empty($1') & !empty($21) & $22 | !$23 & !empty($1') & !empty($21) & $13 | !$23 & !empty($1') & !empty($21) & empty($12') | !empty($1') & !empty($21) & $13 & $22 | !empty($1') & !empty($21) & $22 & empty($12')
do	loop(#0) ; foreach($5) ; foreach($14) ; foreach(L(#0))	do(`insert`, $8, $24, L(#0)@0.#0, L(#0)@0.#1)	!$20 & !$23 & !empty($1') & !empty($21) & !eq(4294967295, L(#0)@0.#0) | !$20 & !empty($1') & !empty($21) & !eq(4294967295, L(#0)@0.#0) & $22 | !$23 & !empty($1') & !empty($21) & !eq(4294967295, L(#0)@0.#0) & $13 | !$23 & !empty($1') & !empty($21) & !eq(4294967295, L(#0)@0.#0) & empty($12') | !empty($1') & !empty($21) & !eq(4294967295, L(#0)@0.#0) & $13 & $22 | !empty($1') & !empty($21) & !eq(4294967295, L(#0)@0.#0) & $22 & empty($12')
do	loop(#0) ; foreach($5) ; foreach($14)	do(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', $26.#0, $24, $26.#1.#1)	!$20 & !empty($1') & !empty($21) & $22 & $23 | !empty($1') & !empty($21) & $13 & $22 & $23 | !empty($1') & !empty($21) & $22 & $23 & empty($12')
do	loop(#0) ; foreach($5) ; foreach($14)	do(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', $27.#0, $24, $27.#1.#1)	!$20 & !$23 & !empty($1') & !empty($21) | !$23 & !empty($1') & !empty($21) & $13 | !$23 & !empty($1') & !empty($21) & empty($12')
do	loop(#0) ; foreach($5) ; foreach($14)	do(`pdaaal::priority_set::emplace`, param(#0), val($28), $24)	!empty($1') & !empty($21) & $13 & $22 & $23 & has($28) | !empty($1') & !empty($21) & $22 & $23 & empty($12') & has($28)
do	loop(#0) ; foreach($5) ; foreach($14)	do(`pdaaal::priority_set::emplace`, param(#0), val($29), $24)	!$23 & !empty($1') & !empty($21) & $13 & has($29) | !$23 & !empty($1') & !empty($21) & empty($12') & has($29)
do	loop(#0) ; foreach($5) ; foreach($14)	exit	!$13 & !$20 & !$23 & !empty($1') & !empty($12') & !empty($21) | !$13 & !$20 & !empty($1') & !empty($12') & !empty($21) & $22
do	loop(#0) ; foreach($5)	exit	!$13 & !$20 & !empty($1') & !empty($12') & $30
do	loop(#0)	exit	!$13 & !empty($12') & $20 | !$13 & !empty($12') & $31 | empty($1')
dom		init(L(#0), new(`std::vector`))	true
ret	{!$13 & !empty($1') & !empty($12') & exists(loop(#0), {$20 | $31}) | !call(`pdaaal::details::weight_impl::less`, param(#3), call(`pdaaal::internal::PAutomaton::min_accepting_weight`, self._product')) & !empty($12)}	true
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (priority_set<u32, u64, PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single>::queue_elem_comp> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | true, true, TT::Shortest | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 109
let	$1	param(#0)._queue
let	$2	list(list(true, false))
let	$3	param(#1)._states
let	$4	call(`pdaaal::PAutomatonProduct::get_original_ids`, self', top($1).#1')
let	$5	$3[$4.#0]^._edges
let	$6	param(#2)._states
let	$7	contains($5@0.#1, 4294967295)
let	$8	self._product._states[top($1).#1']''^._edges
let	$9	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5@0.#0], $6[$4.#1]).#1
let	$10	$5@0.#1[4294967295]
let	$11	res(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', 4294967295, $9, $10.#1)
let	$12	self._product._accepting'
let	$13	call(`pdaaal::details::weight_impl::less`, param(#3), call(`pdaaal::internal::PAutomaton::min_accepting_weight`, self._product''))
let	$14	$6[$4.#1]^._edges
let	$15	contains($14@0.#1, 4294967295)
let	$16	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$4.#0], $6[$14@0.#0]).#1
let	$17	$14@0.#1[4294967295]
let	$18	res(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', 4294967295, $16, $17.#1)
let	$19	exists($14, $15)
let	$20	phi(#3, begin($5@0.#1), #0)
let	$21	phi(#3, begin($14@0.#1), #0)
let	$22	exists($2, {!$2@0 & $19 | $2@0 & exists($5, $7)})
let	$23	eq(end($14@0.#1), $21)
let	$24	eq(end($5@0.#1), $20)
let	$25	lt(1, size(L(#0)'))
let	$26	eq(4294967295, back(L(#0)).#0')
let	$27	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5@0.#0], $6[$14@0.#0]).#1
let	$28	fun(call(`pdaaal::details::weight_impl::less`, lp(#0, #0).#1.#1, lp(#0, #1).#1.#1), [])
let	$29	call(`std::min_element`, begin(L(#0)), lin(#-1, end(L(#0))), $28)^
let	$30	call(`std::min_element`, begin(L(#0)), end(L(#0)), $28)^
let	$31	res(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', $29.#0, $27, $29.#1.#1)
let	$32	res(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', $30.#0, $27, $30.#1.#1)
let	$33	exists($14, {!$26 | $25})
do	loop(#0)	do(`pdaaal::priority_set::pop_back`, param(#0))	!empty($1')
do	loop(#0) ; foreach($2) ; foreach($5)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5@0.#0], $6[$4.#1])	!empty($1') & $2@0 & $7
do	loop(#0) ; foreach($2) ; foreach($5)	do(`insert`, $8, $9, 4294967295, $10)	!empty($1') & $2@0 & $7
do	loop(#0) ; foreach($2) ; foreach($5)	do(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', 4294967295, $9, $10.#1)	!empty($1') & $2@0 & $7
do	loop(#0) ; foreach($2) ; foreach($5)	do(`pdaaal::priority_set::emplace`, param(#0), val($11), $9)	!empty($1') & $13 & $2@0 & $7 & has($11) | !empty($1') & $2@0 & $7 & empty($12') & has($11)
do	loop(#0) ; foreach($2) ; foreach($5)	exit	!$13 & !empty($1') & !empty($12') & $2@0 & $7
do	loop(#0) ; foreach($2) ; foreach($14)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$4.#0], $6[$14@0.#0])	!$2@0 & !empty($1') & $15
do	loop(#0) ; foreach($2) ; foreach($14)	do(`insert`, $8, $16, 4294967295, $17)	!$2@0 & !empty($1') & $15
do	loop(#0) ; foreach($2) ; foreach($14)	do(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', 4294967295, $16, $17.#1)	!$2@0 & !empty($1') & $15
do	loop(#0) ; foreach($2) ; foreach($14)	do(`pdaaal::priority_set::emplace`, param(#0), val($18), $16)	!$2@0 & !empty($1') & $13 & $15 & has($18) | !$2@0 & !empty($1') & $15 & empty($12') & has($18)
do	loop(#0) ; foreach($2) ; foreach($14)	exit	!$13 & !$2@0 & !empty($1') & !empty($12') & $15
do	loop(#0) ; foreach($2)	exit	!$13 & !$2@0 & !empty($1') & !empty($12') & $19 | !$13 & !empty($1') & !empty($12') & $2@0 & exists($5, $7)
do	loop(#0) ; foreach($5) ; foreach($14) ; loop(#3)	do(`push`, L(#0), pdaaal::fut::vector_map::elem_t{#0: $20^.#0, #1: tuple{#0: $20^.#1.#0, #1: call(`pdaaal::details::weight_impl::add`, $20^.#1.#1, $21^.#1.#1)}})	!$22 & !$23 & !$24 & !empty($1') & eq($20^.#0, $21^.#0) | !$23 & !$24 & !empty($1') & $13 & eq($20^.#0, $21^.#0) | !$23 & !$24 & !empty($1') & empty($12') & eq($20^.#0, $21^.#0)
do	loop(#0) ; foreach($5) ; foreach($14) ; loop(#3)	exit	!$22 & !empty($1') & $23 | !$22 & !empty($1') & $24 | !empty($1') & $13 & $23 | !empty($1') & $13 & $24 | !empty($1') & $23 & empty($12') | !empty($1') & $24 & empty($12')
do	loop(#0) ; foreach($5) ; foreach($14)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5@0.#0], $6[$14@0.#0])	!$22 & !$26 & !empty($1') & !empty(L(#0)') | !$22 & !empty($1') & !empty(L(#0)') & $25 | !$26 & !empty($1') & !empty(L(#0)') & $13 | !$26 & !empty($1') & !empty(L(#0)') & empty($12') | !empty($1') & !empty(L(#0)') & $13 & $25 | !empty($1') & !empty(L(#0)') & $25 & empty($12')
do	loop(#0) ; foreach($5) ; foreach($14) ; foreach(L(#0))	do(`insert`, $8, $27, L(#0)@0.#0', L(#0)@0.#1')	!$22 & !$26 & !empty($1') & !eq(L(#0)@0.#0', 4294967295) | !$22 & !empty($1') & !eq(L(#0)@0.#0', 4294967295) & $25 | !$26 & !empty($1') & !eq(L(#0)@0.#0', 4294967295) & $13 | !$26 & !empty($1') & !eq(L(#0)@0.#0', 4294967295) & empty($12') | !empty($1') & !eq(L(#0)@0.#0', 4294967295) & $13 & $25 | !empty($1') & !eq(L(#0)@0.#0', 4294967295) & $25 & empty($12')
do	loop(#0) ; foreach($5) ; foreach($14)	do(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', $29.#0, $27, $29.#1.#1)	!$22 & !empty($1') & !empty(L(#0)') & $25 & $26 | !empty($1') & !empty(L(#0)') & $13 & $25 & $26 | !empty($1') & !empty(L(#0)') & $25 & $26 & empty($12')
do	loop(#0) ; foreach($5) ; foreach($14)	do(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', $30.#0, $27, $30.#1.#1)	!$22 & !$26 & !empty($1') & !empty(L(#0)') | !$26 & !empty($1') & !empty(L(#0)') & $13 | !$26 & !empty($1') & !empty(L(#0)') & empty($12')
do	loop(#0) ; foreach($5) ; foreach($14)	do(`pdaaal::priority_set::emplace`, param(#0), val($31), $27)	!empty($1') & !empty(L(#0)') & $13 & $25 & $26 & has($31) | !empty($1') & !empty(L(#0)') & $25 & $26 & empty($12') & has($31)
do	loop(#0) ; foreach($5) ; foreach($14)	do(`pdaaal::priority_set::emplace`, param(#0), val($32), $27)	!$26 & !empty($1') & !empty(L(#0)') & $13 & has($32) | !$26 & !empty($1') & !empty(L(#0)') & empty($12') & has($32)
do	loop(#0) ; foreach($5) ; foreach($14)	exit	!$13 & !$22 & !$26 & !empty($1') & !empty($12') & !empty(L(#0)') | !$13 & !$22 & !empty($1') & !empty($12') & !empty(L(#0)') & $25
do	loop(#0) ; foreach($5)	exit	!$13 & !$22 & !empty($1') & !empty($12') & !empty(L(#0)') & $33
do	loop(#0)	exit	!$13 & !empty($12') & !empty($5) & !empty(L(#0)') & $33 | !$13 & !empty($12') & $22 | empty($1')
dom	loop(#0) ; foreach($5) ; foreach($14)	init(L(#0), new(`std::vector`))	true
ret	{!$13 & !empty($1') & !empty($12') & exists(loop(#0), {!empty($5) & !empty(L(#0)') & $33 | $22}) | !call(`pdaaal::details::weight_impl::less`, param(#3), call(`pdaaal::internal::PAutomaton::min_accepting_weight`, self._product')) & !empty($12)}	true
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (priority_set<u32, u64, PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single>::queue_elem_comp> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | false, false, TT::Shortest | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 110
let	$1	param(#0)._queue
let	$2	list(list(true, false))
let	$3	param(#1)._states
let	$4	call(`pdaaal::PAutomatonProduct::get_original_ids`, self', top($1).#1')
let	$5	$3[$4.#0]^._edges
let	$6	param(#2)._states
let	$7	contains($5@0.#1, 4294967295)
let	$8	self._product._states[top($1).#1']''^._edges
let	$9	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5@0.#0], $6[$4.#1]).#1
let	$10	$5@0.#1[4294967295]
let	$11	res(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', 4294967295, $9, $10.#1)
let	$12	$6[$4.#1]^._edges
let	$13	contains($12@0.#1, 4294967295)
let	$14	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$4.#0], $6[$12@0.#0]).#1
let	$15	$12@0.#1[4294967295]
let	$16	res(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', 4294967295, $14, $15.#1)
let	$17	call(`std::set_intersection`, $5@0.#1, $12@0.#1)
let	$18	lt(1, size($17))
let	$19	eq(4294967295, back(L(#0)).#0)
let	$20	res(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5@0.#0], $6[$12@0.#0]).#1
let	$21	fun(call(`pdaaal::details::weight_impl::less`, lp(#0, #0).#1.#1, lp(#0, #1).#1.#1), [])
let	$22	call(`std::min_element`, begin(L(#0)), lin(#-1, end(L(#0))), $21)^
let	$23	call(`std::min_element`, begin(L(#0)), end(L(#0)), $21)^
let	$24	res(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', $22.#0, $20, $22.#1.#1)
let	$25	res(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', $23.#0, $20, $23.#1.#1)
do	loop(#0)	do(`pdaaal::priority_set::pop_back`, param(#0))	!empty($1')
do	loop(#0) ; foreach($2) ; foreach($5)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5@0.#0], $6[$4.#1])	!empty($1') & $2@0 & $7
do	loop(#0) ; foreach($2) ; foreach($5)	do(`insert`, $8, $9, 4294967295, $10)	!empty($1') & $2@0 & $7
do	loop(#0) ; foreach($2) ; foreach($5)	do(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', 4294967295, $9, $10.#1)	!empty($1') & $2@0 & $7
do	loop(#0) ; foreach($2) ; foreach($5)	do(`pdaaal::priority_set::emplace`, param(#0), val($11), $9)	!empty($1') & $2@0 & $7 & has($11)
do	loop(#0) ; foreach($2) ; foreach($12)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$4.#0], $6[$12@0.#0])	!$2@0 & !empty($1') & $13
do	loop(#0) ; foreach($2) ; foreach($12)	do(`insert`, $8, $14, 4294967295, $15)	!$2@0 & !empty($1') & $13
do	loop(#0) ; foreach($2) ; foreach($12)	do(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', 4294967295, $14, $15.#1)	!$2@0 & !empty($1') & $13
do	loop(#0) ; foreach($2) ; foreach($12)	do(`pdaaal::priority_set::emplace`, param(#0), val($16), $14)	!$2@0 & !empty($1') & $13 & has($16)
do	loop(#0) ; foreach($5) ; foreach($12)	do(`pdaaal::PAutomatonProduct::get_product_state`, self, $3[$5@0.#0], $6[$12@0.#0])	!$19 & !empty($1') & !empty($17) | !empty($1') & !empty($17) & $18
do	loop(#0) ; foreach($5) ; foreach($12) ; foreach(L(#0))	do(`insert`, $8, $20, L(#0)@0.#0, L(#0)@0.#1)	!$19 & !empty($1') & !empty($17) & !eq(4294967295, L(#0)@0.#0) | !empty($1') & !empty($17) & !eq(4294967295, L(#0)@0.#0) & $18
do	loop(#0) ; foreach($5) ; foreach($12)	do(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', $22.#0, $20, $22.#1.#1)	!empty($1') & !empty($17) & $18 & $19
do	loop(#0) ; foreach($5) ; foreach($12)	do(`pdaaal::internal::PAutomaton::make_back_edge_shortest`, self._product, top($1).#1', $23.#0, $20, $23.#1.#1)	!$19 & !empty($1') & !empty($17)
do	loop(#0) ; foreach($5) ; foreach($12)	do(`pdaaal::priority_set::emplace`, param(#0), val($24), $20)	!empty($1') & !empty($17) & $18 & $19 & has($24)
do	loop(#0) ; foreach($5) ; foreach($12)	do(`pdaaal::priority_set::emplace`, param(#0), val($25), $20)	!$19 & !empty($1') & !empty($17) & has($25)
do	loop(#0)	exit	empty($1')
dom		init(L(#0), new(`std::vector`))	true
ret	{!call(`pdaaal::details::weight_impl::less`, param(#3), call(`pdaaal::internal::PAutomaton::min_accepting_weight`, self._product')) & !empty(self._product._accepting')}	true
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (std::vector<u64> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const PAutomaton<char, Wu, u64, true, TI::Single> &, const u32 &) | false, false, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 90
== PAutomatonProduct::pair_size_t::to_pair | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single>::pair_size_t | () const |  | std::pair<u64, u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 91
== PAutomatonProduct::get_original_ids | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64) const |  | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single>::pair_size_t
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 92
== PAutomatonProduct::get_original | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64) const | false | u64
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 93
== PAutomatonProduct::get_original | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (u64) const | true | std::pair<u64, u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 94
== PAutomatonProduct::get_product_state | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (std::pair<const i::PAutomaton<Wu, TI::Single>::state_t *, const i::PAutomaton<Wu, TI::Single>::state_t *>) | false | std::pair<bool, u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 95
== PAutomatonProduct::get_product_state | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (std::pair<const i::PAutomaton<Wu, TI::Single>::state_t *, const i::PAutomaton<Wu, TI::Single>::state_t *>) | true | std::pair<bool, u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 95
== PAutomatonProduct::get_product_state | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (const i::PAutomaton<Wu, TI::Single>::state_t *, const i::PAutomaton<Wu, TI::Single>::state_t *) | false | std::pair<bool, u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 96
== PAutomatonProduct::get_product_state | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> | (const i::PAutomaton<Wu, TI::Single>::state_t *, const i::PAutomaton<Wu, TI::Single>::state_t *) | true | std::pair<bool, u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 97
== PAutomatonProduct::PAutomatonProduct | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | (const PDA<char, Wu, fut::vector, u64, true> &, PAutomaton<char, Wu, u64, true, TI::Pair> &&, PAutomaton<char, Wu, u64, true, TI::Pair> &&) |  | void
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 111
let	$1	addrof(param(#0))
let	$2	ctor(`pdaaal::PAutomaton`, param(#1), $1)
let	$3	ctor(`pdaaal::PAutomaton`, param(#2), $1)
let	$4	new(`std::vector`)
do		set(self._pda, $1)	true
do		set(self._pda_size, size($1._states))	true
do		set(self._initial, $2)	true
do		set(self._final, $3)	true
do		set(self._product, ctor(`pdaaal::internal::PAutomaton`, $1, call(`pdaaal::PAutomatonProduct::get_initial_accepting`, $2, $3), true))	true
do		set(self._swap_initial_final, false)	true
do		set(self._id_map, new(`ptrie::set_stable`))	true
do		set(self._id_fast_lookup, $4)	true
do		set(self._id_fast_lookup_back, $4)	true
== PAutomatonProduct::copy | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | () |  | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair>
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 112
ret	ctor(`pdaaal::PAutomatonProduct`, self._pda, self._initial, self._final)	true
== PAutomatonProduct::initialize_product | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | () | false, false, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 100
== PAutomatonProduct::automaton | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | () |  | PAutomaton<char, Wu, u64, true, TI::Pair> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 80
== PAutomatonProduct::automaton | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | () const |  | const PAutomaton<char, Wu, u64, true, TI::Pair> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 80
== PAutomatonProduct::initial_automaton | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | () |  | PAutomaton<char, Wu, u64, true, TI::Pair> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 81
== PAutomatonProduct::final_automaton | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | () |  | PAutomaton<char, Wu, u64, true, TI::Pair> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 82
== PAutomatonProduct::pda | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | () const |  | const PDA<char, Wu, fut::vector, u64, true> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 84
== PAutomatonProduct::enable_pre_star | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | () |  | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 85
== PAutomatonProduct::find_path_fixed_point | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | () const | TT::Longest | std::tuple<AutomatonPath<false>, u32>
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 113
let	$1	fun(call(`pdaaal::PAutomatonProduct::get_original_ids`, self, lp(#0, #0)).#0, [])
let	$2	18446744073709551615
let	$3	L(#0)._min_accepting_state
let	$4	L(#0)._states[$3'].weight''
let	$5	eq(4294967294, $4)
let	$6	ctor(`pdaaal::internal::PAutomatonFixedPoint`, self._product)
let	$7	L(#0)._next_workset
do		do(`pdaaal::fixed_point_workset::run`, L(#0))	true
do		do(`pdaaal::internal::PAutomatonFixedPoint::get_path_with_loop`, L(#0), $1)	!eq($2, $3') & $5
dom		init(L(#0)._done, $6._done)	true
dom		init($3, $6._min_accepting_state)	true
dom		init($7, $6._next_workset)	true
dom		init(L(#0)._rounds, $6._rounds)	true
dom		init(L(#0)._states, $6._states)	true
dom		init(L(#0)._workset, $6._workset)	true
ret	tuple{#0: call(`pdaaal::internal::PAutomatonFixedPoint::get_path`, upd(upd(upd(upd(upd(upd($6, `_done`, L(#0)._done'), `_min_accepting_state`, $3'), `_next_workset`, $7'), `_rounds`, L(#0)._rounds'), `_states`, L(#0)._states'), `_workset`, L(#0)._workset'), $1), #1: $4}	!$5 & !eq($2, $3')
ret	tuple{#0: res(`pdaaal::internal::PAutomatonFixedPoint::get_path_with_loop`, L(#0), $1), #1: 4294967294}	!eq($2, $3') & $5
ret	tuple{#0: pdaaal::AutomatonPath{_edges: new(`std::vector`), _end: $2}, #1: 4294967295}	eq($2, $3')
== PAutomatonProduct::find_path_fixed_point | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | () const | TT::ShortestFixedPoint | std::tuple<AutomatonPath<false>, u32>
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 114
let	$1	fun(call(`pdaaal::PAutomatonProduct::get_original_ids`, self, lp(#0, #0)).#0, [])
let	$2	L(#0)._min_accepting_state
let	$3	L(#0)._states[$2'].weight''
let	$4	18446744073709551615
let	$5	ctor(`pdaaal::internal::PAutomatonFixedPoint`, self._product)
let	$6	L(#0)._next_workset
do		do(`pdaaal::fixed_point_workset::run`, L(#0))	true
do		do(`pdaaal::internal::PAutomatonFixedPoint::get_path_with_loop`, L(#0), $1)	!eq($4, $2') & eq(0, $3)
dom		init(L(#0)._done, $5._done)	true
dom		init($2, $5._min_accepting_state)	true
dom		init($6, $5._next_workset)	true
dom		init(L(#0)._rounds, $5._rounds)	true
dom		init(L(#0)._states, $5._states)	true
dom		init(L(#0)._workset, $5._workset)	true
ret	tuple{#0: call(`pdaaal::internal::PAutomatonFixedPoint::get_path`, upd(upd(upd(upd(upd(upd($5, `_done`, L(#0)._done'), `_min_accepting_state`, $2'), `_next_workset`, $6'), `_rounds`, L(#0)._rounds'), `_states`, L(#0)._states'), `_workset`, L(#0)._workset'), $1), #1: $3}	!eq($4, $2') & !eq(0, $3)
ret	tuple{#0: res(`pdaaal::internal::PAutomatonFixedPoint::get_path_with_loop`, L(#0), $1), #1: 0}	!eq($4, $2') & eq(0, $3)
ret	tuple{#0: pdaaal::AutomatonPath{_edges: new(`std::vector`), _end: $4}, #1: 4294967295}	eq($4, $2')
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | (std::vector<u64> &, const PAutomaton<char, Wu, u64, true, TI::Pair> &, const PAutomaton<char, Wu, u64, true, TI::Pair> &, const u32 &) | false, false, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 90
== PAutomatonProduct::get_initial_accepting | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | (const PAutomaton<char, Wu, u64, true, TI::Pair> &, const PAutomaton<char, Wu, u64, true, TI::Pair> &) |  | std::vector<u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 115
let	$1	param(#0)._pda._states
do	foreach($1)	do(`push`, L(#0), ix($1, #0))	param(#0)._states[ix($1, #0)]^._accepting & param(#1)._states[ix($1, #0)]^._accepting
dom		init(L(#0), new(`std::vector`))	true
ret	L(#0)'	true
== PAutomatonProduct::get_original_ids | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | (u64) const |  | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair>::pair_size_t
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 92
== PAutomatonProduct::get_product_state | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | (const i::PAutomaton<Wu, TI::Pair>::state_t *, const i::PAutomaton<Wu, TI::Pair>::state_t *) | false | std::pair<bool, u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 96
== PAutomatonProduct::PAutomatonProduct | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | (const PDA<char, Wi, fut::vector, u64, true> &, PAutomaton<char, Wi, u64, true, TI::Pair> &&, PAutomaton<char, Wi, u64, true, TI::Pair> &&) |  | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 111
== PAutomatonProduct::copy | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | () |  | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 112
== PAutomatonProduct::initialize_product | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | () | false, false, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 100
== PAutomatonProduct::automaton | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | () |  | PAutomaton<char, Wi, u64, true, TI::Pair> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 80
== PAutomatonProduct::automaton | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | () const |  | const PAutomaton<char, Wi, u64, true, TI::Pair> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 80
== PAutomatonProduct::initial_automaton | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | () |  | PAutomaton<char, Wi, u64, true, TI::Pair> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 81
== PAutomatonProduct::final_automaton | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | () |  | PAutomaton<char, Wi, u64, true, TI::Pair> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 82
== PAutomatonProduct::pda | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | () const |  | const PDA<char, Wi, fut::vector, u64, true> &
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 84
== PAutomatonProduct::enable_pre_star | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | () |  | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 85
== PAutomatonProduct::find_path_fixed_point | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | () const | TT::Longest | std::tuple<AutomatonPath<false>, int>
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 116
let	$1	fun(call(`pdaaal::PAutomatonProduct::get_original_ids`, self, lp(#0, #0)).#0, [])
let	$2	18446744073709551615
let	$3	L(#0)._min_accepting_state
let	$4	L(#0)._states[$3'].weight''
let	$5	eq($4, 2147483647)
let	$6	ctor(`pdaaal::internal::PAutomatonFixedPoint`, self._product)
let	$7	L(#0)._next_workset
do		do(`pdaaal::fixed_point_workset::run`, L(#0))	true
do		do(`pdaaal::internal::PAutomatonFixedPoint::get_path_with_loop`, L(#0), $1)	!eq($2, $3') & $5
dom		init(L(#0)._done, $6._done)	true
dom		init($3, $6._min_accepting_state)	true
dom		init($7, $6._next_workset)	true
dom		init(L(#0)._rounds, $6._rounds)	true
dom		init(L(#0)._states, $6._states)	true
dom		init(L(#0)._workset, $6._workset)	true
ret	tuple{#0: call(`pdaaal::internal::PAutomatonFixedPoint::get_path`, upd(upd(upd(upd(upd(upd($6, `_done`, L(#0)._done'), `_min_accepting_state`, $3'), `_next_workset`, $7'), `_rounds`, L(#0)._rounds'), `_states`, L(#0)._states'), `_workset`, L(#0)._workset'), $1), #1: $4}	!$5 & !eq($2, $3')
ret	tuple{#0: res(`pdaaal::internal::PAutomatonFixedPoint::get_path_with_loop`, L(#0), $1), #1: 2147483647}	!eq($2, $3') & $5
ret	tuple{#0: pdaaal::AutomatonPath{_edges: new(`std::vector`), _end: $2}, #1: -2147483648}	eq($2, $3')
== PAutomatonProduct::find_path_fixed_point | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | () const | TT::ShortestFixedPoint | std::tuple<AutomatonPath<false>, int>
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 117
let	$1	fun(call(`pdaaal::PAutomatonProduct::get_original_ids`, self, lp(#0, #0)).#0, [])
let	$2	18446744073709551615
let	$3	L(#0)._min_accepting_state
let	$4	L(#0)._states[$3'].weight''
let	$5	eq($4, -2147483648)
let	$6	ctor(`pdaaal::internal::PAutomatonFixedPoint`, self._product)
let	$7	L(#0)._next_workset
do		do(`pdaaal::fixed_point_workset::run`, L(#0))	true
do		do(`pdaaal::internal::PAutomatonFixedPoint::get_path_with_loop`, L(#0), $1)	!eq($2, $3') & $5
dom		init(L(#0)._done, $6._done)	true
dom		init($3, $6._min_accepting_state)	true
dom		init($7, $6._next_workset)	true
dom		init(L(#0)._rounds, $6._rounds)	true
dom		init(L(#0)._states, $6._states)	true
dom		init(L(#0)._workset, $6._workset)	true
ret	tuple{#0: call(`pdaaal::internal::PAutomatonFixedPoint::get_path`, upd(upd(upd(upd(upd(upd($6, `_done`, L(#0)._done'), `_min_accepting_state`, $3'), `_next_workset`, $7'), `_rounds`, L(#0)._rounds'), `_states`, L(#0)._states'), `_workset`, L(#0)._workset'), $1), #1: $4}	!$5 & !eq($2, $3')
ret	tuple{#0: res(`pdaaal::internal::PAutomatonFixedPoint::get_path_with_loop`, L(#0), $1), #1: -2147483648}	!eq($2, $3') & $5
ret	tuple{#0: pdaaal::AutomatonPath{_edges: new(`std::vector`), _end: $2}, #1: 2147483647}	eq($2, $3')
== PAutomatonProduct::construct_reachable | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | (std::vector<u64> &, const PAutomaton<char, Wi, u64, true, TI::Pair> &, const PAutomaton<char, Wi, u64, true, TI::Pair> &, const int &) | false, false, TT::None | bool
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 90
== PAutomatonProduct::get_initial_accepting | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | (const PAutomaton<char, Wi, u64, true, TI::Pair> &, const PAutomaton<char, Wi, u64, true, TI::Pair> &) |  | std::vector<u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 115
== PAutomatonProduct::get_original_ids | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | (u64) const |  | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair>::pair_size_t
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 92
== PAutomatonProduct::get_product_state | PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | (const i::PAutomaton<Wi, TI::Pair>::state_t *, const i::PAutomaton<Wi, TI::Pair>::state_t *) | false | std::pair<bool, u64>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 96
== PAutomatonProduct::PAutomatonProduct | PAutomatonProduct<PDA<std::string, W0, fut::vector, std::string, false>, PAutomaton<std::string, W0, std::string, false, TI::Single>, W0, TI::Single> | (PAutomatonProduct<PDA<std::string, W0, fut::vector, std::string, false>, PAutomaton<std::string, W0, std::string, false, TI::Single>, W0, TI::Single> &&, const PDA<std::string, W0, fut::vector, std::string, false> &) |  | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 99
== SolverInstance::SolverInstance | SolverInstance<std::string, W0, std::string, false, TI::Single> | (SolverInstance<std::string, W0, std::string, false, TI::Single> &&) |  | void
-- file: include/pdaaal/SolverInstance.h
-- id: 118
do		set(self._pda, param(#0)._pda)	true
do		set(self._product, ctor(`pdaaal::PAutomatonProduct`, param(#0)._product, param(#0)._pda))	true
== SolverInstance::get | SolverInstance<std::string, W0, std::string, false, TI::Single> | () |  | PAutomatonProduct<PDA<std::string, W0, fut::vector, std::string, false>, PAutomaton<std::string, W0, std::string, false, TI::Single>, W0, TI::Single> &
-- file: include/pdaaal/SolverInstance.h
-- id: 119
ret	self._product	true
== SolverInstance::SolverInstance | SolverInstance<char, Wu, u64, true, TI::Single> | (SolverInstance<char, Wu, u64, true, TI::Single> &&) |  | void
-- file: include/pdaaal/SolverInstance.h
-- same: 118
== SolverInstance::get | SolverInstance<char, Wu, u64, true, TI::Single> | () |  | PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &
-- file: include/pdaaal/SolverInstance.h
-- same: 119
== SolverInstance::SolverInstance | SolverInstance<char, W0, u64, true, TI::Single> | (PDA<char, W0, fut::vector, u64, true> &&, const NFA<char> &, const std::vector<u64> &, const NFA<char> &, const std::vector<u64> &) |  | void
-- file: include/pdaaal/SolverInstance.h
-- id: 120
do		set(self._pda, param(#0))	true
do		set(self._product, ctor(`pdaaal::PAutomatonProduct`, param(#0), param(#1), param(#2), param(#3), param(#4)))	true
== i::PreStarFixedPointSaturation::PreStarFixedPointSaturation | i::PreStarFixedPointSaturation<Wi, TT::Longest> | (i::PAutomaton<Wi, TI::Pair> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 121
let	$1	self._round_limit
let	$2	new(`std::vector`)
let	$3	self._automaton
let	$4	addrof(param(#0))
let	$5	self._pda_states
let	$6	addrof($3._pda._states)
let	$7	size($4._states)
let	$8	call(`pdaaal::internal::PDA::number_of_labels`, $4._pda)
let	$9	ctor(`std::vector`, $7)
let	$10	self._added_pop
let	$11	self._count_transitions
let	$12	foreach($3._states)
let	$13	$3._states@0'^._edges
let	$14	foreach($13@0.#1)
let	$15	$3._states@0'^._id'
let	$16	set($11, lin(#1, $11'))
let	$17	$3._states@0^._id'
let	$18	$3._states@0^._accepting'
let	$19	lt($17, size($6))
let	$20	$5[$17]._pre_states
let	$21	$5[$20@0]._rules
let	$22	range(call(`std::lower_bound`, begin($21), end($21), $17, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($21))
let	$23	foreach(range(0, $8))
let	$24	$3._states[$20@0]^._edges
let	$25	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: lin(#0, mul(#-1, begin($21)), $22@0), _state: 18446744073709551615}
let	$26	$22@0^.#0._weight
let	$27	tuple{#0: tuple{#0: $25, #1: $25}, #1: $26}
let	$28	eq($22@0^.#0._operation, enum(`pdaaal::POP`, `pdaaal::op_t`))
let	$29	$22@0^.#1._wildcard
let	$30	eq($22@0^.#0._to, $17)
let	$31	self._rel[$20@0]
let	$32	contains($24', $17, range(0, $8)@0)
let	$33	$24[$17, range(0, $8)@0]
let	$34	call(`pdaaal::details::weight_impl::less`, $26, $33.#1'')
let	$35	set($1, lin(#1, $11'))
let	$36	$22@0^.#1._labels
let	$37	contains($24', $17, $36@0)
let	$38	$24[$17, $36@0]
let	$39	call(`pdaaal::details::weight_impl::less`, $26, $38.#1'')
do		set(self._done, false)	true
do		set($1, fcast(`unsigned long`, times(fcast(`double`, call(`pdaaal::internal::PDA::number_of_labels`, param(#0)._pda)), call(`std::pow`, size(param(#0)._states), 2))))	true
do		set(self._rounds, 0)	true
do		set(self._workset, $2)	true
do		set(self._next_workset, $2)	true
do		set($3, $4)	true
do		set($5, $6)	true
do		set(self._n_automaton_states, $7)	true
do		set(self._n_pda_states, size($6))	true
do		set(self._n_pda_labels, $8)	true
do		set(self._rel, $9)	true
do		set(self._delta_prime, $9)	true
do		set($10, ctor(`std::vector`, size($6)))	true
do		set($11, 0)	true
do	$12 ; foreach($13) ; $14	do(`push`, self._rel[$15], tuple{#0: $13@0.#0', #1: $13@0.#1@0.#0'})	true
do	$12 ; foreach($13) ; $14	do(`pdaaal::fixed_point_workset::emplace`, self, $15, $13@0.#1@0.#0', $13@0.#0')	true
do	$12 ; foreach($13) ; $14	$16	true
do	$12	set($10[$17], true)	!$10[$17]' & $18 & $19
do	$12 ; foreach($20) ; foreach($22) ; $23	do(`insert`, $24, $17, range(0, $8)@0, $27)	!$10[$17]' & $18 & $19 & $28 & $29 & $30
do	$12 ; foreach($20) ; foreach($22) ; $23	do(`push`, $31, tuple{#0: $17, #1: range(0, $8)@0})	!$10[$17]' & !$32 & $18 & $19 & $28 & $29 & $30
do	$12 ; foreach($20) ; foreach($22) ; $23	do(`pdaaal::fixed_point_workset::emplace`, self, $20@0, range(0, $8)@0, $17)	!$10[$17]' & !$32 & $18 & $19 & $28 & $29 & $30 | !$10[$17]' & $18 & $19 & $28 & $29 & $30 & $34
do	$12 ; foreach($20) ; foreach($22) ; $23	$16	!$10[$17]' & !$32 & $18 & $19 & $28 & $29 & $30
do	$12 ; foreach($20) ; foreach($22) ; $23	$35	!$10[$17]' & !$32 & $18 & $19 & $28 & $29 & $30
do	$12 ; foreach($20) ; foreach($22) ; $23	set($33.#0.#1, $25)	!$10[$17]' & $18 & $19 & $28 & $29 & $30 & $32 & $34
do	$12 ; foreach($20) ; foreach($22) ; $23	set($33.#1, $26)	!$10[$17]' & $18 & $19 & $28 & $29 & $30 & $32 & $34
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	do(`insert`, $24, $17, $36@0, $27)	!$10[$17]' & !$29 & $18 & $19 & $28 & $30
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	do(`push`, $31, tuple{#0: $17, #1: $36@0})	!$10[$17]' & !$29 & !$37 & $18 & $19 & $28 & $30
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	do(`pdaaal::fixed_point_workset::emplace`, self, $20@0, $36@0, $17)	!$10[$17]' & !$29 & !$37 & $18 & $19 & $28 & $30 | !$10[$17]' & !$29 & $18 & $19 & $28 & $30 & $39
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	$16	!$10[$17]' & !$29 & !$37 & $18 & $19 & $28 & $30
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	$35	!$10[$17]' & !$29 & !$37 & $18 & $19 & $28 & $30
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	set($38.#0.#1, $25)	!$10[$17]' & !$29 & $18 & $19 & $28 & $30 & $37 & $39
do	$12 ; foreach($20) ; foreach($22) ; foreach($36)	set($38.#1, $26)	!$10[$17]' & !$29 & $18 & $19 & $28 & $30 & $37 & $39
do	$12 ; foreach($20) ; foreach($22)	exit	!$10[$17]' & !$30 & $18 & $19
do		set($1, $11'')	true
== i::PreStarFixedPointSaturation::step_with | i::PreStarFixedPointSaturation<Wi, TT::Longest> | (i::temp_edge_t &&) | false | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 122
let	$1	self._delta_prime
let	$2	param(#0)._from
let	$3	foreach($1[$2])
let	$4	self._automaton._states
let	$5	$4[$1[$2]@0.#0]^._edges
let	$6	param(#0)._label
let	$7	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $1[$2]@0.#1, _state: $2}
let	$8	tuple{#0: $7, #1: $7}
let	$9	self._pda_states
let	$10	$9[$1[$2]@0.#0]._rules[$1[$2]@0.#1]
let	$11	$4[$10.#0._to]^._edges
let	$12	$10.#0._op_label
let	$13	call(`pdaaal::details::weight_impl::add`, $10.#0._weight, $11[$2, $12].#1')
let	$14	$4[$2]^._edges[param(#0)._to, $6].#1
let	$15	call(`pdaaal::details::weight_impl::add`, $13, $14)
let	$16	contains($4[$2]^._edges, param(#0)._to, $6)
let	$17	call(`pdaaal::internal::labels_t::contains`, $10.#1, $6)
let	$18	contains($11', $2, $12)
let	$19	call(`pdaaal::details::weight_impl::add`, $13, 0^.#1)
let	$20	call(`pdaaal::details::weight_impl::add`, $10.#0._weight, 0^.#1)
let	$21	call(`pdaaal::details::weight_impl::add`, $20, $14)
let	$22	call(`pdaaal::details::weight_impl::add`, $20, 0^.#1)
let	$23	tuple{#0: param(#0)._to, #1: $6}
let	$24	contains($5', param(#0)._to, $6)
let	$25	$5[param(#0)._to, $6]
let	$26	call(`pdaaal::details::weight_impl::less`, $22, $25.#1'')
let	$27	call(`pdaaal::details::weight_impl::less`, $19, $25.#1'')
let	$28	call(`pdaaal::details::weight_impl::less`, $21, $25.#1'')
let	$29	call(`pdaaal::details::weight_impl::less`, $15, $25.#1'')
let	$30	self._count_transitions
let	$31	set($30, lin(#1, $30'))
let	$32	set(self._round_limit, lin(#1, $30'))
let	$33	$9[$2]._pre_states
let	$34	$9[$33@0]._rules
let	$35	range(call(`std::lower_bound`, begin($34), end($34), $2, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($34))
let	$36	range(0, self._n_pda_labels)
let	$37	$4[$33@0]^._edges
let	$38	lin(#0, $35@0, mul(#-1, begin($34)))
let	$39	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $38, _state: 18446744073709551615}
let	$40	tuple{#0: $39, #1: $39}
let	$41	$35@0^.#0._weight
let	$42	tuple{#0: $40, #1: $41}
let	$43	$35@0^.#0._operation
let	$44	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $43)
let	$45	self._added_pop[$2]
let	$46	lt($2, self._n_pda_states)
let	$47	$35@0^.#1._wildcard
let	$48	eq($35@0^.#0._to, $2)
let	$49	self._rel[$33@0]
let	$50	contains($37', $2, $36@0)
let	$51	$37[$2, $36@0].#1
let	$52	call(`pdaaal::details::weight_impl::less`, $41, $51'')
let	$53	eq($6, $35@0^.#0._op_label)
let	$54	contains($37', param(#0)._to, $36@0)
let	$55	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $43)
let	$56	$35@0^.#1._labels
let	$57	contains($37', $2, $56@0)
let	$58	$37[$2, $56@0].#1
let	$59	call(`pdaaal::details::weight_impl::less`, $41, $58'')
let	$60	contains($37', param(#0)._to, $56@0)
let	$61	call(`pdaaal::details::weight_impl::add`, $41, $14)
let	$62	tuple{#0: $40, #1: $61}
let	$63	call(`pdaaal::details::weight_impl::add`, $41, 0^.#1)
let	$64	tuple{#0: $40, #1: $63}
let	$65	$37[param(#0)._to, $36@0]
let	$66	call(`pdaaal::details::weight_impl::less`, $63, $65.#1'')
let	$67	call(`pdaaal::details::weight_impl::less`, $61, $65.#1'')
let	$68	$37[param(#0)._to, $56@0]
let	$69	call(`pdaaal::details::weight_impl::less`, $61, $68.#1'')
let	$70	call(`pdaaal::details::weight_impl::less`, $63, $68.#1'')
let	$71	call(`pdaaal::internal::labels_t::contains`, $35@0^.#1, $6)
let	$72	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $43)
let	$73	contains($37', param(#0)._to, $6)
let	$74	$37[param(#0)._to, $6]
let	$75	call(`pdaaal::details::weight_impl::less`, $61, $74.#1'')
let	$76	call(`pdaaal::details::weight_impl::less`, $63, $74.#1'')
let	$77	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $43)
let	$78	self._rel[param(#0)._to]
let	$79	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $38, _state: param(#0)._to}
let	$80	tuple{#0: $79, #1: $79}
let	$81	$4[param(#0)._to]^._edges
let	$82	$81[$78@0.#0', $78@0.#1'].#1'
let	$83	call(`pdaaal::details::weight_impl::add`, $61, $82)
let	$84	call(`pdaaal::internal::labels_t::contains`, $35@0^.#1, $78@0.#1')
let	$85	contains($81', $78@0.#0', $78@0.#1')
let	$86	call(`pdaaal::details::weight_impl::add`, $61, 0^.#1)
let	$87	call(`pdaaal::details::weight_impl::add`, $63, $82)
let	$88	call(`pdaaal::details::weight_impl::add`, $63, 0^.#1)
let	$89	contains($37', $78@0.#0', $78@0.#1')
let	$90	$37[$78@0.#0', $78@0.#1']
let	$91	call(`pdaaal::details::weight_impl::less`, $88, $90.#1'')
let	$92	call(`pdaaal::details::weight_impl::less`, $86, $90.#1'')
let	$93	call(`pdaaal::details::weight_impl::less`, $87, $90.#1'')
let	$94	call(`pdaaal::details::weight_impl::less`, $83, $90.#1'')
do	$3	do(`insert`, $5, param(#0)._to, $6, tuple{#0: $8, #1: $15})	$16 & $17 & $18
do	$3	do(`insert`, $5, param(#0)._to, $6, tuple{#0: $8, #1: $19})	!$16 & $17 & $18
do	$3	do(`insert`, $5, param(#0)._to, $6, tuple{#0: $8, #1: $21})	!$18 & $16 & $17
do	$3	do(`insert`, $5, param(#0)._to, $6, tuple{#0: $8, #1: $22})	!$16 & !$18 & $17
do	$3	do(`push`, self._rel[$1[$2]@0.#0], $23)	!$24 & $17
do	$3	do(`pdaaal::fixed_point_workset::emplace`, self, $1[$2]@0.#0, $6, param(#0)._to)	!$16 & !$18 & $17 & $26 | !$16 & $17 & $18 & $27 | !$18 & $16 & $17 & $28 | !$24 & $17 | $16 & $17 & $18 & $29
do	$3	$31	!$24 & $17
do	$3	$32	!$24 & $17
do	$3	set($25.#0.#1, $7)	!$16 & !$18 & $17 & $24 & $26 | !$16 & $17 & $18 & $24 & $27 | !$18 & $16 & $17 & $24 & $28 | $16 & $17 & $18 & $24 & $29
do	$3	set($25.#1, $15)	$16 & $17 & $18 & $24 & $29
do	$3	set($25.#1, $19)	!$16 & $17 & $18 & $24 & $27
do	$3	set($25.#1, $21)	!$18 & $16 & $17 & $24 & $28
do	$3	set($25.#1, $22)	!$16 & !$18 & $17 & $24 & $26
do	foreach($33) ; foreach($35) ; foreach($36)	do(`insert`, $37, $2, $36@0, $42)	!$45 & $44 & $46 & $47 & $48
do	foreach($33) ; foreach($35) ; foreach($36)	do(`push`, $49, tuple{#0: $2, #1: $36@0})	!$45 & !$50 & $44 & $46 & $47 & $48
do	foreach($33) ; foreach($35) ; foreach($36)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $36@0, $2)	!$45 & !$50 & $44 & $46 & $47 & $48 | !$45 & $44 & $46 & $47 & $48 & $52
dom	foreach($33) ; foreach($35) ; foreach($36)	$31	!$45 & !$50 & $44 & $46 & $47 & $48 | !$54 & $46 & $47 & $48 & $53 & $55
dom	foreach($33) ; foreach($35) ; foreach($36)	$32	!$45 & !$50 & $44 & $46 & $47 & $48 | !$54 & $46 & $47 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($36)	set($37[$2, $36@0].#0.#1, $39)	!$45 & $44 & $46 & $47 & $48 & $50 & $52
do	foreach($33) ; foreach($35) ; foreach($36)	set($51, $41)	!$45 & $44 & $46 & $47 & $48 & $50 & $52
do	foreach($33) ; foreach($35) ; foreach($56)	do(`insert`, $37, $2, $56@0, $42)	!$45 & !$47 & $44 & $46 & $48
do	foreach($33) ; foreach($35) ; foreach($56)	do(`push`, $49, tuple{#0: $2, #1: $56@0})	!$45 & !$47 & !$57 & $44 & $46 & $48
do	foreach($33) ; foreach($35) ; foreach($56)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $56@0, $2)	!$45 & !$47 & !$57 & $44 & $46 & $48 | !$45 & !$47 & $44 & $46 & $48 & $59
dom	foreach($33) ; foreach($35) ; foreach($56)	$31	!$45 & !$47 & !$57 & $44 & $46 & $48 | !$47 & !$60 & $46 & $48 & $53 & $55
dom	foreach($33) ; foreach($35) ; foreach($56)	$32	!$45 & !$47 & !$57 & $44 & $46 & $48 | !$47 & !$60 & $46 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($56)	set($37[$2, $56@0].#0.#1, $39)	!$45 & !$47 & $44 & $46 & $48 & $57 & $59
do	foreach($33) ; foreach($35) ; foreach($56)	set($58, $41)	!$45 & !$47 & $44 & $46 & $48 & $57 & $59
do	foreach($33) ; foreach($35) ; foreach($36)	do(`insert`, $37, param(#0)._to, $36@0, $62)	$16 & $46 & $47 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($36)	do(`insert`, $37, param(#0)._to, $36@0, $64)	!$16 & $46 & $47 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($36)	do(`push`, $49, tuple{#0: param(#0)._to, #1: $36@0})	!$54 & $46 & $47 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($36)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $36@0, param(#0)._to)	!$16 & $46 & $47 & $48 & $53 & $55 & $66 | !$54 & $46 & $47 & $48 & $53 & $55 | $16 & $46 & $47 & $48 & $53 & $55 & $67
do	foreach($33) ; foreach($35) ; foreach($36)	set($65.#0.#1, $39)	!$16 & $46 & $47 & $48 & $53 & $54 & $55 & $66 | $16 & $46 & $47 & $48 & $53 & $54 & $55 & $67
do	foreach($33) ; foreach($35) ; foreach($36)	set($65.#1, $61)	$16 & $46 & $47 & $48 & $53 & $54 & $55 & $67
do	foreach($33) ; foreach($35) ; foreach($36)	set($65.#1, $63)	!$16 & $46 & $47 & $48 & $53 & $54 & $55 & $66
do	foreach($33) ; foreach($35) ; foreach($56)	do(`insert`, $37, param(#0)._to, $56@0, $62)	!$47 & $16 & $46 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($56)	do(`insert`, $37, param(#0)._to, $56@0, $64)	!$16 & !$47 & $46 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($56)	do(`push`, $49, tuple{#0: param(#0)._to, #1: $56@0})	!$47 & !$60 & $46 & $48 & $53 & $55
do	foreach($33) ; foreach($35) ; foreach($56)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $56@0, param(#0)._to)	!$16 & !$47 & $46 & $48 & $53 & $55 & $70 | !$47 & !$60 & $46 & $48 & $53 & $55 | !$47 & $16 & $46 & $48 & $53 & $55 & $69
do	foreach($33) ; foreach($35) ; foreach($56)	set($68.#0.#1, $39)	!$16 & !$47 & $46 & $48 & $53 & $55 & $60 & $70 | !$47 & $16 & $46 & $48 & $53 & $55 & $60 & $69
do	foreach($33) ; foreach($35) ; foreach($56)	set($68.#1, $61)	!$47 & $16 & $46 & $48 & $53 & $55 & $60 & $69
do	foreach($33) ; foreach($35) ; foreach($56)	set($68.#1, $63)	!$16 & !$47 & $46 & $48 & $53 & $55 & $60 & $70
do	foreach($33) ; foreach($35)	do(`insert`, $37, param(#0)._to, $6, $62)	$16 & $46 & $48 & $71 & $72
do	foreach($33) ; foreach($35)	do(`insert`, $37, param(#0)._to, $6, $64)	!$16 & $46 & $48 & $71 & $72
do	foreach($33) ; foreach($35)	do(`push`, $49, $23)	!$73 & $46 & $48 & $71 & $72
do	foreach($33) ; foreach($35)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $6, param(#0)._to)	!$16 & $46 & $48 & $71 & $72 & $76 | !$73 & $46 & $48 & $71 & $72 | $16 & $46 & $48 & $71 & $72 & $75
do	foreach($33) ; foreach($35)	do(`insert`, $1[param(#0)._to], tuple{#0: $33@0, #1: $38})	$46 & $48 & $53 & $77
do	foreach($33) ; foreach($35)	$31	!$73 & $46 & $48 & $71 & $72
do	foreach($33) ; foreach($35)	$32	!$73 & $46 & $48 & $71 & $72
do	foreach($33) ; foreach($35)	set($74.#0.#1, $39)	!$16 & $46 & $48 & $71 & $72 & $73 & $76 | $16 & $46 & $48 & $71 & $72 & $73 & $75
do	foreach($33) ; foreach($35)	set($74.#1, $61)	$16 & $46 & $48 & $71 & $72 & $73 & $75
do	foreach($33) ; foreach($35)	set($74.#1, $63)	!$16 & $46 & $48 & $71 & $72 & $73 & $76
do	foreach($33) ; foreach($35) ; foreach($78)	do(`insert`, $37, $78@0.#0', $78@0.#1', tuple{#0: $80, #1: $83})	$16 & $46 & $48 & $53 & $77 & $84 & $85
do	foreach($33) ; foreach($35) ; foreach($78)	do(`insert`, $37, $78@0.#0', $78@0.#1', tuple{#0: $80, #1: $86})	!$85 & $16 & $46 & $48 & $53 & $77 & $84
do	foreach($33) ; foreach($35) ; foreach($78)	do(`insert`, $37, $78@0.#0', $78@0.#1', tuple{#0: $80, #1: $87})	!$16 & $46 & $48 & $53 & $77 & $84 & $85
do	foreach($33) ; foreach($35) ; foreach($78)	do(`insert`, $37, $78@0.#0', $78@0.#1', tuple{#0: $80, #1: $88})	!$16 & !$85 & $46 & $48 & $53 & $77 & $84
do	foreach($33) ; foreach($35) ; foreach($78)	do(`push`, $49, tuple{#0: $78@0.#0', #1: $78@0.#1'})	!$89 & $46 & $48 & $53 & $77 & $84
do	foreach($33) ; foreach($35) ; foreach($78)	do(`pdaaal::fixed_point_workset::emplace`, self, $33@0, $78@0.#1', $78@0.#0')	!$16 & !$85 & $46 & $48 & $53 & $77 & $84 & $91 | !$16 & $46 & $48 & $53 & $77 & $84 & $85 & $93 | !$85 & $16 & $46 & $48 & $53 & $77 & $84 & $92 | !$89 & $46 & $48 & $53 & $77 & $84 | $16 & $46 & $48 & $53 & $77 & $84 & $85 & $94
do	foreach($33) ; foreach($35) ; foreach($78)	$31	!$89 & $46 & $48 & $53 & $77 & $84
do	foreach($33) ; foreach($35) ; foreach($78)	$32	!$89 & $46 & $48 & $53 & $77 & $84
do	foreach($33) ; foreach($35) ; foreach($78)	set($90.#0.#1, $79)	!$16 & !$85 & $46 & $48 & $53 & $77 & $84 & $89 & $91 | !$16 & $46 & $48 & $53 & $77 & $84 & $85 & $89 & $93 | !$85 & $16 & $46 & $48 & $53 & $77 & $84 & $89 & $92 | $16 & $46 & $48 & $53 & $77 & $84 & $85 & $89 & $94
do	foreach($33) ; foreach($35) ; foreach($78)	set($90.#1, $83)	$16 & $46 & $48 & $53 & $77 & $84 & $85 & $89 & $94
do	foreach($33) ; foreach($35) ; foreach($78)	set($90.#1, $86)	!$85 & $16 & $46 & $48 & $53 & $77 & $84 & $89 & $92
do	foreach($33) ; foreach($35) ; foreach($78)	set($90.#1, $87)	!$16 & $46 & $48 & $53 & $77 & $84 & $85 & $89 & $93
do	foreach($33) ; foreach($35) ; foreach($78)	set($90.#1, $88)	!$16 & !$85 & $46 & $48 & $53 & $77 & $84 & $89 & $91
do	foreach($33) ; foreach($35)	exit	!$48 & $46
do		set($45, true)	!$45 & $46
ret	true	true
== i::PreStarFixedPointSaturation::step_with | i::PreStarFixedPointSaturation<Wi, TT::Longest> | (i::temp_edge_t &&) | true | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 123
let	$1	self._delta_prime
let	$2	param(#0)._from
let	$3	foreach($1[$2])
let	$4	param(#0)._label
let	$5	self._pda_states
let	$6	$5[$1[$2]@0.#0]._rules[$1[$2]@0.#1]
let	$7	call(`pdaaal::details::weight_impl::add`, $6.#0._weight, 0^.#1')
let	$8	call(`pdaaal::details::weight_impl::add`, $7, 0^.#1)
let	$9	call(`pdaaal::details::weight_impl::less`, $8, 0^.#1')
let	$10	self._automaton._states
let	$11	$10[$2]^._edges
let	$12	$11[param(#0)._to, $4].#1
let	$13	call(`pdaaal::details::weight_impl::add`, $7, $12)
let	$14	call(`pdaaal::details::weight_impl::less`, $13, 0^.#1')
let	$15	$10[$1[$2]@0.#0]^._edges
let	$16	$15[param(#0)._to, $4]
let	$17	call(`pdaaal::details::weight_impl::less`, $13, $16.#1')
let	$18	$10[$6.#0._to]^._edges
let	$19	$6.#0._op_label
let	$20	call(`pdaaal::details::weight_impl::add`, $6.#0._weight, $18[$2, $19].#1')
let	$21	call(`pdaaal::details::weight_impl::add`, $20, $12)
let	$22	call(`pdaaal::details::weight_impl::less`, $21, 0^.#1')
let	$23	contains($11, param(#0)._to, $4)
let	$24	call(`pdaaal::details::weight_impl::less`, $21, $16.#1')
let	$25	contains($15', param(#0)._to, $4)
let	$26	call(`pdaaal::internal::labels_t::contains`, $6.#1, $4)
let	$27	call(`pdaaal::details::weight_impl::add`, $20, 0^.#1)
let	$28	call(`pdaaal::details::weight_impl::less`, $27, 0^.#1')
let	$29	call(`pdaaal::details::weight_impl::less`, $8, $16.#1')
let	$30	contains($18', $2, $19)
let	$31	call(`pdaaal::details::weight_impl::less`, $27, $16.#1')
let	$32	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $1[$2]@0.#1, _state: $2}
let	$33	set(0^.#1, 2147483647)
let	$34	$5[$2]._pre_states
let	$35	$5[$34@0]._rules
let	$36	range(call(`std::lower_bound`, begin($35), end($35), $2, fun(lt(lp(#0, #0).#0._to, lp(#0, #1)), [])), end($35))
let	$37	range(0, self._n_pda_labels)
let	$38	$10[$34@0]^._edges
let	$39	lin(#0, $36@0, mul(#-1, begin($35)))
let	$40	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $39, _state: 18446744073709551615}
let	$41	$36@0^.#0._weight
let	$42	tuple{#0: tuple{#0: $40, #1: $40}, #1: $41}
let	$43	$36@0^.#0._operation
let	$44	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $43)
let	$45	self._added_pop[$2]
let	$46	lt($2, self._n_pda_states)
let	$47	$36@0^.#1._wildcard
let	$48	eq($36@0^.#0._to, $2)
let	$49	self._rel[$34@0]
let	$50	contains($38', $2, $37@0)
let	$51	$38[$2, $37@0].#1
let	$52	call(`pdaaal::details::weight_impl::less`, $41, $51'')
let	$53	self._count_transitions
let	$54	set($53, lin(#1, $53'))
let	$55	set(self._round_limit, lin(#1, $53'))
let	$56	$36@0^.#1._labels
let	$57	contains($38', $2, $56@0)
let	$58	$38[$2, $56@0].#1
let	$59	call(`pdaaal::details::weight_impl::less`, $41, $58'')
let	$60	eq($4, $36@0^.#0._op_label)
let	$61	call(`pdaaal::details::weight_impl::add`, $41, 0^.#1)
let	$62	call(`pdaaal::details::weight_impl::less`, $61, 0^.#1')
let	$63	contains($38', param(#0)._to, $37@0)
let	$64	$38[param(#0)._to, $37@0]
let	$65	call(`pdaaal::details::weight_impl::less`, $61, $64.#1')
let	$66	call(`pdaaal::details::weight_impl::add`, $41, $12)
let	$67	call(`pdaaal::details::weight_impl::less`, $66, $64.#1')
let	$68	call(`pdaaal::details::weight_impl::less`, $66, 0^.#1')
let	$69	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $43)
let	$70	set(0^.#0.#1, $40)
let	$71	contains($38', param(#0)._to, $56@0)
let	$72	$38[param(#0)._to, $56@0]
let	$73	call(`pdaaal::details::weight_impl::less`, $66, $72.#1')
let	$74	call(`pdaaal::details::weight_impl::less`, $61, $72.#1')
let	$75	call(`pdaaal::internal::labels_t::contains`, $36@0^.#1, $4)
let	$76	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $43)
let	$77	contains($38', param(#0)._to, $4)
let	$78	$38[param(#0)._to, $4]
let	$79	call(`pdaaal::details::weight_impl::less`, $66, $78.#1')
let	$80	call(`pdaaal::details::weight_impl::less`, $61, $78.#1')
let	$81	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $43)
let	$82	self._rel[param(#0)._to]
let	$83	call(`pdaaal::details::weight_impl::add`, $66, 0^.#1')
let	$84	$38[$82@0.#0', $82@0.#1']
let	$85	call(`pdaaal::details::weight_impl::less`, $83, $84.#1')
let	$86	call(`pdaaal::internal::labels_t::contains`, $36@0^.#1, $82@0.#1')
let	$87	call(`pdaaal::details::weight_impl::less`, $83, 0^.#1')
let	$88	$10[param(#0)._to]^._edges
let	$89	contains($88', $82@0.#0', $82@0.#1')
let	$90	$88[$82@0.#0', $82@0.#1'].#1'
let	$91	call(`pdaaal::details::weight_impl::add`, $66, $90)
let	$92	call(`pdaaal::details::weight_impl::less`, $91, 0^.#1')
let	$93	call(`pdaaal::details::weight_impl::less`, $91, $84.#1')
let	$94	call(`pdaaal::details::weight_impl::add`, $61, 0^.#1')
let	$95	call(`pdaaal::details::weight_impl::less`, $94, 0^.#1')
let	$96	call(`pdaaal::details::weight_impl::add`, $61, $90)
let	$97	call(`pdaaal::details::weight_impl::less`, $96, 0^.#1')
let	$98	call(`pdaaal::details::weight_impl::less`, $96, $84.#1')
let	$99	call(`pdaaal::details::weight_impl::less`, $94, $84.#1')
let	$100	contains($38', $82@0.#0', $82@0.#1')
let	$101	pdaaal::internal::trace_t{_label: 4294967294, _rule_id: $39, _state: param(#0)._to}
do	$3	do(`pdaaal::fixed_point_workset::emplace`, self, $1[$2]@0.#0, $4, param(#0)._to)	!$23 & !$25 & !$30 & $26 & $9 | !$23 & !$25 & $26 & $28 & $30 | !$23 & !$30 & $25 & $26 & $29 | !$23 & $25 & $26 & $30 & $31 | !$25 & !$30 & $14 & $23 & $26 | !$25 & $22 & $23 & $26 & $30 | !$30 & $17 & $23 & $25 & $26 | $23 & $24 & $25 & $26 & $30
do	$3	set($16.#0.#1, $32)	!$23 & !$30 & $25 & $26 & $29 | !$23 & $25 & $26 & $30 & $31 | !$30 & $17 & $23 & $25 & $26 | $23 & $24 & $25 & $26 & $30
do	$3	set(0^.#0.#1, $32)	!$23 & !$25 & !$30 & $26 & $9 | !$23 & !$25 & $26 & $28 & $30 | !$25 & !$30 & $14 & $23 & $26 | !$25 & $22 & $23 & $26 & $30
do	$3	set($16.#1, 2147483647)	!$23 & !$30 & $25 & $26 & $29 | !$23 & $25 & $26 & $30 & $31 | !$30 & $17 & $23 & $25 & $26 | $23 & $24 & $25 & $26 & $30
do	$3	$33	!$23 & !$25 & !$30 & $26 & $9 | !$23 & !$25 & $26 & $28 & $30 | !$25 & !$30 & $14 & $23 & $26 | !$25 & $22 & $23 & $26 & $30
do	foreach($34) ; foreach($36) ; foreach($37)	do(`insert`, $38, $2, $37@0, $42)	!$45 & $44 & $46 & $47 & $48
do	foreach($34) ; foreach($36) ; foreach($37)	do(`push`, $49, tuple{#0: $2, #1: $37@0})	!$45 & !$50 & $44 & $46 & $47 & $48
do	foreach($34) ; foreach($36) ; foreach($37)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $37@0, $2)	!$45 & !$50 & $44 & $46 & $47 & $48 | !$45 & $44 & $46 & $47 & $48 & $52
do	foreach($34) ; foreach($36) ; foreach($37)	$54	!$45 & !$50 & $44 & $46 & $47 & $48
do	foreach($34) ; foreach($36) ; foreach($37)	$55	!$45 & !$50 & $44 & $46 & $47 & $48
do	foreach($34) ; foreach($36) ; foreach($37)	set($38[$2, $37@0].#0.#1, $40)	!$45 & $44 & $46 & $47 & $48 & $50 & $52
do	foreach($34) ; foreach($36) ; foreach($37)	set($51, $41)	!$45 & $44 & $46 & $47 & $48 & $50 & $52
do	foreach($34) ; foreach($36) ; foreach($56)	do(`insert`, $38, $2, $56@0, $42)	!$45 & !$47 & $44 & $46 & $48
do	foreach($34) ; foreach($36) ; foreach($56)	do(`push`, $49, tuple{#0: $2, #1: $56@0})	!$45 & !$47 & !$57 & $44 & $46 & $48
do	foreach($34) ; foreach($36) ; foreach($56)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $56@0, $2)	!$45 & !$47 & !$57 & $44 & $46 & $48 | !$45 & !$47 & $44 & $46 & $48 & $59
do	foreach($34) ; foreach($36) ; foreach($56)	$54	!$45 & !$47 & !$57 & $44 & $46 & $48
do	foreach($34) ; foreach($36) ; foreach($56)	$55	!$45 & !$47 & !$57 & $44 & $46 & $48
do	foreach($34) ; foreach($36) ; foreach($56)	set($38[$2, $56@0].#0.#1, $40)	!$45 & !$47 & $44 & $46 & $48 & $57 & $59
do	foreach($34) ; foreach($36) ; foreach($56)	set($58, $41)	!$45 & !$47 & $44 & $46 & $48 & $57 & $59
do	foreach($34) ; foreach($36) ; foreach($37)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $37@0, param(#0)._to)	!$23 & !$63 & $46 & $47 & $48 & $60 & $62 & $69 | !$23 & $46 & $47 & $48 & $60 & $63 & $65 & $69 | !$63 & $23 & $46 & $47 & $48 & $60 & $68 & $69 | $23 & $46 & $47 & $48 & $60 & $63 & $67 & $69
do	foreach($34) ; foreach($36) ; foreach($37)	set($64.#0.#1, $40)	!$23 & $46 & $47 & $48 & $60 & $63 & $65 & $69 | $23 & $46 & $47 & $48 & $60 & $63 & $67 & $69
do	foreach($34) ; foreach($36) ; foreach($37)	$70	!$23 & !$63 & $46 & $47 & $48 & $60 & $62 & $69 | !$63 & $23 & $46 & $47 & $48 & $60 & $68 & $69
do	foreach($34) ; foreach($36) ; foreach($37)	set($64.#1, 2147483647)	!$23 & $46 & $47 & $48 & $60 & $63 & $65 & $69 | $23 & $46 & $47 & $48 & $60 & $63 & $67 & $69
do	foreach($34) ; foreach($36) ; foreach($37)	$33	!$23 & !$63 & $46 & $47 & $48 & $60 & $62 & $69 | !$63 & $23 & $46 & $47 & $48 & $60 & $68 & $69
do	foreach($34) ; foreach($36) ; foreach($56)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $56@0, param(#0)._to)	!$23 & !$47 & !$71 & $46 & $48 & $60 & $62 & $69 | !$23 & !$47 & $46 & $48 & $60 & $69 & $71 & $74 | !$47 & !$71 & $23 & $46 & $48 & $60 & $68 & $69 | !$47 & $23 & $46 & $48 & $60 & $69 & $71 & $73
do	foreach($34) ; foreach($36) ; foreach($56)	set($72.#0.#1, $40)	!$23 & !$47 & $46 & $48 & $60 & $69 & $71 & $74 | !$47 & $23 & $46 & $48 & $60 & $69 & $71 & $73
do	foreach($34) ; foreach($36) ; foreach($56)	$70	!$23 & !$47 & !$71 & $46 & $48 & $60 & $62 & $69 | !$47 & !$71 & $23 & $46 & $48 & $60 & $68 & $69
do	foreach($34) ; foreach($36) ; foreach($56)	set($72.#1, 2147483647)	!$23 & !$47 & $46 & $48 & $60 & $69 & $71 & $74 | !$47 & $23 & $46 & $48 & $60 & $69 & $71 & $73
do	foreach($34) ; foreach($36) ; foreach($56)	$33	!$23 & !$47 & !$71 & $46 & $48 & $60 & $62 & $69 | !$47 & !$71 & $23 & $46 & $48 & $60 & $68 & $69
do	foreach($34) ; foreach($36)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $4, param(#0)._to)	!$23 & !$77 & $46 & $48 & $62 & $75 & $76 | !$23 & $46 & $48 & $75 & $76 & $77 & $80 | !$77 & $23 & $46 & $48 & $68 & $75 & $76 | $23 & $46 & $48 & $75 & $76 & $77 & $79
do	foreach($34) ; foreach($36)	do(`insert`, $1[param(#0)._to], tuple{#0: $34@0, #1: $39})	$46 & $48 & $60 & $81
do	foreach($34) ; foreach($36)	set($78.#0.#1, $40)	!$23 & $46 & $48 & $75 & $76 & $77 & $80 | $23 & $46 & $48 & $75 & $76 & $77 & $79
do	foreach($34) ; foreach($36)	$70	!$23 & !$77 & $46 & $48 & $62 & $75 & $76 | !$77 & $23 & $46 & $48 & $68 & $75 & $76
do	foreach($34) ; foreach($36)	set($78.#1, 2147483647)	!$23 & $46 & $48 & $75 & $76 & $77 & $80 | $23 & $46 & $48 & $75 & $76 & $77 & $79
do	foreach($34) ; foreach($36)	$33	!$23 & !$77 & $46 & $48 & $62 & $75 & $76 | !$77 & $23 & $46 & $48 & $68 & $75 & $76
do	foreach($34) ; foreach($36) ; foreach($82)	do(`pdaaal::fixed_point_workset::emplace`, self, $34@0, $82@0.#1', $82@0.#0')	!$100 & !$23 & !$89 & $46 & $48 & $60 & $81 & $86 & $95 | !$100 & !$23 & $46 & $48 & $60 & $81 & $86 & $89 & $97 | !$100 & !$89 & $23 & $46 & $48 & $60 & $81 & $86 & $87 | !$100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $92 | !$23 & !$89 & $100 & $46 & $48 & $60 & $81 & $86 & $99 | !$23 & $100 & $46 & $48 & $60 & $81 & $86 & $89 & $98 | !$89 & $100 & $23 & $46 & $48 & $60 & $81 & $85 & $86 | $100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $93
do	foreach($34) ; foreach($36) ; foreach($82)	set($84.#0.#1, $101)	!$23 & !$89 & $100 & $46 & $48 & $60 & $81 & $86 & $99 | !$23 & $100 & $46 & $48 & $60 & $81 & $86 & $89 & $98 | !$89 & $100 & $23 & $46 & $48 & $60 & $81 & $85 & $86 | $100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $93
do	foreach($34) ; foreach($36) ; foreach($82)	set(0^.#0.#1, $101)	!$100 & !$23 & !$89 & $46 & $48 & $60 & $81 & $86 & $95 | !$100 & !$23 & $46 & $48 & $60 & $81 & $86 & $89 & $97 | !$100 & !$89 & $23 & $46 & $48 & $60 & $81 & $86 & $87 | !$100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $92
do	foreach($34) ; foreach($36) ; foreach($82)	set($84.#1, 2147483647)	!$23 & !$89 & $100 & $46 & $48 & $60 & $81 & $86 & $99 | !$23 & $100 & $46 & $48 & $60 & $81 & $86 & $89 & $98 | !$89 & $100 & $23 & $46 & $48 & $60 & $81 & $85 & $86 | $100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $93
do	foreach($34) ; foreach($36) ; foreach($82)	$33	!$100 & !$23 & !$89 & $46 & $48 & $60 & $81 & $86 & $95 | !$100 & !$23 & $46 & $48 & $60 & $81 & $86 & $89 & $97 | !$100 & !$89 & $23 & $46 & $48 & $60 & $81 & $86 & $87 | !$100 & $23 & $46 & $48 & $60 & $81 & $86 & $89 & $92
do	foreach($34) ; foreach($36)	exit	!$48 & $46
do		set($45, true)	!$45 & $46
ret	true	true
== i::PostStarFixedPointSaturation::PostStarFixedPointSaturation | i::PostStarFixedPointSaturation<Wu, TT::ShortestFixedPoint> | (i::PAutomaton<Wu, TI::Pair> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 124
let	$1	self._round_limit
let	$2	new(`std::vector`)
let	$3	self._automaton
let	$4	addrof(param(#0))
let	$5	self._pda_states
let	$6	addrof($3._pda._states)
let	$7	size($4._states)
let	$8	self._n_automaton_states
let	$9	self._count_transitions
let	$10	foreach($5@0._rules)
let	$11	$5@0._rules@0.#0
let	$12	tuple{#0: $11._to', #1: $11._op_label'}
let	$13	size($3._states')
let	$14	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $11._operation')
let	$15	mul(#-1, size($6))
let	$16	foreach($3._states)
let	$17	$3._states@0'^._edges
let	$18	foreach($17@0.#1)
let	$19	$3._states@0'^._id'
let	$20	lt($19, size($6))
do		set(self._done, false)	true
do		set($1, fcast(`unsigned long`, times(fcast(`double`, call(`pdaaal::internal::PDA::number_of_labels`, param(#0)._pda)), call(`std::pow`, size(param(#0)._states), 2))))	true
do		set(self._rounds, 0)	true
do		set(self._workset, $2)	true
do		set(self._next_workset, $2)	true
do		set($3, $4)	true
do		set($5, $6)	true
do		set(self._n_pda_states, size($6))	true
do		set(self._n_Q, $7)	true
do		set(self._q_prime, new(`std::unordered_map`))	true
do		set($8, 0)	true
do		set(self._rel1, $2)	true
do		set(self._rel2, $2)	true
do		set($9, 0)	true
do	foreach($5) ; $10	do(`insert`, self._q_prime, $12, $13)	$14
do	foreach($5) ; $10	do(`pdaaal::internal::PAutomaton::add_state`, $3, false, false)	!contains(self._q_prime', $12) & $14
do		do(`resize`, self._rel1, lin(#0, $15, $13))	true
do		do(`resize`, self._rel2, lin(#0, mul(#-1, $7), $13))	true
do		set($8, $13)	true
do	$16 ; foreach($17) ; $18	do(`pdaaal::fixed_point_workset::emplace`, self, $19, $17@0.#1@0.#0', $17@0.#0')	$20
do	$16 ; foreach($17) ; $18	do(`push`, self._rel1[lin(#0, $19, $15)], tuple{#0: $17@0.#0', #1: $17@0.#1@0.#0'})	!$20
do	$16 ; foreach($17) ; $18	do(`push`, self._rel2[lin(#0, $17@0.#0', mul(#-1, $7))], $19)	!$20 & !lt($17@0.#0', $7) & eq(4294967295, $17@0.#1@0.#0')
do	$16 ; foreach($17) ; $18	set($9, lin(#1, $9'))	$20
do		set($1, $9')	true
== i::PostStarFixedPointSaturation::step_with | i::PostStarFixedPointSaturation<Wu, TT::ShortestFixedPoint> | (i::temp_edge_t &&) | false | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 125
let	$1	param(#0)._from
let	$2	self._pda_states[$1]._rules
let	$3	self._automaton._states
let	$4	$3[$2@0.#0._to]^._edges
let	$5	param(#0)._label
let	$6	pdaaal::internal::trace_t{_label: $5, _rule_id: ix($2, #0), _state: $1}
let	$7	tuple{#0: $6, #1: $6}
let	$8	$3[$1]^._edges[param(#0)._to, $5].#1
let	$9	$2@0.#0._weight
let	$10	call(`pdaaal::details::weight_impl::add`, $8, $9)
let	$11	tuple{#0: $7, #1: $10}
let	$12	contains($3[$1]^._edges, param(#0)._to, $5)
let	$13	call(`pdaaal::internal::labels_t::contains`, $2@0.#1, $5)
let	$14	$2@0.#0._operation
let	$15	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $14)
let	$16	eq($5, 4294967295)
let	$17	call(`pdaaal::details::weight_impl::add`, 0^.#1, $9)
let	$18	tuple{#0: $7, #1: $17}
let	$19	self._n_pda_states
let	$20	self._rel1[lin(#0, mul(#-1, $19), $2@0.#0._to)]
let	$21	contains($4', param(#0)._to, 4294967295)
let	$22	lt($2@0.#0._to, $19)
let	$23	mul(#-1, self._n_Q)
let	$24	$2@0.#0._op_label
let	$25	eq(4294967295, $24)
let	$26	contains($4', param(#0)._to, $24)
let	$27	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $14)
let	$28	$4[param(#0)._to, 4294967295]
let	$29	call(`pdaaal::details::weight_impl::less`, $17, $28.#1'')
let	$30	call(`pdaaal::details::weight_impl::less`, $10, $28.#1'')
let	$31	$4[param(#0)._to, $24]
let	$32	call(`pdaaal::details::weight_impl::less`, $10, $31.#1'')
let	$33	call(`pdaaal::details::weight_impl::less`, $17, $31.#1'')
let	$34	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $14)
let	$35	tuple{#0: param(#0)._to, #1: $5}
let	$36	contains($4', param(#0)._to, $5)
let	$37	$4[param(#0)._to, $5]
let	$38	call(`pdaaal::details::weight_impl::less`, $17, $37.#1'')
let	$39	call(`pdaaal::details::weight_impl::less`, $10, $37.#1'')
let	$40	self._q_prime[tuple{#0: $2@0.#0._to, #1: $24}]
let	$41	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $14)
let	$42	contains($4', $40, $24)
let	$43	self._rel2[lin(#0, $23, $40)]
let	$44	$4[$40, $24].#1
let	$45	call(`pdaaal::details::weight_impl::less`, 0, $44'')
let	$46	$3[$40]^._edges
let	$47	contains($46'', param(#0)._to, $5)
let	$48	$46[param(#0)._to, $5]
let	$49	call(`pdaaal::details::weight_impl::less`, $10, $48.#1'')
let	$50	call(`pdaaal::details::weight_impl::less`, $17, $48.#1'')
let	$51	self._count_transitions
let	$52	set($51, lin(#1, $51'))
let	$53	self._round_limit
let	$54	set($53, lin(#1, $51'))
let	$55	$3[$43@0'']^._edges
let	$56	18446744073709551615
let	$57	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $56, _state: $40}
let	$58	tuple{#0: $57, #1: $57}
let	$59	$55[$40, 4294967295].#1''
let	$60	call(`pdaaal::details::weight_impl::add`, $10, $59)
let	$61	contains($55'', $40, 4294967295)
let	$62	call(`pdaaal::details::weight_impl::add`, $10, 0^.#1)
let	$63	call(`pdaaal::details::weight_impl::add`, $17, $59)
let	$64	call(`pdaaal::details::weight_impl::add`, $17, 0^.#1)
let	$65	lt($43@0'', $19)
let	$66	contains($55'', param(#0)._to, $5)
let	$67	$55[param(#0)._to, $5]
let	$68	call(`pdaaal::details::weight_impl::less`, $60, $67.#1'')
let	$69	call(`pdaaal::details::weight_impl::less`, $62, $67.#1'')
let	$70	call(`pdaaal::details::weight_impl::less`, $64, $67.#1'')
let	$71	call(`pdaaal::details::weight_impl::less`, $63, $67.#1'')
let	$72	self._rel1[lin(#0, mul(#-1, $19), param(#0)._to)]
let	$73	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $56, _state: param(#0)._to}
let	$74	tuple{#0: $73, #1: $73}
let	$75	$3[param(#0)._to]^._edges
let	$76	$75[$72@0.#0', $72@0.#1'].#1'
let	$77	call(`pdaaal::details::weight_impl::add`, $76, $8)
let	$78	contains($75', $72@0.#0', $72@0.#1')
let	$79	call(`pdaaal::details::weight_impl::add`, $76, 0^.#1)
let	$80	call(`pdaaal::details::weight_impl::add`, 0^.#1, $8)
let	$81	call(`pdaaal::details::weight_impl::add`, 0^.#1, 0^.#1)
let	$82	contains($3[$1]^._edges', $72@0.#0', $72@0.#1')
let	$83	$3[$1]^._edges[$72@0.#0', $72@0.#1']
let	$84	call(`pdaaal::details::weight_impl::less`, $81, $83.#1'')
let	$85	call(`pdaaal::details::weight_impl::less`, $79, $83.#1'')
let	$86	call(`pdaaal::details::weight_impl::less`, $80, $83.#1'')
let	$87	call(`pdaaal::details::weight_impl::less`, $77, $83.#1'')
do	foreach($2)	do(`insert`, $4, param(#0)._to, 4294967295, $11)	!$16 & $12 & $13 & $15
do	foreach($2)	do(`insert`, $4, param(#0)._to, 4294967295, $18)	!$12 & !$16 & $13 & $15
do	foreach($2)	do(`push`, $20, tuple{#0: param(#0)._to, #1: 4294967295})	!$16 & !$21 & !$22 & $13 & $15
dom	foreach($2)	do(`push`, self._rel2[lin(#0, $23, param(#0)._to)], $2@0.#0._to)	!$16 & !$21 & !lt(param(#0)._to, self._n_Q) & $13 & $15 | !$16 & !$26 & !lt(param(#0)._to, self._n_Q) & $13 & $25 & $27
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, 4294967295, param(#0)._to)	!$12 & !$16 & $13 & $15 & $22 & $29 | !$16 & !$21 & $13 & $15 & $22 | !$16 & $12 & $13 & $15 & $22 & $30
do	foreach($2)	do(`insert`, $4, param(#0)._to, $24, $11)	!$16 & $12 & $13 & $27
do	foreach($2)	do(`insert`, $4, param(#0)._to, $24, $18)	!$12 & !$16 & $13 & $27
do	foreach($2)	set($28.#0.#1, $6)	!$12 & !$16 & $13 & $15 & $21 & $29 | !$16 & $12 & $13 & $15 & $21 & $30
do	foreach($2)	set($28.#1, $10)	!$16 & $12 & $13 & $15 & $21 & $30
do	foreach($2)	set($28.#1, $17)	!$12 & !$16 & $13 & $15 & $21 & $29
do	foreach($2)	do(`push`, $20, tuple{#0: param(#0)._to, #1: $24})	!$16 & !$22 & !$26 & $13 & $27
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $24, param(#0)._to)	!$12 & !$16 & $13 & $22 & $27 & $33 | !$16 & !$26 & $13 & $22 & $27 | !$16 & $12 & $13 & $22 & $27 & $32
do	foreach($2)	do(`insert`, $4, param(#0)._to, $5, $11)	!$16 & $12 & $13 & $34
do	foreach($2)	do(`insert`, $4, param(#0)._to, $5, $18)	!$12 & !$16 & $13 & $34
do	foreach($2)	set($31.#0.#1, $6)	!$12 & !$16 & $13 & $26 & $27 & $33 | !$16 & $12 & $13 & $26 & $27 & $32
do	foreach($2)	set($31.#1, $10)	!$16 & $12 & $13 & $26 & $27 & $32
do	foreach($2)	set($31.#1, $17)	!$12 & !$16 & $13 & $26 & $27 & $33
do	foreach($2)	do(`push`, $20, $35)	!$16 & !$22 & !$36 & $13 & $34
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $5, param(#0)._to)	!$12 & !$16 & $13 & $22 & $34 & $38 | !$16 & !$36 & $13 & $22 & $34 | !$16 & $12 & $13 & $22 & $34 & $39
do	foreach($2)	do(`insert`, $4, $40, $24, tuple{#0: $7, #1: 0})	!$16 & $13 & $41
do	foreach($2)	set($37.#0.#1, $6)	!$12 & !$16 & $13 & $34 & $36 & $38 | !$16 & $12 & $13 & $34 & $36 & $39
do	foreach($2)	set($37.#1, $10)	!$16 & $12 & $13 & $34 & $36 & $39
do	foreach($2)	set($37.#1, $17)	!$12 & !$16 & $13 & $34 & $36 & $38
do	foreach($2)	do(`push`, $20, tuple{#0: $40, #1: $24})	!$16 & !$22 & !$42 & $13 & $41
do	foreach($2)	do(`push`, $43, $2@0.#0._to)	!$16 & !$42 & !lt($40, self._n_Q) & $13 & $25 & $41
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $24, $40)	!$16 & !$42 & $13 & $22 & $41 | !$16 & $13 & $22 & $41 & $45
do	foreach($2)	do(`insert`, $46, param(#0)._to, $5, $11)	!$16 & $12 & $13 & $41
do	foreach($2)	do(`insert`, $46, param(#0)._to, $5, $18)	!$12 & !$16 & $13 & $41
do	foreach($2)	do(`push`, self._rel1[lin(#0, mul(#-1, $19), $40)], $35)	!$16 & !$47 & !lt($40, $19) & $13 & $41
do	foreach($2)	set($4[$40, $24].#0.#1, $6)	!$16 & $13 & $41 & $42 & $45
do	foreach($2)	set($44, 0)	!$16 & $13 & $41 & $42 & $45
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $40, $5, param(#0)._to)	!$12 & !$16 & $13 & $41 & $50 & lt($40, $19) | !$16 & !$47 & $13 & $41 & lt($40, $19) | !$16 & $12 & $13 & $41 & $49 & lt($40, $19)
do	foreach($2)	set($51, lin(#2, $51'))	!$16 & !$42 & !$47 & $13 & $41
do	foreach($2)	$52	!$16 & !$21 & !$27 & !$34 & !$41 & $13 | !$16 & !$26 & $13 & $27 | !$16 & !$36 & $13 & $34 | !$16 & !$42 & $13 & $41 & $47 | !$16 & !$47 & $13 & $41 & $42
do	foreach($2)	set($53, lin(#2, $51'))	!$16 & !$42 & !$47 & $13 & $41
do	foreach($2)	$54	!$16 & !$21 & !$27 & !$34 & !$41 & $13 | !$16 & !$26 & $13 & $27 | !$16 & !$36 & $13 & $34 | !$16 & !$42 & $13 & $41 & $47 | !$16 & !$47 & $13 & $41 & $42
do	foreach($2)	set($48.#0.#1, $6)	!$12 & !$16 & $13 & $41 & $47 & $50 | !$16 & $12 & $13 & $41 & $47 & $49
do	foreach($2)	set($48.#1, $10)	!$16 & $12 & $13 & $41 & $47 & $49
do	foreach($2)	set($48.#1, $17)	!$12 & !$16 & $13 & $41 & $47 & $50
do	foreach($2) ; foreach($43)	do(`insert`, $55, param(#0)._to, $5, tuple{#0: $58, #1: $60})	!$16 & !$47 & $12 & $13 & $41 & $61 | !$16 & $12 & $13 & $41 & $49 & $61
do	foreach($2) ; foreach($43)	do(`insert`, $55, param(#0)._to, $5, tuple{#0: $58, #1: $62})	!$16 & !$47 & !$61 & $12 & $13 & $41 | !$16 & !$61 & $12 & $13 & $41 & $49
do	foreach($2) ; foreach($43)	do(`insert`, $55, param(#0)._to, $5, tuple{#0: $58, #1: $63})	!$12 & !$16 & !$47 & $13 & $41 & $61 | !$12 & !$16 & $13 & $41 & $50 & $61
do	foreach($2) ; foreach($43)	do(`insert`, $55, param(#0)._to, $5, tuple{#0: $58, #1: $64})	!$12 & !$16 & !$47 & !$61 & $13 & $41 | !$12 & !$16 & !$61 & $13 & $41 & $50
do	foreach($2) ; foreach($43)	do(`push`, self._rel1[lin(#0, mul(#-1, $19), $43@0'')], $35)	!$12 & !$16 & !$65 & !$66 & $13 & $41 & $50 | !$16 & !$47 & !$65 & !$66 & $13 & $41 | !$16 & !$65 & !$66 & $12 & $13 & $41 & $49
do	foreach($2) ; foreach($43)	do(`pdaaal::fixed_point_workset::emplace`, self, $43@0'', $5, param(#0)._to)	!$12 & !$16 & !$47 & !$61 & $13 & $41 & $65 & $70 | !$12 & !$16 & !$47 & $13 & $41 & $61 & $65 & $71 | !$12 & !$16 & !$61 & $13 & $41 & $50 & $65 & $70 | !$12 & !$16 & !$66 & $13 & $41 & $50 & $65 | !$12 & !$16 & $13 & $41 & $50 & $61 & $65 & $71 | !$16 & !$47 & !$61 & $12 & $13 & $41 & $65 & $69 | !$16 & !$47 & !$66 & $13 & $41 & $65 | !$16 & !$47 & $12 & $13 & $41 & $61 & $65 & $68 | !$16 & !$61 & $12 & $13 & $41 & $49 & $65 & $69 | !$16 & !$66 & $12 & $13 & $41 & $49 & $65 | !$16 & $12 & $13 & $41 & $49 & $61 & $65 & $68
do	foreach($2) ; foreach($43)	$52	!$12 & !$16 & !$66 & $13 & $41 & $50 | !$16 & !$47 & !$66 & $13 & $41 | !$16 & !$66 & $12 & $13 & $41 & $49
do	foreach($2) ; foreach($43)	$54	!$12 & !$16 & !$66 & $13 & $41 & $50 | !$16 & !$47 & !$66 & $13 & $41 | !$16 & !$66 & $12 & $13 & $41 & $49
do	foreach($2) ; foreach($43)	set($67.#0.#1, $57)	!$12 & !$16 & !$47 & !$61 & $13 & $41 & $66 & $70 | !$12 & !$16 & !$47 & $13 & $41 & $61 & $66 & $71 | !$12 & !$16 & !$61 & $13 & $41 & $50 & $66 & $70 | !$12 & !$16 & $13 & $41 & $50 & $61 & $66 & $71 | !$16 & !$47 & !$61 & $12 & $13 & $41 & $66 & $69 | !$16 & !$47 & $12 & $13 & $41 & $61 & $66 & $68 | !$16 & !$61 & $12 & $13 & $41 & $49 & $66 & $69 | !$16 & $12 & $13 & $41 & $49 & $61 & $66 & $68
do	foreach($2) ; foreach($43)	set($67.#1, $60)	!$16 & !$47 & $12 & $13 & $41 & $61 & $66 & $68 | !$16 & $12 & $13 & $41 & $49 & $61 & $66 & $68
do	foreach($2) ; foreach($43)	set($67.#1, $62)	!$16 & !$47 & !$61 & $12 & $13 & $41 & $66 & $69 | !$16 & !$61 & $12 & $13 & $41 & $49 & $66 & $69
do	foreach($2) ; foreach($43)	set($67.#1, $63)	!$12 & !$16 & !$47 & $13 & $41 & $61 & $66 & $71 | !$12 & !$16 & $13 & $41 & $50 & $61 & $66 & $71
do	foreach($2) ; foreach($43)	set($67.#1, $64)	!$12 & !$16 & !$47 & !$61 & $13 & $41 & $66 & $70 | !$12 & !$16 & !$61 & $13 & $41 & $50 & $66 & $70
do	foreach($72)	do(`insert`, $3[$1]^._edges, $72@0.#0', $72@0.#1', tuple{#0: $74, #1: $77})	$12 & $16 & $78
do	foreach($72)	do(`insert`, $3[$1]^._edges, $72@0.#0', $72@0.#1', tuple{#0: $74, #1: $79})	!$12 & $16 & $78
do	foreach($72)	do(`insert`, $3[$1]^._edges, $72@0.#0', $72@0.#1', tuple{#0: $74, #1: $80})	!$78 & $12 & $16
do	foreach($72)	do(`insert`, $3[$1]^._edges, $72@0.#0', $72@0.#1', tuple{#0: $74, #1: $81})	!$12 & !$78 & $16
do	foreach($72)	do(`push`, self._rel1[lin(#0, mul(#-1, $19), $1)], tuple{#0: $72@0.#0', #1: $72@0.#1'})	!$82 & !lt($1, $19) & $16
do	foreach($72)	do(`push`, self._rel2[lin(#0, $23, $72@0.#0')], $1)	!$82 & !lt($72@0.#0', self._n_Q) & $16 & eq(4294967295, $72@0.#1')
do	foreach($72)	do(`pdaaal::fixed_point_workset::emplace`, self, $1, $72@0.#1', $72@0.#0')	!$12 & !$78 & $16 & $84 & lt($1, $19) | !$12 & $16 & $78 & $85 & lt($1, $19) | !$78 & $12 & $16 & $86 & lt($1, $19) | !$82 & $16 & lt($1, $19) | $12 & $16 & $78 & $87 & lt($1, $19)
do	foreach($72)	$52	!$82 & $16
do	foreach($72)	$54	!$82 & $16
do	foreach($72)	set($83.#0.#1, $73)	!$12 & !$78 & $16 & $82 & $84 | !$12 & $16 & $78 & $82 & $85 | !$78 & $12 & $16 & $82 & $86 | $12 & $16 & $78 & $82 & $87
do	foreach($72)	set($83.#1, $77)	$12 & $16 & $78 & $82 & $87
do	foreach($72)	set($83.#1, $79)	!$12 & $16 & $78 & $82 & $85
do	foreach($72)	set($83.#1, $80)	!$78 & $12 & $16 & $82 & $86
do	foreach($72)	set($83.#1, $81)	!$12 & !$78 & $16 & $82 & $84
ret	true	true
== i::PostStarFixedPointSaturation::step_with | i::PostStarFixedPointSaturation<Wu, TT::ShortestFixedPoint> | (i::temp_edge_t &&) | true | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 126
let	$1	param(#0)._from
let	$2	self._pda_states[$1]._rules
let	$3	self._automaton._states
let	$4	param(#0)._label
let	$5	$3[$1]^._edges[param(#0)._to, $4].#1
let	$6	$2@0.#0._weight
let	$7	call(`pdaaal::details::weight_impl::add`, $5, $6)
let	$8	$3[$2@0.#0._to]^._edges
let	$9	$8[param(#0)._to, 4294967295]
let	$10	call(`pdaaal::details::weight_impl::less`, $7, $9.#1')
let	$11	contains($8', param(#0)._to, 4294967295)
let	$12	call(`pdaaal::details::weight_impl::add`, 0^.#1, $6)
let	$13	call(`pdaaal::details::weight_impl::less`, $12, 0^.#1')
let	$14	self._n_pda_states
let	$15	lt($2@0.#0._to, $14)
let	$16	contains($3[$1]^._edges, param(#0)._to, $4)
let	$17	call(`pdaaal::details::weight_impl::less`, $12, $9.#1')
let	$18	call(`pdaaal::internal::labels_t::contains`, $2@0.#1, $4)
let	$19	call(`pdaaal::details::weight_impl::less`, $7, 0^.#1')
let	$20	$2@0.#0._operation
let	$21	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $20)
let	$22	eq($4, 4294967295)
let	$23	pdaaal::internal::trace_t{_label: $4, _rule_id: ix($2, #0), _state: $1}
let	$24	$2@0.#0._op_label
let	$25	$8[param(#0)._to, $24]
let	$26	call(`pdaaal::details::weight_impl::less`, $12, $25.#1')
let	$27	contains($8', param(#0)._to, $24)
let	$28	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $20)
let	$29	call(`pdaaal::details::weight_impl::less`, $7, $25.#1')
let	$30	$8[param(#0)._to, $4]
let	$31	call(`pdaaal::details::weight_impl::less`, $12, $30.#1')
let	$32	contains($8', param(#0)._to, $4)
let	$33	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $20)
let	$34	call(`pdaaal::details::weight_impl::less`, $7, $30.#1')
let	$35	self._q_prime[tuple{#0: $2@0.#0._to, #1: $24}]
let	$36	$8[$35, $24].#1
let	$37	call(`pdaaal::details::weight_impl::less`, 0, $36')
let	$38	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $20)
let	$39	contains($8', $35, $24)
let	$40	call(`pdaaal::details::weight_impl::less`, 0, 0^.#1')
let	$41	$3[$35]^._edges
let	$42	contains($41', param(#0)._to, $4)
let	$43	$41[param(#0)._to, $4]
let	$44	call(`pdaaal::details::weight_impl::less`, $7, $43.#1')
let	$45	call(`pdaaal::details::weight_impl::less`, $12, $43.#1')
let	$46	call(`pdaaal::details::weight_impl::less`, $12, 0)
let	$47	call(`pdaaal::details::weight_impl::less`, $7, 0)
let	$48	self._rel2[lin(#0, mul(#-1, self._n_Q), $35)]
let	$49	call(`pdaaal::details::weight_impl::add`, $7, 0^.#1')
let	$50	$3[$48@0]^._edges
let	$51	$50[param(#0)._to, $4]
let	$52	call(`pdaaal::details::weight_impl::less`, $49, $51.#1'')
let	$53	$50[$35, 4294967295].#1''
let	$54	call(`pdaaal::details::weight_impl::add`, $12, $53)
let	$55	call(`pdaaal::details::weight_impl::less`, $54, $51.#1'')
let	$56	call(`pdaaal::details::weight_impl::add`, $12, 0^.#1')
let	$57	call(`pdaaal::details::weight_impl::less`, $56, 0^.#1')
let	$58	call(`pdaaal::details::weight_impl::less`, $49, 0^.#1')
let	$59	call(`pdaaal::details::weight_impl::less`, $56, $51.#1'')
let	$60	contains($50'', $35, 4294967295)
let	$61	contains($50'', param(#0)._to, $4)
let	$62	call(`pdaaal::details::weight_impl::add`, $7, $53)
let	$63	call(`pdaaal::details::weight_impl::less`, $62, 0^.#1')
let	$64	call(`pdaaal::details::weight_impl::less`, $54, 0^.#1')
let	$65	call(`pdaaal::details::weight_impl::less`, $62, $51.#1'')
let	$66	18446744073709551615
let	$67	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $66, _state: $35}
let	$68	self._rel1[lin(#0, mul(#-1, $14), param(#0)._to)]
let	$69	$3[param(#0)._to]^._edges
let	$70	$69[$68@0.#0, $68@0.#1].#1'
let	$71	call(`pdaaal::details::weight_impl::add`, $70, 0^.#1)
let	$72	call(`pdaaal::details::weight_impl::less`, $71, 0^.#1')
let	$73	call(`pdaaal::details::weight_impl::add`, 0^.#1', $5)
let	$74	$3[$1]^._edges[$68@0.#0, $68@0.#1]
let	$75	call(`pdaaal::details::weight_impl::less`, $73, $74.#1')
let	$76	call(`pdaaal::details::weight_impl::add`, $70, $5)
let	$77	call(`pdaaal::details::weight_impl::less`, $76, $74.#1')
let	$78	call(`pdaaal::details::weight_impl::add`, 0^.#1', 0^.#1)
let	$79	call(`pdaaal::details::weight_impl::less`, $78, 0^.#1')
let	$80	contains($3[$1]^._edges', $68@0.#0, $68@0.#1)
let	$81	call(`pdaaal::details::weight_impl::less`, $78, $74.#1')
let	$82	call(`pdaaal::details::weight_impl::less`, $73, 0^.#1')
let	$83	call(`pdaaal::details::weight_impl::less`, $71, $74.#1')
let	$84	contains($69', $68@0.#0, $68@0.#1)
let	$85	call(`pdaaal::details::weight_impl::less`, $76, 0^.#1')
let	$86	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $66, _state: param(#0)._to}
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, 4294967295, param(#0)._to)	!$11 & !$16 & !$22 & $13 & $15 & $18 & $21 | !$11 & !$22 & $15 & $16 & $18 & $19 & $21 | !$16 & !$22 & $11 & $15 & $17 & $18 & $21 | !$22 & $10 & $11 & $15 & $16 & $18 & $21
do	foreach($2)	set($9.#0.#1, $23)	!$16 & !$22 & $11 & $17 & $18 & $21 | !$22 & $10 & $11 & $16 & $18 & $21
do	foreach($2)	set($9.#1, 0)	!$16 & !$22 & $11 & $17 & $18 & $21 | !$22 & $10 & $11 & $16 & $18 & $21
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $24, param(#0)._to)	!$16 & !$22 & !$27 & $13 & $15 & $18 & $28 | !$16 & !$22 & $15 & $18 & $26 & $27 & $28 | !$22 & !$27 & $15 & $16 & $18 & $19 & $28 | !$22 & $15 & $16 & $18 & $27 & $28 & $29
do	foreach($2)	set($25.#0.#1, $23)	!$16 & !$22 & $18 & $26 & $27 & $28 | !$22 & $16 & $18 & $27 & $28 & $29
do	foreach($2)	set($25.#1, 0)	!$16 & !$22 & $18 & $26 & $27 & $28 | !$22 & $16 & $18 & $27 & $28 & $29
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $4, param(#0)._to)	!$16 & !$22 & !$32 & $13 & $15 & $18 & $33 | !$16 & !$22 & $15 & $18 & $31 & $32 & $33 | !$22 & !$32 & $15 & $16 & $18 & $19 & $33 | !$22 & $15 & $16 & $18 & $32 & $33 & $34
do	foreach($2)	set($30.#0.#1, $23)	!$16 & !$22 & $18 & $31 & $32 & $33 | !$22 & $16 & $18 & $32 & $33 & $34
do	foreach($2)	set($30.#1, 0)	!$16 & !$22 & $18 & $31 & $32 & $33 | !$22 & $16 & $18 & $32 & $33 & $34
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $24, $35)	!$22 & !$39 & $15 & $18 & $38 & $40 | !$22 & $15 & $18 & $37 & $38 & $39
do	foreach($2)	set($8[$35, $24].#0.#1, $23)	!$22 & $18 & $37 & $38 & $39
do	foreach($2)	set($36, 0)	!$22 & $18 & $37 & $38 & $39
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $35, $4, param(#0)._to)	!$16 & !$22 & !$39 & !$42 & $18 & $38 & $40 & $46 & lt($35, $14) | !$16 & !$22 & !$40 & !$42 & $13 & $18 & $38 & lt($35, $14) | !$16 & !$22 & !$42 & $13 & $18 & $38 & $39 & lt($35, $14) | !$16 & !$22 & $18 & $38 & $42 & $45 & lt($35, $14) | !$22 & !$39 & !$42 & $16 & $18 & $38 & $40 & $47 & lt($35, $14) | !$22 & !$40 & !$42 & $16 & $18 & $19 & $38 & lt($35, $14) | !$22 & !$42 & $16 & $18 & $19 & $38 & $39 & lt($35, $14) | !$22 & $16 & $18 & $38 & $42 & $44 & lt($35, $14)
do	foreach($2)	set(0^.#0.#1, $23)	!$11 & !$16 & !$22 & !$28 & !$33 & !$38 & $13 & $18 | !$11 & !$22 & !$28 & !$33 & !$38 & $16 & $18 & $19 | !$16 & !$22 & !$27 & $13 & $18 & $28 | !$16 & !$22 & !$32 & $13 & $18 & $33 | !$16 & !$22 & !$42 & $13 & $18 & $38 | !$22 & !$27 & $16 & $18 & $19 & $28 | !$22 & !$32 & $16 & $18 & $19 & $33 | !$22 & !$39 & $18 & $38 & $40 | !$22 & !$42 & $16 & $18 & $19 & $38
do	foreach($2)	set(0^.#1, 0)	!$11 & !$16 & !$22 & !$28 & !$33 & !$38 & $13 & $18 | !$11 & !$22 & !$28 & !$33 & !$38 & $16 & $18 & $19 | !$16 & !$22 & !$27 & $13 & $18 & $28 | !$16 & !$22 & !$32 & $13 & $18 & $33 | !$16 & !$22 & !$42 & $13 & $18 & $38 | !$22 & !$27 & $16 & $18 & $19 & $28 | !$22 & !$32 & $16 & $18 & $19 & $33 | !$22 & !$39 & $18 & $38 & $40 | !$22 & !$42 & $16 & $18 & $19 & $38
do	foreach($2)	set($43.#0.#1, $23)	!$16 & !$22 & $18 & $38 & $42 & $45 | !$22 & $16 & $18 & $38 & $42 & $44
do	foreach($2)	set($43.#1, 0)	!$16 & !$22 & $18 & $38 & $42 & $45 | !$22 & $16 & $18 & $38 & $42 & $44
do	foreach($2) ; foreach($48)	do(`pdaaal::fixed_point_workset::emplace`, self, $48@0, $4, param(#0)._to)	!$16 & !$22 & !$39 & !$42 & !$60 & !$61 & $18 & $38 & $40 & $46 & $57 & lt($48@0, $14) | !$16 & !$22 & !$39 & !$42 & !$60 & $18 & $38 & $40 & $46 & $59 & $61 & lt($48@0, $14) | !$16 & !$22 & !$39 & !$42 & !$61 & $18 & $38 & $40 & $46 & $60 & $64 & lt($48@0, $14) | !$16 & !$22 & !$39 & !$42 & $18 & $38 & $40 & $46 & $55 & $60 & $61 & lt($48@0, $14) | !$16 & !$22 & !$40 & !$42 & !$60 & !$61 & $13 & $18 & $38 & $57 & lt($48@0, $14) | !$16 & !$22 & !$40 & !$42 & !$60 & $13 & $18 & $38 & $59 & $61 & lt($48@0, $14) | !$16 & !$22 & !$40 & !$42 & !$61 & $13 & $18 & $38 & $60 & $64 & lt($48@0, $14) | !$16 & !$22 & !$40 & !$42 & $13 & $18 & $38 & $55 & $60 & $61 & lt($48@0, $14) | !$16 & !$22 & !$42 & !$60 & !$61 & $13 & $18 & $38 & $39 & $57 & lt($48@0, $14) | !$16 & !$22 & !$42 & !$60 & $13 & $18 & $38 & $39 & $59 & $61 & lt($48@0, $14) | !$16 & !$22 & !$42 & !$61 & $13 & $18 & $38 & $39 & $60 & $64 & lt($48@0, $14) | !$16 & !$22 & !$42 & $13 & $18 & $38 & $39 & $55 & $60 & $61 & lt($48@0, $14) | !$16 & !$22 & !$60 & !$61 & $18 & $38 & $42 & $45 & $57 & lt($48@0, $14) | !$16 & !$22 & !$60 & $18 & $38 & $42 & $45 & $59 & $61 & lt($48@0, $14) | !$16 & !$22 & !$61 & $18 & $38 & $42 & $45 & $60 & $64 & lt($48@0, $14) | !$16 & !$22 & $18 & $38 & $42 & $45 & $55 & $60 & $61 & lt($48@0, $14) | !$22 & !$39 & !$42 & !$60 & !$61 & $16 & $18 & $38 & $40 & $47 & $58 & lt($48@0, $14) | !$22 & !$39 & !$42 & !$60 & $16 & $18 & $38 & $40 & $47 & $52 & $61 & lt($48@0, $14) | !$22 & !$39 & !$42 & !$61 & $16 & $18 & $38 & $40 & $47 & $60 & $63 & lt($48@0, $14) | !$22 & !$39 & !$42 & $16 & $18 & $38 & $40 & $47 & $60 & $61 & $65 & lt($48@0, $14) | !$22 & !$40 & !$42 & !$60 & !$61 & $16 & $18 & $19 & $38 & $58 & lt($48@0, $14) | !$22 & !$40 & !$42 & !$60 & $16 & $18 & $19 & $38 & $52 & $61 & lt($48@0, $14) | !$22 & !$40 & !$42 & !$61 & $16 & $18 & $19 & $38 & $60 & $63 & lt($48@0, $14) | !$22 & !$40 & !$42 & $16 & $18 & $19 & $38 & $60 & $61 & $65 & lt($48@0, $14) | !$22 & !$42 & !$60 & !$61 & $16 & $18 & $19 & $38 & $39 & $58 & lt($48@0, $14) | !$22 & !$42 & !$60 & $16 & $18 & $19 & $38 & $39 & $52 & $61 & lt($48@0, $14) | !$22 & !$42 & !$61 & $16 & $18 & $19 & $38 & $39 & $60 & $63 & lt($48@0, $14) | !$22 & !$42 & $16 & $18 & $19 & $38 & $39 & $60 & $61 & $65 & lt($48@0, $14) | !$22 & !$60 & !$61 & $16 & $18 & $38 & $42 & $44 & $58 & lt($48@0, $14) | !$22 & !$60 & $16 & $18 & $38 & $42 & $44 & $52 & $61 & lt($48@0, $14) | !$22 & !$61 & $16 & $18 & $38 & $42 & $44 & $60 & $63 & lt($48@0, $14) | !$22 & $16 & $18 & $38 & $42 & $44 & $60 & $61 & $65 & lt($48@0, $14)
do	foreach($2) ; foreach($48)	set($51.#0.#1, $67)	!$16 & !$22 & !$39 & !$42 & !$60 & $18 & $38 & $40 & $46 & $59 & $61 | !$16 & !$22 & !$39 & !$42 & $18 & $38 & $40 & $46 & $55 & $60 & $61 | !$16 & !$22 & !$40 & !$42 & !$60 & $13 & $18 & $38 & $59 & $61 | !$16 & !$22 & !$40 & !$42 & $13 & $18 & $38 & $55 & $60 & $61 | !$16 & !$22 & !$42 & !$60 & $13 & $18 & $38 & $39 & $59 & $61 | !$16 & !$22 & !$42 & $13 & $18 & $38 & $39 & $55 & $60 & $61 | !$16 & !$22 & !$60 & $18 & $38 & $42 & $45 & $59 & $61 | !$16 & !$22 & $18 & $38 & $42 & $45 & $55 & $60 & $61 | !$22 & !$39 & !$42 & !$60 & $16 & $18 & $38 & $40 & $47 & $52 & $61 | !$22 & !$39 & !$42 & $16 & $18 & $38 & $40 & $47 & $60 & $61 & $65 | !$22 & !$40 & !$42 & !$60 & $16 & $18 & $19 & $38 & $52 & $61 | !$22 & !$40 & !$42 & $16 & $18 & $19 & $38 & $60 & $61 & $65 | !$22 & !$42 & !$60 & $16 & $18 & $19 & $38 & $39 & $52 & $61 | !$22 & !$42 & $16 & $18 & $19 & $38 & $39 & $60 & $61 & $65 | !$22 & !$60 & $16 & $18 & $38 & $42 & $44 & $52 & $61 | !$22 & $16 & $18 & $38 & $42 & $44 & $60 & $61 & $65
do	foreach($2) ; foreach($48)	set(0^.#0.#1, $67)	!$16 & !$22 & !$39 & !$42 & !$60 & !$61 & $18 & $38 & $40 & $46 & $57 | !$16 & !$22 & !$39 & !$42 & !$61 & $18 & $38 & $40 & $46 & $60 & $64 | !$16 & !$22 & !$40 & !$42 & !$60 & !$61 & $13 & $18 & $38 & $57 | !$16 & !$22 & !$40 & !$42 & !$61 & $13 & $18 & $38 & $60 & $64 | !$16 & !$22 & !$42 & !$60 & !$61 & $13 & $18 & $38 & $39 & $57 | !$16 & !$22 & !$42 & !$61 & $13 & $18 & $38 & $39 & $60 & $64 | !$16 & !$22 & !$60 & !$61 & $18 & $38 & $42 & $45 & $57 | !$16 & !$22 & !$61 & $18 & $38 & $42 & $45 & $60 & $64 | !$22 & !$39 & !$42 & !$60 & !$61 & $16 & $18 & $38 & $40 & $47 & $58 | !$22 & !$39 & !$42 & !$61 & $16 & $18 & $38 & $40 & $47 & $60 & $63 | !$22 & !$40 & !$42 & !$60 & !$61 & $16 & $18 & $19 & $38 & $58 | !$22 & !$40 & !$42 & !$61 & $16 & $18 & $19 & $38 & $60 & $63 | !$22 & !$42 & !$60 & !$61 & $16 & $18 & $19 & $38 & $39 & $58 | !$22 & !$42 & !$61 & $16 & $18 & $19 & $38 & $39 & $60 & $63 | !$22 & !$60 & !$61 & $16 & $18 & $38 & $42 & $44 & $58 | !$22 & !$61 & $16 & $18 & $38 & $42 & $44 & $60 & $63
do	foreach($2) ; foreach($48)	set($51.#1, 0)	!$16 & !$22 & !$39 & !$42 & !$60 & $18 & $38 & $40 & $46 & $59 & $61 | !$16 & !$22 & !$39 & !$42 & $18 & $38 & $40 & $46 & $55 & $60 & $61 | !$16 & !$22 & !$40 & !$42 & !$60 & $13 & $18 & $38 & $59 & $61 | !$16 & !$22 & !$40 & !$42 & $13 & $18 & $38 & $55 & $60 & $61 | !$16 & !$22 & !$42 & !$60 & $13 & $18 & $38 & $39 & $59 & $61 | !$16 & !$22 & !$42 & $13 & $18 & $38 & $39 & $55 & $60 & $61 | !$16 & !$22 & !$60 & $18 & $38 & $42 & $45 & $59 & $61 | !$16 & !$22 & $18 & $38 & $42 & $45 & $55 & $60 & $61 | !$22 & !$39 & !$42 & !$60 & $16 & $18 & $38 & $40 & $47 & $52 & $61 | !$22 & !$39 & !$42 & $16 & $18 & $38 & $40 & $47 & $60 & $61 & $65 | !$22 & !$40 & !$42 & !$60 & $16 & $18 & $19 & $38 & $52 & $61 | !$22 & !$40 & !$42 & $16 & $18 & $19 & $38 & $60 & $61 & $65 | !$22 & !$42 & !$60 & $16 & $18 & $19 & $38 & $39 & $52 & $61 | !$22 & !$42 & $16 & $18 & $19 & $38 & $39 & $60 & $61 & $65 | !$22 & !$60 & $16 & $18 & $38 & $42 & $44 & $52 & $61 | !$22 & $16 & $18 & $38 & $42 & $44 & $60 & $61 & $65
do	foreach($2) ; foreach($48)	set(0^.#1, 0)	!$16 & !$22 & !$39 & !$42 & !$60 & !$61 & $18 & $38 & $40 & $46 & $57 | !$16 & !$22 & !$39 & !$42 & !$61 & $18 & $38 & $40 & $46 & $60 & $64 | !$16 & !$22 & !$40 & !$42 & !$60 & !$61 & $13 & $18 & $38 & $57 | !$16 & !$22 & !$40 & !$42 & !$61 & $13 & $18 & $38 & $60 & $64 | !$16 & !$22 & !$42 & !$60 & !$61 & $13 & $18 & $38 & $39 & $57 | !$16 & !$22 & !$42 & !$61 & $13 & $18 & $38 & $39 & $60 & $64 | !$16 & !$22 & !$60 & !$61 & $18 & $38 & $42 & $45 & $57 | !$16 & !$22 & !$61 & $18 & $38 & $42 & $45 & $60 & $64 | !$22 & !$39 & !$42 & !$60 & !$61 & $16 & $18 & $38 & $40 & $47 & $58 | !$22 & !$39 & !$42 & !$61 & $16 & $18 & $38 & $40 & $47 & $60 & $63 | !$22 & !$40 & !$42 & !$60 & !$61 & $16 & $18 & $19 & $38 & $58 | !$22 & !$40 & !$42 & !$61 & $16 & $18 & $19 & $38 & $60 & $63 | !$22 & !$42 & !$60 & !$61 & $16 & $18 & $19 & $38 & $39 & $58 | !$22 & !$42 & !$61 & $16 & $18 & $19 & $38 & $39 & $60 & $63 | !$22 & !$60 & !$61 & $16 & $18 & $38 & $42 & $44 & $58 | !$22 & !$61 & $16 & $18 & $38 & $42 & $44 & $60 & $63
do	foreach($68)	do(`pdaaal::fixed_point_workset::emplace`, self, $1, $68@0.#1, $68@0.#0)	!$16 & !$80 & !$84 & $22 & $79 & lt($1, $14) | !$16 & !$80 & $22 & $72 & $84 & lt($1, $14) | !$16 & !$84 & $22 & $80 & $81 & lt($1, $14) | !$16 & $22 & $80 & $83 & $84 & lt($1, $14) | !$80 & !$84 & $16 & $22 & $82 & lt($1, $14) | !$80 & $16 & $22 & $84 & $85 & lt($1, $14) | !$84 & $16 & $22 & $75 & $80 & lt($1, $14) | $16 & $22 & $77 & $80 & $84 & lt($1, $14)
do	foreach($68)	set($74.#0.#1, $86)	!$16 & !$84 & $22 & $80 & $81 | !$16 & $22 & $80 & $83 & $84 | !$84 & $16 & $22 & $75 & $80 | $16 & $22 & $77 & $80 & $84
do	foreach($68)	set(0^.#0.#1, $86)	!$16 & !$80 & !$84 & $22 & $79 | !$16 & !$80 & $22 & $72 & $84 | !$80 & !$84 & $16 & $22 & $82 | !$80 & $16 & $22 & $84 & $85
do	foreach($68)	set($74.#1, 0)	!$16 & !$84 & $22 & $80 & $81 | !$16 & $22 & $80 & $83 & $84 | !$84 & $16 & $22 & $75 & $80 | $16 & $22 & $77 & $80 & $84
do	foreach($68)	set(0^.#1, 0)	!$16 & !$80 & !$84 & $22 & $79 | !$16 & !$80 & $22 & $72 & $84 | !$80 & !$84 & $16 & $22 & $82 | !$80 & $16 & $22 & $84 & $85
ret	true	true
== i::PostStarFixedPointSaturation::PostStarFixedPointSaturation | i::PostStarFixedPointSaturation<Wi, TT::Longest> | (i::PAutomaton<Wi, TI::Pair> &) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 124
== i::PostStarFixedPointSaturation::step_with | i::PostStarFixedPointSaturation<Wi, TT::Longest> | (i::temp_edge_t &&) | false | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 125
== i::PostStarFixedPointSaturation::step_with | i::PostStarFixedPointSaturation<Wi, TT::Longest> | (i::temp_edge_t &&) | true | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 127
let	$1	param(#0)._from
let	$2	self._pda_states[$1]._rules
let	$3	self._automaton._states
let	$4	param(#0)._label
let	$5	$3[$1]^._edges[param(#0)._to, $4].#1
let	$6	$2@0.#0._weight
let	$7	call(`pdaaal::details::weight_impl::add`, $5, $6)
let	$8	$3[$2@0.#0._to]^._edges
let	$9	$8[param(#0)._to, 4294967295]
let	$10	call(`pdaaal::details::weight_impl::less`, $7, $9.#1')
let	$11	contains($8', param(#0)._to, 4294967295)
let	$12	call(`pdaaal::details::weight_impl::add`, 0^.#1, $6)
let	$13	call(`pdaaal::details::weight_impl::less`, $12, 0^.#1')
let	$14	self._n_pda_states
let	$15	lt($2@0.#0._to, $14)
let	$16	contains($3[$1]^._edges, param(#0)._to, $4)
let	$17	call(`pdaaal::details::weight_impl::less`, $12, $9.#1')
let	$18	call(`pdaaal::internal::labels_t::contains`, $2@0.#1, $4)
let	$19	call(`pdaaal::details::weight_impl::less`, $7, 0^.#1')
let	$20	$2@0.#0._operation
let	$21	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $20)
let	$22	eq($4, 4294967295)
let	$23	pdaaal::internal::trace_t{_label: $4, _rule_id: ix($2, #0), _state: $1}
let	$24	$2@0.#0._op_label
let	$25	$8[param(#0)._to, $24]
let	$26	call(`pdaaal::details::weight_impl::less`, $12, $25.#1')
let	$27	contains($8', param(#0)._to, $24)
let	$28	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $20)
let	$29	call(`pdaaal::details::weight_impl::less`, $7, $25.#1')
let	$30	$8[param(#0)._to, $4]
let	$31	call(`pdaaal::details::weight_impl::less`, $12, $30.#1')
let	$32	contains($8', param(#0)._to, $4)
let	$33	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $20)
let	$34	call(`pdaaal::details::weight_impl::less`, $7, $30.#1')
let	$35	self._q_prime[tuple{#0: $2@0.#0._to, #1: $24}]
let	$36	$8[$35, $24].#1
let	$37	call(`pdaaal::details::weight_impl::less`, 0, $36')
let	$38	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $20)
let	$39	contains($8', $35, $24)
let	$40	call(`pdaaal::details::weight_impl::less`, 0, 0^.#1')
let	$41	$3[$35]^._edges
let	$42	contains($41', param(#0)._to, $4)
let	$43	call(`pdaaal::details::weight_impl::less`, $12, 2147483647)
let	$44	call(`pdaaal::details::weight_impl::less`, $7, 2147483647)
let	$45	$41[param(#0)._to, $4]
let	$46	call(`pdaaal::details::weight_impl::less`, $7, $45.#1')
let	$47	call(`pdaaal::details::weight_impl::less`, $12, $45.#1')
let	$48	set(0^.#1, 2147483647)
let	$49	self._rel2[lin(#0, mul(#-1, self._n_Q), $35)]
let	$50	call(`pdaaal::details::weight_impl::add`, $7, 0^.#1')
let	$51	$3[$49@0]^._edges
let	$52	$51[param(#0)._to, $4]
let	$53	call(`pdaaal::details::weight_impl::less`, $50, $52.#1'')
let	$54	$51[$35, 4294967295].#1''
let	$55	call(`pdaaal::details::weight_impl::add`, $12, $54)
let	$56	call(`pdaaal::details::weight_impl::less`, $55, $52.#1'')
let	$57	call(`pdaaal::details::weight_impl::add`, $12, 0^.#1')
let	$58	call(`pdaaal::details::weight_impl::less`, $57, 0^.#1')
let	$59	call(`pdaaal::details::weight_impl::less`, $50, 0^.#1')
let	$60	call(`pdaaal::details::weight_impl::less`, $57, $52.#1'')
let	$61	contains($51'', $35, 4294967295)
let	$62	contains($51'', param(#0)._to, $4)
let	$63	call(`pdaaal::details::weight_impl::add`, $7, $54)
let	$64	call(`pdaaal::details::weight_impl::less`, $63, 0^.#1')
let	$65	call(`pdaaal::details::weight_impl::less`, $55, 0^.#1')
let	$66	call(`pdaaal::details::weight_impl::less`, $63, $52.#1'')
let	$67	18446744073709551615
let	$68	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $67, _state: $35}
let	$69	self._rel1[lin(#0, mul(#-1, $14), param(#0)._to)]
let	$70	$3[param(#0)._to]^._edges
let	$71	$70[$69@0.#0, $69@0.#1].#1'
let	$72	call(`pdaaal::details::weight_impl::add`, $71, 0^.#1)
let	$73	call(`pdaaal::details::weight_impl::less`, $72, 0^.#1')
let	$74	call(`pdaaal::details::weight_impl::add`, 0^.#1', $5)
let	$75	$3[$1]^._edges[$69@0.#0, $69@0.#1]
let	$76	call(`pdaaal::details::weight_impl::less`, $74, $75.#1')
let	$77	call(`pdaaal::details::weight_impl::add`, $71, $5)
let	$78	call(`pdaaal::details::weight_impl::less`, $77, $75.#1')
let	$79	call(`pdaaal::details::weight_impl::add`, 0^.#1', 0^.#1)
let	$80	call(`pdaaal::details::weight_impl::less`, $79, 0^.#1')
let	$81	contains($3[$1]^._edges', $69@0.#0, $69@0.#1)
let	$82	call(`pdaaal::details::weight_impl::less`, $79, $75.#1')
let	$83	call(`pdaaal::details::weight_impl::less`, $74, 0^.#1')
let	$84	call(`pdaaal::details::weight_impl::less`, $72, $75.#1')
let	$85	contains($70', $69@0.#0, $69@0.#1)
let	$86	call(`pdaaal::details::weight_impl::less`, $77, 0^.#1')
let	$87	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $67, _state: param(#0)._to}
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, 4294967295, param(#0)._to)	!$11 & !$16 & !$22 & $13 & $15 & $18 & $21 | !$11 & !$22 & $15 & $16 & $18 & $19 & $21 | !$16 & !$22 & $11 & $15 & $17 & $18 & $21 | !$22 & $10 & $11 & $15 & $16 & $18 & $21
do	foreach($2)	set($9.#0.#1, $23)	!$16 & !$22 & $11 & $17 & $18 & $21 | !$22 & $10 & $11 & $16 & $18 & $21
do	foreach($2)	set($9.#1, 2147483647)	!$16 & !$22 & $11 & $17 & $18 & $21 | !$22 & $10 & $11 & $16 & $18 & $21
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $24, param(#0)._to)	!$16 & !$22 & !$27 & $13 & $15 & $18 & $28 | !$16 & !$22 & $15 & $18 & $26 & $27 & $28 | !$22 & !$27 & $15 & $16 & $18 & $19 & $28 | !$22 & $15 & $16 & $18 & $27 & $28 & $29
do	foreach($2)	set($25.#0.#1, $23)	!$16 & !$22 & $18 & $26 & $27 & $28 | !$22 & $16 & $18 & $27 & $28 & $29
do	foreach($2)	set($25.#1, 2147483647)	!$16 & !$22 & $18 & $26 & $27 & $28 | !$22 & $16 & $18 & $27 & $28 & $29
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $4, param(#0)._to)	!$16 & !$22 & !$32 & $13 & $15 & $18 & $33 | !$16 & !$22 & $15 & $18 & $31 & $32 & $33 | !$22 & !$32 & $15 & $16 & $18 & $19 & $33 | !$22 & $15 & $16 & $18 & $32 & $33 & $34
do	foreach($2)	set($30.#0.#1, $23)	!$16 & !$22 & $18 & $31 & $32 & $33 | !$22 & $16 & $18 & $32 & $33 & $34
do	foreach($2)	set($30.#1, 2147483647)	!$16 & !$22 & $18 & $31 & $32 & $33 | !$22 & $16 & $18 & $32 & $33 & $34
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $2@0.#0._to, $24, $35)	!$22 & !$39 & $15 & $18 & $38 & $40 | !$22 & $15 & $18 & $37 & $38 & $39
do	foreach($2)	set($8[$35, $24].#0.#1, $23)	!$22 & $18 & $37 & $38 & $39
do	foreach($2)	set($36, 2147483647)	!$22 & $18 & $37 & $38 & $39
do	foreach($2)	do(`pdaaal::fixed_point_workset::emplace`, self, $35, $4, param(#0)._to)	!$16 & !$22 & !$39 & !$42 & $18 & $38 & $40 & $43 & lt($35, $14) | !$16 & !$22 & !$40 & !$42 & $13 & $18 & $38 & lt($35, $14) | !$16 & !$22 & !$42 & $13 & $18 & $38 & $39 & lt($35, $14) | !$16 & !$22 & $18 & $38 & $42 & $47 & lt($35, $14) | !$22 & !$39 & !$42 & $16 & $18 & $38 & $40 & $44 & lt($35, $14) | !$22 & !$40 & !$42 & $16 & $18 & $19 & $38 & lt($35, $14) | !$22 & !$42 & $16 & $18 & $19 & $38 & $39 & lt($35, $14) | !$22 & $16 & $18 & $38 & $42 & $46 & lt($35, $14)
do	foreach($2)	set(0^.#0.#1, $23)	!$11 & !$16 & !$22 & !$28 & !$33 & !$38 & $13 & $18 | !$11 & !$22 & !$28 & !$33 & !$38 & $16 & $18 & $19 | !$16 & !$22 & !$27 & $13 & $18 & $28 | !$16 & !$22 & !$32 & $13 & $18 & $33 | !$16 & !$22 & !$42 & $13 & $18 & $38 | !$22 & !$27 & $16 & $18 & $19 & $28 | !$22 & !$32 & $16 & $18 & $19 & $33 | !$22 & !$39 & $18 & $38 & $40 | !$22 & !$42 & $16 & $18 & $19 & $38
do	foreach($2)	$48	!$11 & !$16 & !$22 & !$28 & !$33 & !$38 & $13 & $18 | !$11 & !$22 & !$28 & !$33 & !$38 & $16 & $18 & $19 | !$16 & !$22 & !$27 & $13 & $18 & $28 | !$16 & !$22 & !$32 & $13 & $18 & $33 | !$16 & !$22 & !$42 & $13 & $18 & $38 | !$22 & !$27 & $16 & $18 & $19 & $28 | !$22 & !$32 & $16 & $18 & $19 & $33 | !$22 & !$39 & $18 & $38 & $40 | !$22 & !$42 & $16 & $18 & $19 & $38
do	foreach($2)	set($45.#0.#1, $23)	!$16 & !$22 & $18 & $38 & $42 & $47 | !$22 & $16 & $18 & $38 & $42 & $46
do	foreach($2)	set($45.#1, 2147483647)	!$16 & !$22 & $18 & $38 & $42 & $47 | !$22 & $16 & $18 & $38 & $42 & $46
do	foreach($2) ; foreach($49)	do(`pdaaal::fixed_point_workset::emplace`, self, $49@0, $4, param(#0)._to)	!$16 & !$22 & !$39 & !$42 & !$61 & !$62 & $18 & $38 & $40 & $43 & $58 & lt($49@0, $14) | !$16 & !$22 & !$39 & !$42 & !$61 & $18 & $38 & $40 & $43 & $60 & $62 & lt($49@0, $14) | !$16 & !$22 & !$39 & !$42 & !$62 & $18 & $38 & $40 & $43 & $61 & $65 & lt($49@0, $14) | !$16 & !$22 & !$39 & !$42 & $18 & $38 & $40 & $43 & $56 & $61 & $62 & lt($49@0, $14) | !$16 & !$22 & !$40 & !$42 & !$61 & !$62 & $13 & $18 & $38 & $58 & lt($49@0, $14) | !$16 & !$22 & !$40 & !$42 & !$61 & $13 & $18 & $38 & $60 & $62 & lt($49@0, $14) | !$16 & !$22 & !$40 & !$42 & !$62 & $13 & $18 & $38 & $61 & $65 & lt($49@0, $14) | !$16 & !$22 & !$40 & !$42 & $13 & $18 & $38 & $56 & $61 & $62 & lt($49@0, $14) | !$16 & !$22 & !$42 & !$61 & !$62 & $13 & $18 & $38 & $39 & $58 & lt($49@0, $14) | !$16 & !$22 & !$42 & !$61 & $13 & $18 & $38 & $39 & $60 & $62 & lt($49@0, $14) | !$16 & !$22 & !$42 & !$62 & $13 & $18 & $38 & $39 & $61 & $65 & lt($49@0, $14) | !$16 & !$22 & !$42 & $13 & $18 & $38 & $39 & $56 & $61 & $62 & lt($49@0, $14) | !$16 & !$22 & !$61 & !$62 & $18 & $38 & $42 & $47 & $58 & lt($49@0, $14) | !$16 & !$22 & !$61 & $18 & $38 & $42 & $47 & $60 & $62 & lt($49@0, $14) | !$16 & !$22 & !$62 & $18 & $38 & $42 & $47 & $61 & $65 & lt($49@0, $14) | !$16 & !$22 & $18 & $38 & $42 & $47 & $56 & $61 & $62 & lt($49@0, $14) | !$22 & !$39 & !$42 & !$61 & !$62 & $16 & $18 & $38 & $40 & $44 & $59 & lt($49@0, $14) | !$22 & !$39 & !$42 & !$61 & $16 & $18 & $38 & $40 & $44 & $53 & $62 & lt($49@0, $14) | !$22 & !$39 & !$42 & !$62 & $16 & $18 & $38 & $40 & $44 & $61 & $64 & lt($49@0, $14) | !$22 & !$39 & !$42 & $16 & $18 & $38 & $40 & $44 & $61 & $62 & $66 & lt($49@0, $14) | !$22 & !$40 & !$42 & !$61 & !$62 & $16 & $18 & $19 & $38 & $59 & lt($49@0, $14) | !$22 & !$40 & !$42 & !$61 & $16 & $18 & $19 & $38 & $53 & $62 & lt($49@0, $14) | !$22 & !$40 & !$42 & !$62 & $16 & $18 & $19 & $38 & $61 & $64 & lt($49@0, $14) | !$22 & !$40 & !$42 & $16 & $18 & $19 & $38 & $61 & $62 & $66 & lt($49@0, $14) | !$22 & !$42 & !$61 & !$62 & $16 & $18 & $19 & $38 & $39 & $59 & lt($49@0, $14) | !$22 & !$42 & !$61 & $16 & $18 & $19 & $38 & $39 & $53 & $62 & lt($49@0, $14) | !$22 & !$42 & !$62 & $16 & $18 & $19 & $38 & $39 & $61 & $64 & lt($49@0, $14) | !$22 & !$42 & $16 & $18 & $19 & $38 & $39 & $61 & $62 & $66 & lt($49@0, $14) | !$22 & !$61 & !$62 & $16 & $18 & $38 & $42 & $46 & $59 & lt($49@0, $14) | !$22 & !$61 & $16 & $18 & $38 & $42 & $46 & $53 & $62 & lt($49@0, $14) | !$22 & !$62 & $16 & $18 & $38 & $42 & $46 & $61 & $64 & lt($49@0, $14) | !$22 & $16 & $18 & $38 & $42 & $46 & $61 & $62 & $66 & lt($49@0, $14)
do	foreach($2) ; foreach($49)	set($52.#0.#1, $68)	!$16 & !$22 & !$39 & !$42 & !$61 & $18 & $38 & $40 & $43 & $60 & $62 | !$16 & !$22 & !$39 & !$42 & $18 & $38 & $40 & $43 & $56 & $61 & $62 | !$16 & !$22 & !$40 & !$42 & !$61 & $13 & $18 & $38 & $60 & $62 | !$16 & !$22 & !$40 & !$42 & $13 & $18 & $38 & $56 & $61 & $62 | !$16 & !$22 & !$42 & !$61 & $13 & $18 & $38 & $39 & $60 & $62 | !$16 & !$22 & !$42 & $13 & $18 & $38 & $39 & $56 & $61 & $62 | !$16 & !$22 & !$61 & $18 & $38 & $42 & $47 & $60 & $62 | !$16 & !$22 & $18 & $38 & $42 & $47 & $56 & $61 & $62 | !$22 & !$39 & !$42 & !$61 & $16 & $18 & $38 & $40 & $44 & $53 & $62 | !$22 & !$39 & !$42 & $16 & $18 & $38 & $40 & $44 & $61 & $62 & $66 | !$22 & !$40 & !$42 & !$61 & $16 & $18 & $19 & $38 & $53 & $62 | !$22 & !$40 & !$42 & $16 & $18 & $19 & $38 & $61 & $62 & $66 | !$22 & !$42 & !$61 & $16 & $18 & $19 & $38 & $39 & $53 & $62 | !$22 & !$42 & $16 & $18 & $19 & $38 & $39 & $61 & $62 & $66 | !$22 & !$61 & $16 & $18 & $38 & $42 & $46 & $53 & $62 | !$22 & $16 & $18 & $38 & $42 & $46 & $61 & $62 & $66
do	foreach($2) ; foreach($49)	set(0^.#0.#1, $68)	!$16 & !$22 & !$39 & !$42 & !$61 & !$62 & $18 & $38 & $40 & $43 & $58 | !$16 & !$22 & !$39 & !$42 & !$62 & $18 & $38 & $40 & $43 & $61 & $65 | !$16 & !$22 & !$40 & !$42 & !$61 & !$62 & $13 & $18 & $38 & $58 | !$16 & !$22 & !$40 & !$42 & !$62 & $13 & $18 & $38 & $61 & $65 | !$16 & !$22 & !$42 & !$61 & !$62 & $13 & $18 & $38 & $39 & $58 | !$16 & !$22 & !$42 & !$62 & $13 & $18 & $38 & $39 & $61 & $65 | !$16 & !$22 & !$61 & !$62 & $18 & $38 & $42 & $47 & $58 | !$16 & !$22 & !$62 & $18 & $38 & $42 & $47 & $61 & $65 | !$22 & !$39 & !$42 & !$61 & !$62 & $16 & $18 & $38 & $40 & $44 & $59 | !$22 & !$39 & !$42 & !$62 & $16 & $18 & $38 & $40 & $44 & $61 & $64 | !$22 & !$40 & !$42 & !$61 & !$62 & $16 & $18 & $19 & $38 & $59 | !$22 & !$40 & !$42 & !$62 & $16 & $18 & $19 & $38 & $61 & $64 | !$22 & !$42 & !$61 & !$62 & $16 & $18 & $19 & $38 & $39 & $59 | !$22 & !$42 & !$62 & $16 & $18 & $19 & $38 & $39 & $61 & $64 | !$22 & !$61 & !$62 & $16 & $18 & $38 & $42 & $46 & $59 | !$22 & !$62 & $16 & $18 & $38 & $42 & $46 & $61 & $64
do	foreach($2) ; foreach($49)	set($52.#1, 2147483647)	!$16 & !$22 & !$39 & !$42 & !$61 & $18 & $38 & $40 & $43 & $60 & $62 | !$16 & !$22 & !$39 & !$42 & $18 & $38 & $40 & $43 & $56 & $61 & $62 | !$16 & !$22 & !$40 & !$42 & !$61 & $13 & $18 & $38 & $60 & $62 | !$16 & !$22 & !$40 & !$42 & $13 & $18 & $38 & $56 & $61 & $62 | !$16 & !$22 & !$42 & !$61 & $13 & $18 & $38 & $39 & $60 & $62 | !$16 & !$22 & !$42 & $13 & $18 & $38 & $39 & $56 & $61 & $62 | !$16 & !$22 & !$61 & $18 & $38 & $42 & $47 & $60 & $62 | !$16 & !$22 & $18 & $38 & $42 & $47 & $56 & $61 & $62 | !$22 & !$39 & !$42 & !$61 & $16 & $18 & $38 & $40 & $44 & $53 & $62 | !$22 & !$39 & !$42 & $16 & $18 & $38 & $40 & $44 & $61 & $62 & $66 | !$22 & !$40 & !$42 & !$61 & $16 & $18 & $19 & $38 & $53 & $62 | !$22 & !$40 & !$42 & $16 & $18 & $19 & $38 & $61 & $62 & $66 | !$22 & !$42 & !$61 & $16 & $18 & $19 & $38 & $39 & $53 & $62 | !$22 & !$42 & $16 & $18 & $19 & $38 & $39 & $61 & $62 & $66 | !$22 & !$61 & $16 & $18 & $38 & $42 & $46 & $53 & $62 | !$22 & $16 & $18 & $38 & $42 & $46 & $61 & $62 & $66
do	foreach($2) ; foreach($49)	$48	!$16 & !$22 & !$39 & !$42 & !$61 & !$62 & $18 & $38 & $40 & $43 & $58 | !$16 & !$22 & !$39 & !$42 & !$62 & $18 & $38 & $40 & $43 & $61 & $65 | !$16 & !$22 & !$40 & !$42 & !$61 & !$62 & $13 & $18 & $38 & $58 | !$16 & !$22 & !$40 & !$42 & !$62 & $13 & $18 & $38 & $61 & $65 | !$16 & !$22 & !$42 & !$61 & !$62 & $13 & $18 & $38 & $39 & $58 | !$16 & !$22 & !$42 & !$62 & $13 & $18 & $38 & $39 & $61 & $65 | !$16 & !$22 & !$61 & !$62 & $18 & $38 & $42 & $47 & $58 | !$16 & !$22 & !$62 & $18 & $38 & $42 & $47 & $61 & $65 | !$22 & !$39 & !$42 & !$61 & !$62 & $16 & $18 & $38 & $40 & $44 & $59 | !$22 & !$39 & !$42 & !$62 & $16 & $18 & $38 & $40 & $44 & $61 & $64 | !$22 & !$40 & !$42 & !$61 & !$62 & $16 & $18 & $19 & $38 & $59 | !$22 & !$40 & !$42 & !$62 & $16 & $18 & $19 & $38 & $61 & $64 | !$22 & !$42 & !$61 & !$62 & $16 & $18 & $19 & $38 & $39 & $59 | !$22 & !$42 & !$62 & $16 & $18 & $19 & $38 & $39 & $61 & $64 | !$22 & !$61 & !$62 & $16 & $18 & $38 & $42 & $46 & $59 | !$22 & !$62 & $16 & $18 & $38 & $42 & $46 & $61 & $64
do	foreach($69)	do(`pdaaal::fixed_point_workset::emplace`, self, $1, $69@0.#1, $69@0.#0)	!$16 & !$81 & !$85 & $22 & $80 & lt($1, $14) | !$16 & !$81 & $22 & $73 & $85 & lt($1, $14) | !$16 & !$85 & $22 & $81 & $82 & lt($1, $14) | !$16 & $22 & $81 & $84 & $85 & lt($1, $14) | !$81 & !$85 & $16 & $22 & $83 & lt($1, $14) | !$81 & $16 & $22 & $85 & $86 & lt($1, $14) | !$85 & $16 & $22 & $76 & $81 & lt($1, $14) | $16 & $22 & $78 & $81 & $85 & lt($1, $14)
do	foreach($69)	set($75.#0.#1, $87)	!$16 & !$85 & $22 & $81 & $82 | !$16 & $22 & $81 & $84 & $85 | !$85 & $16 & $22 & $76 & $81 | $16 & $22 & $78 & $81 & $85
do	foreach($69)	set(0^.#0.#1, $87)	!$16 & !$81 & !$85 & $22 & $80 | !$16 & !$81 & $22 & $73 & $85 | !$81 & !$85 & $16 & $22 & $83 | !$81 & $16 & $22 & $85 & $86
do	foreach($69)	set($75.#1, 2147483647)	!$16 & !$85 & $22 & $81 & $82 | !$16 & $22 & $81 & $84 & $85 | !$85 & $16 & $22 & $76 & $81 | $16 & $22 & $78 & $81 & $85
do	foreach($69)	$48	!$16 & !$81 & !$85 & $22 & $80 | !$16 & !$81 & $22 & $73 & $85 | !$81 & !$85 & $16 & $22 & $83 | !$81 & $16 & $22 & $85 & $86
ret	true	true
== i::TraceBack::post | i::TraceBack<W0, TI::Single> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 128
ret	self._post	true
== i::TraceBack::path | i::TraceBack<W0, TI::Single> | () const |  | const AutomatonPath<false> &
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 129
ret	self._path	true
== i::TraceBack::post | i::TraceBack<Wu, TI::Single> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 128
== i::TraceBack::path | i::TraceBack<Wu, TI::Single> | () const |  | const AutomatonPath<false> &
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 129
== i::TraceBack::post | i::TraceBack<Wu, TI::Pair> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 128
== i::TraceBack::path | i::TraceBack<Wu, TI::Pair> | () const |  | const AutomatonPath<false> &
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 129
== i::TraceBack::TraceBack | i::TraceBack<Wi, TI::Pair> | (const i::PAutomaton<Wi, TI::Pair> &, AutomatonPath<false> &&) |  | void
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 130
do		set(self._automaton, addrof(param(#0)))	true
do		set(self._path, param(#1))	true
do		set(self._post, false)	true
== i::TraceBack::post | i::TraceBack<Wi, TI::Pair> | () const |  | bool
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 128
== i::TraceBack::path | i::TraceBack<Wi, TI::Pair> | () const |  | const AutomatonPath<false> &
-- file: include/pdaaal/internal/PdaSaturation.h
-- same: 129
== i::TraceBack::next | i::TraceBack<Wi, TI::Pair> | () | false | std::optional<user_rule_t<Wi, void>>
-- file: include/pdaaal/internal/PdaSaturation.h
-- id: 131
let	$1	self._automaton
let	$2	call(`pdaaal::AutomatonPath::front_edge`, self._path')
let	$3	$1._states[$2.#0]^._edges
let	$4	$3[$2.#2, $2.#1].#0.#1
let	$5	18446744073709551615
let	$6	eq($4._rule_id, $5)
let	$7	eq($5, $4._state)
let	$8	contains($3, $2.#2, $2.#1)
let	$9	empty(self._path._edges')
let	$10	eq(4294967295, $4._label)
let	$11	$1._pda._states
let	$12	$11[$2.#0]._rules[$4._rule_id].#0
let	$13	enum(`pdaaal::SWAP`, `pdaaal::op_t`)
let	$14	eq($13, $12._operation)
let	$15	eq(4294967294, $4._label)
let	$16	enum(`pdaaal::PUSH`, `pdaaal::op_t`)
let	$17	eq($16, $12._operation)
let	$18	enum(`pdaaal::NOOP`, `pdaaal::op_t`)
let	$19	$11[$4._state]._rules[$4._rule_id].#0
let	$20	eq($16, $19._operation)
let	$21	call(`pdaaal::AutomatonPath::front_edge`, self._path'')
let	$22	$1._states[$21.#0]^._edges
let	$23	$22[$21.#2, $21.#1].#0.#1
let	$24	contains($22, $21.#2, $21.#1)
let	$25	eq($13, $19._operation)
let	$26	exists(loop(#0), {$25})
let	$27	$11[$23._state]._rules[$23._rule_id].#0
let	$28	eq($27._operation, $13)
let	$29	$11[$5]._rules[$5].#0
let	$30	eq($16, $29._operation)
let	$31	exists(loop(#0), true)
let	$32	exists(loop(#0), {!$10 & $14 | !$10 & $17 | !$6 & $14 | !$6 & $17 | !$7 & $14 | !$7 & $17})
let	$33	eq($13, $29._operation)
let	$34	exists(loop(#0), {$30 | $33})
let	$35	eq($27._operation, $16)
let	$36	exists(loop(#0), {$28 | $35})
let	$37	exists(loop(#0), {!$10 | !$6 | !$7})
let	$38	exists(loop(#0), {!$8 | $10 & $6 & $7 | $9})
dom	loop(#0)	do(`pdaaal::AutomatonPath::pop`, self._path)	!$10 & !$9 & $8 | !$6 & !$9 & $8 | !$7 & !$9 & $8
dom	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $12._to, $12._op_label)	!$9 & $14 & $15 & $8 | !$9 & $15 & $17 & $8
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $12._to, $2.#1)	!$9 & $15 & $8 & eq($18, $12._operation)
dom	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $4._state, $2.#1)	!$6 & !$9 & $10 & $8 | !$7 & !$9 & $10 & $8 | !$9 & $15 & $17 & $8
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $2.#0, 4294967295)	!$6 & !$9 & $10 & $8 | !$7 & !$9 & $10 & $8
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $4._state, $4._label)	!$10 & !$15 & !$20 & !$9 & $8
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $23._state, $23._label)	!$10 & !$15 & !$9 & $20 & $24 & $8
do	loop(#0)	do(`pdaaal::AutomatonPath::emplace`, self._path, $5, 4294967295)	!$10 & !$15 & !$24 & !$9 & $20 & $8
do	loop(#0)	set(self._post, true)	!$10 & !$15 & !$9 & !self._post' & $8
do	loop(#0)	exit	!$10 | !$8 | $6 & $7 | $9
ret	nullopt	!$15 & !$20 & !$26 & !$31 & $38 | !$15 & !$24 & !$26 & !$31 & !$34 & $38 | !$15 & !$24 & !$26 & !$34 & $20 & $30 & $38 | !$15 & !$24 & !$26 & !$34 & $20 & $33 & $38 | !$15 & !$26 & !$31 & !$36 & $24 & $38 | !$15 & !$26 & !$36 & $20 & $24 & $28 & $38 | !$15 & !$26 & !$36 & $20 & $24 & $35 & $38 | !$15 & !$26 & $25 & $38 | !$32 & !$37 & $15 & $38 | !$32 & $14 & $15 & $38 | !$32 & $15 & $17 & $38 | !$8 & $38 | $10 & $38 | $38 & $9
ret	some(pdaaal::user_rule_t{_from: $2.#0, _op: $12._operation, _op_label: $12._op_label, _pre: $2.#1, _to: $12._to, _weight: $12._weight})	!$37 & !$38 & !$9 & $15 & $32 & $8 | !$38 & !$9 & $14 & $15 & $32 & $8 | !$38 & !$9 & $15 & $17 & $32 & $8
ret	some(pdaaal::user_rule_t{_from: $2.#0, _op: $12._operation, _op_label: 4294967295, _pre: $2.#1, _to: $12._to, _weight: $12._weight})	!$14 & !$17 & !$32 & !$38 & !$9 & $15 & $37 & $8
ret	some(pdaaal::user_rule_t{_from: $23._state, _op: $27._operation, _op_label: $27._op_label, _pre: $23._label, _to: $27._to, _weight: $27._weight})	!$10 & !$15 & !$26 & !$31 & !$38 & !$9 & $20 & $24 & $36 & $8 | !$10 & !$15 & !$26 & !$38 & !$9 & $20 & $24 & $28 & $36 & $8 | !$10 & !$15 & !$26 & !$38 & !$9 & $20 & $24 & $35 & $36 & $8
ret	some(pdaaal::user_rule_t{_from: $23._state, _op: $27._operation, _op_label: 4294967295, _pre: $23._label, _to: $27._to, _weight: $27._weight})	!$10 & !$15 & !$26 & !$28 & !$35 & !$36 & !$38 & !$9 & $20 & $24 & $31 & $8
ret	some(pdaaal::user_rule_t{_from: $5, _op: $29._operation, _op_label: $29._op_label, _pre: 4294967295, _to: $29._to, _weight: $29._weight})	!$10 & !$15 & !$24 & !$26 & !$31 & !$38 & !$9 & $20 & $34 & $8 | !$10 & !$15 & !$24 & !$26 & !$38 & !$9 & $20 & $30 & $34 & $8 | !$10 & !$15 & !$24 & !$26 & !$38 & !$9 & $20 & $33 & $34 & $8
ret	some(pdaaal::user_rule_t{_from: $5, _op: $29._operation, _op_label: 4294967295, _pre: 4294967295, _to: $29._to, _weight: $29._weight})	!$10 & !$15 & !$24 & !$26 & !$30 & !$33 & !$34 & !$38 & !$9 & $20 & $31 & $8
ret	some(pdaaal::user_rule_t{_from: $4._state, _op: $19._operation, _op_label: $19._op_label, _pre: $4._label, _to: $19._to, _weight: $19._weight})	!$10 & !$15 & !$20 & !$31 & !$38 & !$9 & $26 & $8 | !$10 & !$15 & !$24 & !$31 & !$34 & !$38 & !$9 & $26 & $8 | !$10 & !$15 & !$24 & !$34 & !$38 & !$9 & $20 & $26 & $30 & $8 | !$10 & !$15 & !$24 & !$34 & !$38 & !$9 & $20 & $26 & $33 & $8 | !$10 & !$15 & !$31 & !$36 & !$38 & !$9 & $24 & $26 & $8 | !$10 & !$15 & !$36 & !$38 & !$9 & $20 & $24 & $26 & $28 & $8 | !$10 & !$15 & !$36 & !$38 & !$9 & $20 & $24 & $26 & $35 & $8 | !$10 & !$15 & !$38 & !$9 & $25 & $26 & $8
ret	some(pdaaal::user_rule_t{_from: $4._state, _op: $19._operation, _op_label: 4294967295, _pre: $4._label, _to: $19._to, _weight: $19._weight})	!$10 & !$15 & !$20 & !$25 & !$26 & !$38 & !$9 & $31 & $8
== Solver::pre_star_fixed_point_accepts | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> &) | TT::Longest, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu | bool
-- file: include/pdaaal/Solver.h
-- id: 132
let	$1	param(#0)._swap_initial_final'
do		do(`pdaaal::PAutomatonProduct::enable_pre_star`, param(#0))	true
do		do(`pdaaal::Solver::pre_star_fixed_point`, param(#0)._final)	$1
do		do(`pdaaal::Solver::pre_star_fixed_point`, param(#0)._initial)	!$1
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	true
ret	res(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	true
== Solver::pre_star_fixed_point_accepts | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> &) | TT::ShortestFixedPoint, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu | bool
-- file: include/pdaaal/Solver.h
-- same: 132
== Solver::pre_star_fixed_point_accepts | Solver | (PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> &) | TT::Longest, PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi | bool
-- file: include/pdaaal/Solver.h
-- same: 132
== Solver::pre_star_fixed_point_accepts | Solver | (PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> &) | TT::ShortestFixedPoint, PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi | bool
-- file: include/pdaaal/Solver.h
-- same: 132
== Solver::pre_star_fixed_point | Solver | (i::PAutomaton<Wu, TI::Pair> &) | TT::Longest, Wu | void
-- file: include/pdaaal/Solver.h
-- id: 133
do		do(`pdaaal::fixed_point_workset::run`, L(#0))	true
dom		init(L(#0), ctor(`pdaaal::internal::PreStarFixedPointSaturation`, param(#0)))	true
== Solver::pre_star_fixed_point | Solver | (i::PAutomaton<Wu, TI::Pair> &) | TT::ShortestFixedPoint, Wu | void
-- file: include/pdaaal/Solver.h
-- same: 133
== Solver::pre_star_fixed_point | Solver | (i::PAutomaton<Wi, TI::Pair> &) | TT::Longest, Wi | void
-- file: include/pdaaal/Solver.h
-- same: 133
== Solver::pre_star_fixed_point | Solver | (i::PAutomaton<Wi, TI::Pair> &) | TT::ShortestFixedPoint, Wi | void
-- file: include/pdaaal/Solver.h
-- same: 133
== Solver::post_star_fixed_point_accepts | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> &) | TT::Longest, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu | bool
-- file: include/pdaaal/Solver.h
-- id: 134
let	$1	param(#0)._swap_initial_final
do		do(`pdaaal::Solver::post_star_fixed_point`, param(#0)._final)	$1
do		do(`pdaaal::Solver::post_star_fixed_point`, param(#0)._initial)	!$1
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	true
ret	res(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	true
== Solver::post_star_fixed_point_accepts | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> &) | TT::ShortestFixedPoint, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu | bool
-- file: include/pdaaal/Solver.h
-- same: 134
== Solver::post_star_fixed_point_accepts | Solver | (PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> &) | TT::Longest, PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi | bool
-- file: include/pdaaal/Solver.h
-- same: 134
== Solver::post_star_fixed_point_accepts | Solver | (PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> &) | TT::ShortestFixedPoint, PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi | bool
-- file: include/pdaaal/Solver.h
-- same: 134
== Solver::post_star_fixed_point | Solver | (i::PAutomaton<Wu, TI::Pair> &) | TT::Longest, Wu | void
-- file: include/pdaaal/Solver.h
-- id: 135
do		do(`pdaaal::fixed_point_workset::run`, L(#0))	true
dom		init(L(#0), ctor(`pdaaal::internal::PostStarFixedPointSaturation`, param(#0)))	true
== Solver::post_star_fixed_point | Solver | (i::PAutomaton<Wu, TI::Pair> &) | TT::ShortestFixedPoint, Wu | void
-- file: include/pdaaal/Solver.h
-- same: 135
== Solver::post_star_fixed_point | Solver | (i::PAutomaton<Wi, TI::Pair> &) | TT::Longest, Wi | void
-- file: include/pdaaal/Solver.h
-- same: 135
== Solver::post_star_fixed_point | Solver | (i::PAutomaton<Wi, TI::Pair> &) | TT::ShortestFixedPoint, Wi | void
-- file: include/pdaaal/Solver.h
-- same: 135
== Solver::interleaving_fixed_point_accepts | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> &, PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> &) | TT::Longest, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu | std::pair<bool, bool>
-- file: include/pdaaal/Solver.h
-- id: 136
let	$1	empty(L(#1)'._workset)
let	$2	L(#0)'._round_limit
let	$3	lt(L(#0)._rounds', $2)
let	$4	empty(L(#0)._workset')
let	$5	L(#0)'._workset
let	$6	lt(L(#0)'._rounds, $2)
let	$7	lt(L(#1)'._rounds, L(#1)'._round_limit)
let	$8	param(#1)._swap_initial_final'
let	$9	param(#0)._swap_initial_final
do		do(`pdaaal::PAutomatonProduct::enable_pre_star`, param(#1))	true
dom	loop(#0)	do(`pdaaal::fixed_point_workset::step`, L(#0))	!$1 & !$4 & !L(#0)._done' & !L(#1)'._done | !$1 & !L(#0)'._done & !L(#1)'._done & !empty($5) | !$1 & !L(#0)'._done & !L(#1)'._done & $6 | !$1 & !L(#0)._done' & !L(#1)'._done & $3 | !$4 & !L(#0)._done' & !L(#1)'._done & $7 | !L(#0)'._done & !L(#1)'._done & !empty($5) & $7 | !L(#0)'._done & !L(#1)'._done & $6 & $7 | !L(#0)._done' & !L(#1)'._done & $3 & $7
do	loop(#0)	do(`pdaaal::fixed_point_workset::step`, L(#1))	!$1 & !L(#0)'._done & !L(#1)'._done & !empty($5) | !$1 & !L(#0)'._done & !L(#1)'._done & $6 | !L(#0)'._done & !L(#1)'._done & !empty($5) & $7 | !L(#0)'._done & !L(#1)'._done & $6 & $7
dom	loop(#0)	exit	!$3 & $4 | !$6 & empty($5) | !$7 & $1 | L(#0)'._done | L(#0)._done' | L(#1)'._done
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#1))	!$7 & $1 | L(#1)'._done
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	!$1 & !L(#1)'._done | !L(#1)'._done & $7
dom		init(L(#1), ite([$8, ctor(`pdaaal::internal::PreStarFixedPointSaturation`, param(#1)._final), {!$8}, ctor(`pdaaal::internal::PreStarFixedPointSaturation`, param(#1)._initial)]))	true
dom		init(L(#0), ite([{!$9}, ctor(`pdaaal::internal::PostStarFixedPointSaturation`, param(#0)._initial), $9, ctor(`pdaaal::internal::PostStarFixedPointSaturation`, param(#0)._final)]))	true
dom		init(L(#0)._done, L(#0)'._done)	true
dom		init(L(#0)._next_workset, L(#0)'._next_workset)	true
dom		init(L(#0)._rounds, 0)	true
dom		init(L(#0)._workset, $5)	true
dom		init(L(#0)._automaton._states, L(#0)'._automaton._states)	true
ret	tuple{#0: res(`pdaaal::PAutomatonProduct::initialize_product`, param(#1)), #1: true}	!$7 & $1 | L(#1)'._done
ret	tuple{#0: res(`pdaaal::PAutomatonProduct::initialize_product`, param(#0)), #1: false}	!$1 & !L(#1)'._done | !L(#1)'._done & $7
== Solver::interleaving_fixed_point_accepts | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> &, PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> &) | TT::ShortestFixedPoint, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu | std::pair<bool, bool>
-- file: include/pdaaal/Solver.h
-- same: 136
== Solver::interleaving_fixed_point_accepts | Solver | (PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> &, PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> &) | TT::Longest, PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi | std::pair<bool, bool>
-- file: include/pdaaal/Solver.h
-- id: 137
let	$1	empty(L(#1)'._workset)
let	$2	L(#0)'._round_limit
let	$3	lt(L(#0)._rounds', $2)
let	$4	empty(L(#0)._workset')
let	$5	L(#0)'._workset
let	$6	lt(L(#0)'._rounds, $2)
let	$7	lt(L(#1)'._rounds, L(#1)'._round_limit)
let	$8	param(#1)._swap_initial_final'
let	$9	param(#0)._swap_initial_final
do		do(`pdaaal::PAutomatonProduct::enable_pre_star`, param(#1))	true
dom	loop(#0)	do(`pdaaal::fixed_point_workset::step`, L(#0))	!$1 & !$4 & !L(#0)._done' & !L(#1)'._done | !$1 & !L(#0)'._done & !L(#1)'._done & !empty($5) | !$1 & !L(#0)'._done & !L(#1)'._done & $6 | !$1 & !L(#0)._done' & !L(#1)'._done & $3 | !$4 & !L(#0)._done' & !L(#1)'._done & $7 | !L(#0)'._done & !L(#1)'._done & !empty($5) & $7 | !L(#0)'._done & !L(#1)'._done & $6 & $7 | !L(#0)._done' & !L(#1)'._done & $3 & $7
do	loop(#0)	do(`pdaaal::fixed_point_workset::step`, L(#1))	!$1 & !L(#0)'._done & !L(#1)'._done & !empty($5) | !$1 & !L(#0)'._done & !L(#1)'._done & $6 | !L(#0)'._done & !L(#1)'._done & !empty($5) & $7 | !L(#0)'._done & !L(#1)'._done & $6 & $7
dom	loop(#0)	exit	!$3 & $4 | !$6 & empty($5) | !$7 & $1 | L(#0)'._done | L(#0)._done' | L(#1)'._done
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#1))	!$7 & $1 | L(#1)'._done
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	!$1 & !L(#1)'._done | !L(#1)'._done & $7
dom		init(L(#1), ite([$8, ctor(`pdaaal::internal::PreStarFixedPointSaturation`, param(#1)._final), {!$8}, ctor(`pdaaal::internal::PreStarFixedPointSaturation`, param(#1)._initial)]))	true
dom		init(L(#0), ite([{!$9}, ctor(`pdaaal::internal::PostStarFixedPointSaturation`, param(#0)._initial), $9, ctor(`pdaaal::internal::PostStarFixedPointSaturation`, param(#0)._final)]))	true
dom		init(L(#0)._rounds, 0)	true
dom		init(L(#0)._workset, $5)	true
dom		init(L(#0)._automaton._states, L(#0)'._automaton._states)	true
dom		init(L(#0)._done, L(#0)'._done)	true
dom		init(L(#0)._next_workset, L(#0)'._next_workset)	true
ret	tuple{#0: res(`pdaaal::PAutomatonProduct::initialize_product`, param(#1)), #1: true}	!$7 & $1 | L(#1)'._done
ret	tuple{#0: res(`pdaaal::PAutomatonProduct::initialize_product`, param(#0)), #1: false}	!$1 & !L(#1)'._done | !L(#1)'._done & $7
== Solver::interleaving_fixed_point_accepts | Solver | (PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> &, PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> &) | TT::ShortestFixedPoint, PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi | std::pair<bool, bool>
-- file: include/pdaaal/Solver.h
-- id: 138
let	$1	empty(L(#1)'._workset)
let	$2	L(#0)'._round_limit
let	$3	lt(L(#0)._rounds', $2)
let	$4	empty(L(#0)._workset')
let	$5	L(#0)'._workset
let	$6	lt(L(#0)'._rounds, $2)
let	$7	lt(L(#1)'._rounds, L(#1)'._round_limit)
let	$8	param(#0)._swap_initial_final
let	$9	param(#1)._swap_initial_final'
do		do(`pdaaal::PAutomatonProduct::enable_pre_star`, param(#1))	true
dom	loop(#0)	do(`pdaaal::fixed_point_workset::step`, L(#0))	!$1 & !$4 & !L(#0)._done' & !L(#1)'._done | !$1 & !L(#0)'._done & !L(#1)'._done & !empty($5) | !$1 & !L(#0)'._done & !L(#1)'._done & $6 | !$1 & !L(#0)._done' & !L(#1)'._done & $3 | !$4 & !L(#0)._done' & !L(#1)'._done & $7 | !L(#0)'._done & !L(#1)'._done & !empty($5) & $7 | !L(#0)'._done & !L(#1)'._done & $6 & $7 | !L(#0)._done' & !L(#1)'._done & $3 & $7
do	loop(#0)	do(`pdaaal::fixed_point_workset::step`, L(#1))	!$1 & !L(#0)'._done & !L(#1)'._done & !empty($5) | !$1 & !L(#0)'._done & !L(#1)'._done & $6 | !L(#0)'._done & !L(#1)'._done & !empty($5) & $7 | !L(#0)'._done & !L(#1)'._done & $6 & $7
dom	loop(#0)	exit	!$3 & $4 | !$6 & empty($5) | !$7 & $1 | L(#0)'._done | L(#0)._done' | L(#1)'._done
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#1))	!$7 & $1 | L(#1)'._done
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	!$1 & !L(#1)'._done | !L(#1)'._done & $7
dom		init(L(#0), ite([{!$8}, ctor(`pdaaal::internal::PostStarFixedPointSaturation`, param(#0)._initial), $8, ctor(`pdaaal::internal::PostStarFixedPointSaturation`, param(#0)._final)]))	true
dom		init(L(#1), ite([$9, ctor(`pdaaal::internal::PreStarFixedPointSaturation`, param(#1)._final), {!$9}, ctor(`pdaaal::internal::PreStarFixedPointSaturation`, param(#1)._initial)]))	true
dom		init(L(#0)._rounds, 0)	true
dom		init(L(#0)._workset, $5)	true
dom		init(L(#0)._automaton._states, L(#0)'._automaton._states)	true
dom		init(L(#0)._done, L(#0)'._done)	true
dom		init(L(#0)._next_workset, L(#0)'._next_workset)	true
ret	tuple{#0: res(`pdaaal::PAutomatonProduct::initialize_product`, param(#1)), #1: true}	!$7 & $1 | L(#1)'._done
ret	tuple{#0: res(`pdaaal::PAutomatonProduct::initialize_product`, param(#0)), #1: false}	!$1 & !L(#1)'._done | !L(#1)'._done & $7
== Solver::dual_search_accepts | Solver | (PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> &) | TT::Any, PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0 | bool
-- file: include/pdaaal/Solver.h
-- id: 139
let	$1	param(#0)._final
let	$2	param(#0)._initial
let	$3	fun(res(`pdaaal::PAutomatonProduct::add_final_edge`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), true), [eff(ctx([]), true, do(`pdaaal::PAutomatonProduct::add_final_edge`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), true))])
let	$4	fun(res(`pdaaal::PAutomatonProduct::add_initial_edge`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), true), [eff(ctx([]), true, do(`pdaaal::PAutomatonProduct::add_initial_edge`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), true))])
let	$5	res(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	true
do		do(`pdaaal::Solver::dual_search`, $1, $2, $3, $4)	!$5
ret	{$5 | res(`pdaaal::Solver::dual_search`, $1, $2, $3, $4)}	true
== Solver::dual_search_accepts | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::Any, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | bool
-- file: include/pdaaal/Solver.h
-- id: 140
let	$1	param(#0)._final
let	$2	param(#0)._initial
let	$3	fun(res(`pdaaal::PAutomatonProduct::add_final_edge`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), 0), [eff(ctx([]), true, do(`pdaaal::PAutomatonProduct::add_final_edge`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), 0))])
let	$4	fun(res(`pdaaal::PAutomatonProduct::add_initial_edge`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), 0), [eff(ctx([]), true, do(`pdaaal::PAutomatonProduct::add_initial_edge`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), 0))])
let	$5	res(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	true
do		do(`pdaaal::Solver::dual_search`, $1, $2, $3, $4)	!$5
ret	{$5 | res(`pdaaal::Solver::dual_search`, $1, $2, $3, $4)}	true
== Solver::dual_search_accepts | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::Shortest, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | bool
-- file: include/pdaaal/Solver.h
-- id: 141
let	$1	param(#0)._final
let	$2	param(#0)._initial
let	$3	fun(res(`pdaaal::PAutomatonProduct::add_final_edge`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), lp(#0, #4)), [eff(ctx([]), true, do(`pdaaal::PAutomatonProduct::add_final_edge`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), lp(#0, #4)))])
let	$4	fun(res(`pdaaal::PAutomatonProduct::add_initial_edge`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), lp(#0, #4)), [eff(ctx([]), true, do(`pdaaal::PAutomatonProduct::add_initial_edge`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), lp(#0, #4)))])
let	$5	res(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	true
do		do(`pdaaal::Solver::dual_short_search`, $1, $2, $3, $4)	!$5
ret	{!empty(param(#0)._product._accepting') | $5 | res(`pdaaal::Solver::dual_short_search`, $1, $2, $3, $4)}	true
== Solver::dual_short_search | Solver | (i::PAutomaton<Wu, TI::Single> &, i::PAutomaton<Wu, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &)> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &)> &) | Wu, true | bool
-- file: include/pdaaal/Solver.h
-- id: 142
let	$1	empty(L(#0)._workset')
let	$2	ctor(`pdaaal::internal::PreStarSaturation`, param(#0), param(#2))
let	$3	empty(L(#1)._workset')
let	$4	ctor(`pdaaal::internal::PostStarShortestSaturation`, param(#1), param(#3))
do	loop(#0)	do(`pdaaal::internal::PostStarShortestSaturation::step`, L(#1))	!$1 & !$2._found & !$3 & !$4._found
do	loop(#0)	do(`pdaaal::internal::PreStarSaturation::step`, L(#0))	!$1 & !$2._found & !$3 & !$4._found & !L(#1)._found''
do	loop(#0)	exit	!$2._found & !$4._found & $1 | !$2._found & !$4._found & $3 | !$2._found & !$4._found & L(#0)._found'' | !$2._found & !$4._found & L(#1)._found''
dom		init(L(#1)._found, $4._found)	true
dom		init(L(#1)._rel2, $4._rel2)	true
dom		init(L(#1)._workset, $4._workset)	true
dom		init(L(#0)._minpath, $2._minpath)	true
dom		init(L(#0)._delta_prime, $2._delta_prime)	true
dom		init(L(#0)._found, $2._found)	true
dom		init(L(#0)._rel, $2._rel)	true
dom		init(L(#1)._automaton._states, $4._automaton._states)	true
dom		init(L(#0)._workset, $2._workset)	true
dom		init(L(#1)._rel1, $4._rel1)	true
dom		init(L(#1)._edge_weights, $4._edge_weights)	true
dom		init(L(#0)._automaton._states, $2._automaton._states)	true
dom		init(L(#0)._popped, $2._popped)	true
dom		init(L(#1)._minpath, $4._minpath)	true
ret	{!$1 & !$3 & exists(loop(#0), {L(#0)._found'' | L(#1)._found''}) | $2._found | $4._found | L(#0)._found' | L(#1)._found'}	true
== Solver::dual_search | Solver | (i::PAutomaton<W0, TI::Single> &, i::PAutomaton<W0, TI::Single> &, const std::function<bool (u64, u32, u64, i::trace_t, const bool &)> &, const std::function<bool (u64, u32, u64, i::trace_t)> &) | W0, true | bool
-- file: include/pdaaal/Solver.h
-- id: 143
let	$1	ctor(`pdaaal::internal::PostStarSaturation`, param(#1), param(#3))
let	$2	empty(L(#0)._workset')
let	$3	ctor(`pdaaal::internal::PreStarSaturation`, param(#0), param(#2))
let	$4	empty(L(#1)._workset')
do	loop(#0)	do(`pdaaal::internal::PostStarSaturation::step`, L(#1))	!$1._found & !$2 & !$3._found & !$4
do	loop(#0)	do(`pdaaal::internal::PreStarSaturation::step`, L(#0))	!$1._found & !$2 & !$3._found & !$4 & !L(#1)._found''
do	loop(#0)	exit	!$1._found & !$3._found & $2 | !$1._found & !$3._found & $4 | !$1._found & !$3._found & L(#0)._found'' | !$1._found & !$3._found & L(#1)._found''
dom		init(L(#0)._workset, $3._workset)	true
dom		init(L(#1)._rel2, $1._rel2)	true
dom		init(L(#1)._workset, $1._workset)	true
dom		init(L(#0)._delta_prime, $3._delta_prime)	true
dom		init(L(#0)._popped, $3._popped)	true
dom		init(L(#0)._found, $3._found)	true
dom		init(L(#1)._rel1, $1._rel1)	true
dom		init(L(#1)._automaton._states, $1._automaton._states)	true
dom		init(L(#1)._found, $1._found)	true
dom		init(L(#0)._automaton._states, $3._automaton._states)	true
dom		init(L(#0)._rel, $3._rel)	true
ret	{!$2 & !$4 & exists(loop(#0), {L(#0)._found'' | L(#1)._found''}) | $1._found | $3._found | L(#0)._found' | L(#1)._found'}	true
== Solver::dual_search | Solver | (i::PAutomaton<Wu, TI::Single> &, i::PAutomaton<Wu, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &)> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>)> &) | Wu, true | bool
-- file: include/pdaaal/Solver.h
-- id: 144
let	$1	ctor(`pdaaal::internal::PostStarSaturation`, param(#1), param(#3))
let	$2	empty(L(#0)._workset')
let	$3	ctor(`pdaaal::internal::PreStarSaturation`, param(#0), param(#2))
let	$4	empty(L(#1)._workset')
do	loop(#0)	do(`pdaaal::internal::PostStarSaturation::step`, L(#1))	!$1._found & !$2 & !$3._found & !$4
do	loop(#0)	do(`pdaaal::internal::PreStarSaturation::step`, L(#0))	!$1._found & !$2 & !$3._found & !$4 & !L(#1)._found''
do	loop(#0)	exit	!$1._found & !$3._found & $2 | !$1._found & !$3._found & $4 | !$1._found & !$3._found & L(#0)._found'' | !$1._found & !$3._found & L(#1)._found''
dom		init(L(#1)._automaton._states, $1._automaton._states)	true
dom		init(L(#1)._found, $1._found)	true
dom		init(L(#0)._popped, $3._popped)	true
dom		init(L(#0)._delta_prime, $3._delta_prime)	true
dom		init(L(#0)._found, $3._found)	true
dom		init(L(#1)._rel2, $1._rel2)	true
dom		init(L(#1)._workset, $1._workset)	true
dom		init(L(#0)._rel, $3._rel)	true
dom		init(L(#0)._automaton._states, $3._automaton._states)	true
dom		init(L(#0)._workset, $3._workset)	true
dom		init(L(#1)._rel1, $1._rel1)	true
ret	{!$2 & !$4 & exists(loop(#0), {L(#0)._found'' | L(#1)._found''}) | $1._found | $3._found | L(#0)._found' | L(#1)._found'}	true
== Solver::pre_star_accepts | Solver | (i::PAutomaton<W0, TI::Single> &, u64, const std::vector<u32> &) | TT::Any, W0 | bool
-- file: include/pdaaal/Solver.h
-- id: 145
let	$1	fun({eq(param(#1), lp(#0, #0)) & eq(param(#2)[0], lp(#0, #1)) & param(#0)._states[lp(#0, #2)]^._accepting}, [])
let	$2	call(`pdaaal::internal::PAutomaton::accepts`, param(#0), param(#1), param(#2))
let	$3	eq(size(param(#2)), 1)
do		do(`pdaaal::Solver::pre_star`, param(#0), $1)	!$2 & $3
do		do(`pdaaal::Solver::pre_star`, param(#0), fun(false, []))	!$3
ret	{!$3 & res(`pdaaal::Solver::pre_star`, param(#0), fun(false, [])) | $2 | $3 & res(`pdaaal::Solver::pre_star`, param(#0), $1)}	true
== Solver::pre_star_accepts | Solver | (i::PAutomaton<Wu, TI::Single> &, u64, const std::vector<u32> &) | TT::Any, Wu | bool
-- file: include/pdaaal/Solver.h
-- same: 145
== Solver::pre_star_accepts | Solver | (i::PAutomaton<Wu, TI::Single> &, u64, const std::vector<u32> &) | TT::Shortest, Wu | bool
-- file: include/pdaaal/Solver.h
-- same: 145
== Solver::pre_star_accepts | Solver | (PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> &) | TT::Any, PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0 | bool
-- file: include/pdaaal/Solver.h
-- id: 146
let	$1	param(#0)._final
let	$2	fun(res(`pdaaal::PAutomatonProduct::add_edge_product`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), true), [eff(ctx([]), true, do(`pdaaal::PAutomatonProduct::add_edge_product`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), true))])
let	$3	res(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))
let	$4	param(#0)._swap_initial_final'
let	$5	param(#0)._initial
do		do(`pdaaal::PAutomatonProduct::enable_pre_star`, param(#0))	true
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	true
do		do(`pdaaal::Solver::pre_star`, $1, $2)	!$3 & $4
do		do(`pdaaal::Solver::pre_star`, $5, $2)	!$3 & !$4
ret	{!$4 & res(`pdaaal::Solver::pre_star`, $5, $2) | !empty(param(#0)._product._accepting') | $3 | $4 & res(`pdaaal::Solver::pre_star`, $1, $2)}	true
== Solver::pre_star_accepts | Solver | (PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> &) | TT::None, PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0 | bool
-- file: include/pdaaal/Solver.h
-- same: 146
== Solver::pre_star_accepts | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::Any, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | bool
-- file: include/pdaaal/Solver.h
-- id: 147
let	$1	param(#0)._final
let	$2	fun(res(`pdaaal::PAutomatonProduct::add_edge_product`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), 0), [eff(ctx([]), true, do(`pdaaal::PAutomatonProduct::add_edge_product`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), 0))])
let	$3	res(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))
let	$4	param(#0)._swap_initial_final'
let	$5	param(#0)._initial
do		do(`pdaaal::PAutomatonProduct::enable_pre_star`, param(#0))	true
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	true
do		do(`pdaaal::Solver::pre_star`, $1, $2)	!$3 & $4
do		do(`pdaaal::Solver::pre_star`, $5, $2)	!$3 & !$4
ret	{!$4 & res(`pdaaal::Solver::pre_star`, $5, $2) | !empty(param(#0)._product._accepting') | $3 | $4 & res(`pdaaal::Solver::pre_star`, $1, $2)}	true
== Solver::pre_star_accepts | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::None, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | bool
-- file: include/pdaaal/Solver.h
-- same: 147
== Solver::pre_star_accepts | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::Shortest, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | bool
-- file: include/pdaaal/Solver.h
-- id: 148
let	$1	param(#0)._final
let	$2	fun(res(`pdaaal::PAutomatonProduct::add_edge_product`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), lp(#0, #4)), [eff(ctx([]), true, do(`pdaaal::PAutomatonProduct::add_edge_product`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2), lp(#0, #3), lp(#0, #4)))])
let	$3	res(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))
let	$4	param(#0)._swap_initial_final'
let	$5	param(#0)._initial
do		do(`pdaaal::PAutomatonProduct::enable_pre_star`, param(#0))	true
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	true
do		do(`pdaaal::Solver::pre_star`, $1, $2)	!$3 & $4
do		do(`pdaaal::Solver::pre_star`, $5, $2)	!$3 & !$4
ret	{!$4 & res(`pdaaal::Solver::pre_star`, $5, $2) | !empty(param(#0)._product._accepting') | $3 | $4 & res(`pdaaal::Solver::pre_star`, $1, $2)}	true
== Solver::pre_star | Solver | (i::PAutomaton<W0, TI::Single> &, const std::function<bool (u64, u32, u64, i::trace_t, const bool &)> &) | TT::Any, W0, false | bool
-- file: include/pdaaal/Solver.h
-- id: 149
let	$1	empty(L(#0)._workset')
let	$2	ctor(`pdaaal::internal::PreStarSaturation`, param(#0), param(#1))
do	loop(#0)	do(`pdaaal::internal::PreStarSaturation::step`, L(#0))	!$1
do	loop(#0)	exit	$1
dom		init(L(#0)._automaton._states, $2._automaton._states)	true
dom		init(L(#0)._delta_prime, $2._delta_prime)	true
dom		init(L(#0)._popped, $2._popped)	true
dom		init(L(#0)._rel, $2._rel)	true
dom		init(L(#0)._workset, $2._workset)	true
ret	$2._found	true
== Solver::pre_star | Solver | (i::PAutomaton<Wu, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &)> &) | TT::Any, Wu, false | bool
-- file: include/pdaaal/Solver.h
-- same: 149
== Solver::pre_star | Solver | (i::PAutomaton<Wu, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &)> &) | TT::Shortest, Wu, false | bool
-- file: include/pdaaal/Solver.h
-- id: 150
let	$1	empty(L(#0)._workset')
let	$2	ctor(`pdaaal::internal::PreStarSaturation`, param(#0), param(#1))
do	loop(#0)	do(`pdaaal::internal::PreStarSaturation::step`, L(#0))	!$1
do	loop(#0)	exit	$1
dom		init(L(#0)._popped, $2._popped)	true
dom		init(L(#0)._rel, $2._rel)	true
dom		init(L(#0)._workset, $2._workset)	true
dom		init(L(#0)._automaton._states, $2._automaton._states)	true
dom		init(L(#0)._delta_prime, $2._delta_prime)	true
dom		init(L(#0)._minpath, $2._minpath)	true
ret	$2._found	true
== Solver::pre_star | Solver | (i::PAutomaton<W0, TI::Single> &, const std::function<bool (u64, u32, u64, i::trace_t, const bool &)> &) | TT::Any, W0, true | bool
-- file: include/pdaaal/Solver.h
-- id: 151
let	$1	empty(L(#0)._workset')
let	$2	ctor(`pdaaal::internal::PreStarSaturation`, param(#0), param(#1))
do	loop(#0)	do(`pdaaal::internal::PreStarSaturation::step`, L(#0))	!$1 & !L(#0)._found'
do	loop(#0)	exit	$1 | L(#0)._found'
dom		init(L(#0)._automaton._states, $2._automaton._states)	true
dom		init(L(#0)._popped, $2._popped)	true
dom		init(L(#0)._delta_prime, $2._delta_prime)	true
dom		init(L(#0)._found, $2._found)	true
dom		init(L(#0)._rel, $2._rel)	true
dom		init(L(#0)._workset, $2._workset)	true
ret	L(#0)._found'	true
== Solver::pre_star | Solver | (i::PAutomaton<W0, TI::Single> &, const std::function<bool (u64, u32, u64, i::trace_t, const bool &)> &) | TT::None, W0, true | bool
-- file: include/pdaaal/Solver.h
-- id: 152
let	$1	empty(L(#0)._workset')
let	$2	ctor(`pdaaal::internal::PreStarSaturation`, param(#0), param(#1))
do	loop(#0)	do(`pdaaal::internal::PreStarSaturation::step`, L(#0))	!$1 & !L(#0)._found'
do	loop(#0)	exit	$1 | L(#0)._found'
dom		init(L(#0)._popped, $2._popped)	true
dom		init(L(#0)._rel, $2._rel)	true
dom		init(L(#0)._automaton._states, $2._automaton._states)	true
dom		init(L(#0)._workset, $2._workset)	true
dom		init(L(#0)._delta_prime, $2._delta_prime)	true
dom		init(L(#0)._found, $2._found)	true
ret	L(#0)._found'	true
== Solver::pre_star | Solver | (i::PAutomaton<Wu, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &)> &) | TT::Any, Wu, true | bool
-- file: include/pdaaal/Solver.h
-- same: 152
== Solver::pre_star | Solver | (i::PAutomaton<Wu, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &)> &) | TT::None, Wu, true | bool
-- file: include/pdaaal/Solver.h
-- same: 152
== Solver::pre_star | Solver | (i::PAutomaton<Wu, TI::Single> &, const std::function<bool (u64, u32, u64, std::pair<i::trace_t, u32>, const u32 &)> &) | TT::Shortest, Wu, true | bool
-- file: include/pdaaal/Solver.h
-- id: 153
let	$1	empty(L(#0)._workset')
let	$2	ctor(`pdaaal::internal::PreStarSaturation`, param(#0), param(#1))
do	loop(#0)	do(`pdaaal::internal::PreStarSaturation::step`, L(#0))	!$1 & !L(#0)._found'
do	loop(#0)	exit	$1 | L(#0)._found'
dom		init(L(#0)._popped, $2._popped)	true
dom		init(L(#0)._delta_prime, $2._delta_prime)	true
dom		init(L(#0)._rel, $2._rel)	true
dom		init(L(#0)._found, $2._found)	true
dom		init(L(#0)._workset, $2._workset)	true
dom		init(L(#0)._automaton._states, $2._automaton._states)	true
dom		init(L(#0)._minpath, $2._minpath)	true
ret	L(#0)._found'	true
== Solver::post_star_accepts | Solver | (PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> &) | TT::Any, PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0 | bool
-- file: include/pdaaal/Solver.h
-- id: 154
let	$1	res(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))
let	$2	param(#0)._swap_initial_final
let	$3	ctor(`pdaaal::internal::PostStarSaturation`, param(#0)._final, lam(#1))
let	$4	ctor(`pdaaal::internal::PostStarSaturation`, param(#0)._initial, lam(#1))
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	true
do		do(`pdaaal::internal::PostStarSaturation::run`, L(#0))	!$1
dom		init(L(#0)._automaton._states, ite([{!$1 & $2}, $3._automaton._states, {!$1 & !$2}, $4._automaton._states]))	true
dom		init(L(#0)._found, ite([{!$1 & $2}, $3._found, {!$1 & !$2}, $4._found]))	true
dom		init(L(#0)._rel1, ite([{!$1 & !$2}, $4._rel1, {!$1 & $2}, $3._rel1]))	true
dom		init(L(#0)._rel2, ite([{!$1 & $2}, $3._rel2, {!$1 & !$2}, $4._rel2]))	true
dom		init(L(#0)._workset, ite([{!$1 & !$2}, $4._workset, {!$1 & $2}, $3._workset]))	true
ret	{$1 | res(`pdaaal::internal::PostStarSaturation::run`, L(#0))}	true
== Solver::post_star_accepts | Solver | (PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> &) | TT::None, PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0 | bool
-- file: include/pdaaal/Solver.h
-- same: 154
== Solver::post_star_accepts | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::Any, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | bool
-- file: include/pdaaal/Solver.h
-- same: 154
== Solver::post_star_accepts | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::None, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | bool
-- file: include/pdaaal/Solver.h
-- same: 154
== Solver::post_star_accepts | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::Shortest, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | bool
-- file: include/pdaaal/Solver.h
-- id: 155
let	$1	res(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))
let	$2	param(#0)._swap_initial_final
let	$3	ctor(`pdaaal::internal::PostStarShortestSaturation`, param(#0)._initial, lam(#1))
let	$4	ctor(`pdaaal::internal::PostStarShortestSaturation`, param(#0)._final, lam(#1))
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	true
do		do(`pdaaal::internal::PostStarShortestSaturation::run`, L(#0))	!$1
dom		init(L(#0)._automaton._states, ite([{!$1 & !$2}, $3._automaton._states, {!$1 & $2}, $4._automaton._states]))	true
dom		init(L(#0)._edge_weights, ite([{!$1 & $2}, $4._edge_weights, {!$1 & !$2}, $3._edge_weights]))	true
dom		init(L(#0)._found, ite([{!$1 & !$2}, $3._found, {!$1 & $2}, $4._found]))	true
dom		init(L(#0)._minpath, ite([{!$1 & !$2}, $3._minpath, {!$1 & $2}, $4._minpath]))	true
dom		init(L(#0)._rel1, ite([{!$1 & !$2}, $3._rel1, {!$1 & $2}, $4._rel1]))	true
dom		init(L(#0)._rel2, ite([{!$1 & $2}, $4._rel2, {!$1 & !$2}, $3._rel2]))	true
dom		init(L(#0)._workset, ite([{!$1 & $2}, $4._workset, {!$1 & !$2}, $3._workset]))	true
ret	{!empty(param(#0)._product._accepting') | $1 | res(`pdaaal::internal::PostStarShortestSaturation::run`, L(#0))}	true
== Solver::post_star | Solver | (i::PAutomaton<W0, TI::Single> &) | TT::Any, W0 | bool
-- file: include/pdaaal/Solver.h
-- id: 156
let	$1	ctor(`pdaaal::internal::PostStarSaturation`, param(#0), lam(#1))
do		do(`pdaaal::internal::PostStarSaturation::run`, L(#0))	true
dom		init(L(#0)._automaton._states, $1._automaton._states)	true
dom		init(L(#0)._rel1, $1._rel1)	true
dom		init(L(#0)._rel2, $1._rel2)	true
dom		init(L(#0)._workset, $1._workset)	true
ret	res(`pdaaal::internal::PostStarSaturation::run`, L(#0))	true
== Solver::post_star | Solver | (i::PAutomaton<Wu, TI::Single> &) | TT::Any, Wu | bool
-- file: include/pdaaal/Solver.h
-- same: 156
== Solver::post_star | Solver | (i::PAutomaton<Wu, TI::Single> &) | TT::Shortest, Wu | bool
-- file: include/pdaaal/Solver.h
-- id: 157
let	$1	ctor(`pdaaal::internal::PostStarShortestSaturation`, param(#0), lam(#1))
do		do(`pdaaal::internal::PostStarShortestSaturation::run`, L(#0))	true
dom		init(L(#0)._automaton._states, $1._automaton._states)	true
dom		init(L(#0)._edge_weights, $1._edge_weights)	true
dom		init(L(#0)._minpath, $1._minpath)	true
dom		init(L(#0)._rel1, $1._rel1)	true
dom		init(L(#0)._rel2, $1._rel2)	true
dom		init(L(#0)._workset, $1._workset)	true
ret	res(`pdaaal::internal::PostStarShortestSaturation::run`, L(#0))	true
== Solver::pre_star_accepts_no_ET | Solver | (PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> &) | PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0 | bool
-- file: include/pdaaal/Solver.h
-- id: 158
let	$1	param(#0)._swap_initial_final'
do		do(`pdaaal::PAutomatonProduct::enable_pre_star`, param(#0))	true
do		do(`pdaaal::Solver::pre_star`, param(#0)._final, fun(false, []))	$1
do		do(`pdaaal::Solver::pre_star`, param(#0)._initial, fun(false, []))	!$1
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	true
ret	res(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	true
== Solver::pre_star_accepts_no_ET | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | bool
-- file: include/pdaaal/Solver.h
-- same: 158
== Solver::post_star_accepts_no_ET | Solver | (PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> &) | TT::Any, PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0 | bool
-- file: include/pdaaal/Solver.h
-- id: 159
let	$1	param(#0)._swap_initial_final
do		do(`pdaaal::Solver::post_star`, param(#0)._final)	$1
do		do(`pdaaal::Solver::post_star`, param(#0)._initial)	!$1
do		do(`pdaaal::PAutomatonProduct::initialize_product`, param(#0))	true
ret	{!empty(param(#0)._product._accepting')}	true
== Solver::post_star_accepts_no_ET | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::Any, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | bool
-- file: include/pdaaal/Solver.h
-- same: 159
== Solver::post_star_accepts_no_ET | Solver | (PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::Shortest, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | bool
-- file: include/pdaaal/Solver.h
-- same: 159
== Solver::get_trace | Solver | (const PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> &) | TT::Any, PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single | std::vector<PDA<char, W0, fut::vector, u64, true>::tracestate_t>
-- file: include/pdaaal/Solver.h
-- id: 160
let	$1	call(`pdaaal::PAutomatonProduct::find_path`, param(#0))
let	$2	call(`pdaaal::AutomatonPath::stack`, $1)
let	$3	eq(18446744073709551615, $1._end)
let	$4	call(`pdaaal::PDA::number_of_labels`, param(#0)._pda)
let	$5	empty($1._edges)
let	$6	L(#3)._path._edges
let	$7	call(`pdaaal::AutomatonPath::stack`, upd($1, `_edges`, $6''))
let	$8	has(res(`pdaaal::internal::TraceBack::next`, L(#3)))
let	$9	new(`std::vector`)
do	foreach($2)	do(`push`, L(#1), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $2@0))	!$3 & lt($2@0, $4)
do		do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: $1._end, _stack: L(#1)'})	!$3 & $5
do		do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: back($1._edges).#1, _stack: L(#1)'})	!$3 & !$5
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#3))	!$3
do	loop(#0) ; foreach($7)	do(`push`, L(#0), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $7@0))	!$3 & $8 & lt($7@0, $4)
do	loop(#0)	do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: $1._end, _stack: L(#0)'})	!$3 & $8 & empty($6'')
do	loop(#0)	do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: back($6).#1'', _stack: L(#0)'})	!$3 & !empty($6'') & $8
do	loop(#0)	exit	!$3 & !$8
do		do(`std::reverse`, L(#2))	!$3 & L(#3)._post'
dom		init(L(#1), $9)	true
dom		init(L(#2), $9)	true
dom		init(L(#3)._post, false)	true
dom		init($6, $1._edges)	true
dom	loop(#0)	init(L(#0), $9)	true
ret	$9	$3
ret	L(#2)''	!$3
== Solver::get_trace | Solver | (const PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::Any, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single | std::vector<PDA<char, Wu, fut::vector, u64, true>::tracestate_t>
-- file: include/pdaaal/Solver.h
-- same: 160
== Solver::get_trace | Solver | (const PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::Shortest, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single | std::pair<std::vector<PDA<char, Wu, fut::vector, u64, true>::tracestate_t>, u32>
-- file: include/pdaaal/Solver.h
-- id: 161
let	$1	call(`pdaaal::PAutomatonProduct::find_path`, param(#0))
let	$2	call(`pdaaal::AutomatonPath::stack`, $1.#0)
let	$3	eq(18446744073709551615, $1.#0._end)
let	$4	call(`pdaaal::PDA::number_of_labels`, param(#0)._pda)
let	$5	empty($1.#0._edges)
let	$6	L(#1)._path._edges
let	$7	call(`pdaaal::AutomatonPath::stack`, upd($1.#0, `_edges`, $6''))
let	$8	has(res(`pdaaal::internal::TraceBack::next`, L(#1)))
let	$9	new(`std::vector`)
do	foreach($2)	do(`push`, L(#2), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $2@0))	!$3 & lt($2@0, $4)
do		do(`push`, L(#0), pdaaal::PDA::tracestate_t{_pdastate: $1.#0._end, _stack: L(#2)'})	!$3 & $5
do		do(`push`, L(#0), pdaaal::PDA::tracestate_t{_pdastate: back($1.#0._edges).#1, _stack: L(#2)'})	!$3 & !$5
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#1))	!$3
do	loop(#0) ; foreach($7)	do(`push`, L(#3), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $7@0))	!$3 & $8 & lt($7@0, $4)
do	loop(#0)	do(`push`, L(#0), pdaaal::PDA::tracestate_t{_pdastate: $1.#0._end, _stack: L(#3)'})	!$3 & $8 & empty($6'')
do	loop(#0)	do(`push`, L(#0), pdaaal::PDA::tracestate_t{_pdastate: back($6).#1'', _stack: L(#3)'})	!$3 & !empty($6'') & $8
do	loop(#0)	exit	!$3 & !$8
do		do(`std::reverse`, L(#0))	!$3 & L(#1)._post'
dom		init(L(#2), $9)	true
dom		init(L(#0), $9)	true
dom		init($6, $1.#0._edges)	true
dom		init(L(#1)._post, false)	true
dom	loop(#0)	init(L(#3), $9)	true
ret	tuple{#0: $9, #1: $1.#1}	$3
ret	tuple{#0: L(#0)'', #1: $1.#1}	!$3
== Solver::get_trace | Solver | (const PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> &) | TT::Longest, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair | std::pair<std::vector<PDA<char, Wu, fut::vector, u64, true>::tracestate_t>, u32>
-- file: include/pdaaal/Solver.h
-- id: 162
let	$1	call(`pdaaal::PAutomatonProduct::find_path_fixed_point`, param(#0))
let	$2	call(`pdaaal::AutomatonPath::stack`, $1.#0)
let	$3	eq($1.#0._end, 18446744073709551615)
let	$4	eq(4294967294, $1.#1)
let	$5	call(`pdaaal::PDA::number_of_labels`, param(#0)._pda)
let	$6	empty($1.#0._edges)
let	$7	L(#3)._path._edges
let	$8	call(`pdaaal::AutomatonPath::stack`, upd($1.#0, `_edges`, $7''))
let	$9	has(res(`pdaaal::internal::TraceBack::next`, L(#3)))
let	$10	new(`std::vector`)
do	foreach($2)	do(`push`, L(#0), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $2@0))	!$3 & !$4 & lt($2@0, $5)
do		do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: $1.#0._end, _stack: L(#0)'})	!$3 & !$4 & $6
do		do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: back($1.#0._edges).#1, _stack: L(#0)'})	!$3 & !$4 & !$6
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#3))	!$3 & !$4
do	loop(#0) ; foreach($8)	do(`push`, L(#1), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $8@0))	!$3 & !$4 & $9 & lt($8@0, $5)
do	loop(#0)	do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: $1.#0._end, _stack: L(#1)'})	!$3 & !$4 & $9 & empty($7'')
do	loop(#0)	do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: back($7).#1'', _stack: L(#1)'})	!$3 & !$4 & !empty($7'') & $9
do	loop(#0)	exit	!$3 & !$4 & !$9
do		do(`std::reverse`, L(#2))	!$3 & !$4 & L(#3)._post'
dom		init(L(#0), $10)	true
dom		init(L(#2), $10)	true
dom		init($7, $1.#0._edges)	true
dom		init(L(#3)._post, false)	true
dom	loop(#0)	init(L(#1), $10)	true
ret	tuple{#0: $10, #1: $1.#1}	$3 | $4
ret	tuple{#0: L(#2)'', #1: $1.#1}	!$3 & !$4
== Solver::get_trace | Solver | (const PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair> &) | TT::ShortestFixedPoint, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Pair>, Wu, TI::Pair | std::pair<std::vector<PDA<char, Wu, fut::vector, u64, true>::tracestate_t>, u32>
-- file: include/pdaaal/Solver.h
-- id: 163
let	$1	call(`pdaaal::PAutomatonProduct::find_path_fixed_point`, param(#0))
let	$2	call(`pdaaal::AutomatonPath::stack`, $1.#0)
let	$3	eq($1.#0._end, 18446744073709551615)
let	$4	call(`pdaaal::PDA::number_of_labels`, param(#0)._pda)
let	$5	empty($1.#0._edges)
let	$6	L(#2)._path._edges
let	$7	call(`pdaaal::AutomatonPath::stack`, upd($1.#0, `_edges`, $6''))
let	$8	has(res(`pdaaal::internal::TraceBack::next`, L(#2)))
let	$9	new(`std::vector`)
do	foreach($2)	do(`push`, L(#0), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $2@0))	!$3 & lt($2@0, $4)
do		do(`push`, L(#3), pdaaal::PDA::tracestate_t{_pdastate: $1.#0._end, _stack: L(#0)'})	!$3 & $5
do		do(`push`, L(#3), pdaaal::PDA::tracestate_t{_pdastate: back($1.#0._edges).#1, _stack: L(#0)'})	!$3 & !$5
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#2))	!$3
do	loop(#0) ; foreach($7)	do(`push`, L(#1), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $7@0))	!$3 & $8 & lt($7@0, $4)
do	loop(#0)	do(`push`, L(#3), pdaaal::PDA::tracestate_t{_pdastate: $1.#0._end, _stack: L(#1)'})	!$3 & $8 & empty($6'')
do	loop(#0)	do(`push`, L(#3), pdaaal::PDA::tracestate_t{_pdastate: back($6).#1'', _stack: L(#1)'})	!$3 & !empty($6'') & $8
do	loop(#0)	exit	!$3 & !$8
do		do(`std::reverse`, L(#3))	!$3 & L(#2)._post'
dom		init(L(#0), $9)	true
dom		init(L(#3), $9)	true
dom		init($6, $1.#0._edges)	true
dom		init(L(#2)._post, false)	true
dom	loop(#0)	init(L(#1), $9)	true
ret	tuple{#0: $9, #1: $1.#1}	$3
ret	tuple{#0: L(#3)'', #1: $1.#1}	!$3
== Solver::get_trace | Solver | (const PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> &) | TT::Longest, PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair | std::pair<std::vector<PDA<char, Wi, fut::vector, u64, true>::tracestate_t>, int>
-- file: include/pdaaal/Solver.h
-- id: 164
let	$1	call(`pdaaal::PAutomatonProduct::find_path_fixed_point`, param(#0))
let	$2	call(`pdaaal::AutomatonPath::stack`, $1.#0)
let	$3	eq($1.#0._end, 18446744073709551615)
let	$4	eq($1.#1, 2147483647)
let	$5	call(`pdaaal::PDA::number_of_labels`, param(#0)._pda)
let	$6	empty($1.#0._edges)
let	$7	L(#3)._path._edges
let	$8	call(`pdaaal::AutomatonPath::stack`, upd($1.#0, `_edges`, $7''))
let	$9	has(res(`pdaaal::internal::TraceBack::next`, L(#3)))
let	$10	new(`std::vector`)
do	foreach($2)	do(`push`, L(#1), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $2@0))	!$3 & !$4 & lt($2@0, $5)
do		do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: $1.#0._end, _stack: L(#1)'})	!$3 & !$4 & $6
do		do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: back($1.#0._edges).#1, _stack: L(#1)'})	!$3 & !$4 & !$6
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#3))	!$3 & !$4
do	loop(#0) ; foreach($8)	do(`push`, L(#0), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $8@0))	!$3 & !$4 & $9 & lt($8@0, $5)
do	loop(#0)	do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: $1.#0._end, _stack: L(#0)'})	!$3 & !$4 & $9 & empty($7'')
do	loop(#0)	do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: back($7).#1'', _stack: L(#0)'})	!$3 & !$4 & !empty($7'') & $9
do	loop(#0)	exit	!$3 & !$4 & !$9
do		do(`std::reverse`, L(#2))	!$3 & !$4 & L(#3)._post'
dom		init(L(#1), $10)	true
dom		init(L(#2), $10)	true
dom		init(L(#3)._post, false)	true
dom		init($7, $1.#0._edges)	true
dom	loop(#0)	init(L(#0), $10)	true
ret	tuple{#0: $10, #1: $1.#1}	$3 | $4
ret	tuple{#0: L(#2)'', #1: $1.#1}	!$3 & !$4
== Solver::get_trace | Solver | (const PAutomatonProduct<PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair> &) | TT::ShortestFixedPoint, PDA<char, Wi, fut::vector, u64, true>, PAutomaton<char, Wi, u64, true, TI::Pair>, Wi, TI::Pair | std::pair<std::vector<PDA<char, Wi, fut::vector, u64, true>::tracestate_t>, int>
-- file: include/pdaaal/Solver.h
-- id: 165
let	$1	call(`pdaaal::PAutomatonProduct::find_path_fixed_point`, param(#0))
let	$2	call(`pdaaal::AutomatonPath::stack`, $1.#0)
let	$3	eq($1.#0._end, 18446744073709551615)
let	$4	eq($1.#1, -2147483648)
let	$5	call(`pdaaal::PDA::number_of_labels`, param(#0)._pda)
let	$6	empty($1.#0._edges)
let	$7	L(#1)._path._edges
let	$8	call(`pdaaal::AutomatonPath::stack`, upd($1.#0, `_edges`, $7''))
let	$9	has(res(`pdaaal::internal::TraceBack::next`, L(#1)))
let	$10	new(`std::vector`)
do	foreach($2)	do(`push`, L(#0), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $2@0))	!$3 & !$4 & lt($2@0, $5)
do		do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: $1.#0._end, _stack: L(#0)'})	!$3 & !$4 & $6
do		do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: back($1.#0._edges).#1, _stack: L(#0)'})	!$3 & !$4 & !$6
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#1))	!$3 & !$4
do	loop(#0) ; foreach($8)	do(`push`, L(#3), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $8@0))	!$3 & !$4 & $9 & lt($8@0, $5)
do	loop(#0)	do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: $1.#0._end, _stack: L(#3)'})	!$3 & !$4 & $9 & empty($7'')
do	loop(#0)	do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: back($7).#1'', _stack: L(#3)'})	!$3 & !$4 & !empty($7'') & $9
do	loop(#0)	exit	!$3 & !$4 & !$9
do		do(`std::reverse`, L(#2))	!$3 & !$4 & L(#1)._post'
dom		init(L(#0), $10)	true
dom		init(L(#2), $10)	true
dom		init($7, $1.#0._edges)	true
dom		init(L(#1)._post, false)	true
dom	loop(#0)	init(L(#3), $10)	true
ret	tuple{#0: $10, #1: $1.#1}	$3 | $4
ret	tuple{#0: L(#2)'', #1: $1.#1}	!$3 & !$4
== Solver::get_trace_dual_search | Solver | (const PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> &) | TT::Any, PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0 | std::vector<PDA<char, W0, fut::vector, u64, true>::tracestate_t>
-- file: include/pdaaal/Solver.h
-- id: 166
let	$1	call(`pdaaal::PAutomatonProduct::find_path`, param(#0))
let	$2	18446744073709551615
let	$3	eq($1._end.#0, $2)
let	$4	eq($1._end.#1, $2)
let	$5	call(`pdaaal::AutomatonPath::split`, $1)
let	$6	call(`pdaaal::AutomatonPath::stack`, $5.#0)
let	$7	eq($5.#0._end, $2)
let	$8	call(`pdaaal::PDA::number_of_labels`, param(#0)._pda)
let	$9	empty($5.#0._edges)
let	$10	L(#7)._path._edges
let	$11	call(`pdaaal::AutomatonPath::stack`, upd($5.#0, `_edges`, $10''))
let	$12	has(res(`pdaaal::internal::TraceBack::next`, L(#7)))
let	$13	has(res(`pdaaal::internal::TraceBack::next`, L(#8)))
let	$14	eq($5.#1._end, $2)
let	$15	upd($5.#1, `_edges`, L(#4)._edges')
let	$16	call(`pdaaal::AutomatonPath::stack`, $15)
let	$17	empty(L(#4)._edges')
let	$18	L(#8)._path._edges
let	$19	call(`pdaaal::AutomatonPath::stack`, upd($5.#1, `_edges`, $18''))
let	$20	new(`std::vector`)
let	$21	ite([{!$14 & !$3 | !$14 & !$4}, L(#6)'', {!$3 & $14 | !$4 & $14}, $20])
let	$22	range(lin(#1, begin($21)), end($21))
do		do(`pdaaal::AutomatonPath::remove_epsilon`, L(#4))	!$3 | !$4
do	foreach($6)	do(`push`, L(#5), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $6@0))	!$3 & !$7 & lt($6@0, $8) | !$4 & !$7 & lt($6@0, $8)
do		do(`push`, L(#9), pdaaal::PDA::tracestate_t{_pdastate: $5.#0._end, _stack: L(#5)'})	!$3 & !$7 & $9 | !$4 & !$7 & $9
do		do(`push`, L(#9), pdaaal::PDA::tracestate_t{_pdastate: back($5.#0._edges).#1, _stack: L(#5)'})	!$3 & !$7 & !$9 | !$4 & !$7 & !$9
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#7))	!$3 & !$7 | !$4 & !$7
do	loop(#0) ; foreach($11)	do(`push`, L(#3), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $11@0))	!$3 & !$7 & $12 & lt($11@0, $8) | !$4 & !$7 & $12 & lt($11@0, $8)
do	loop(#0)	do(`push`, L(#9), pdaaal::PDA::tracestate_t{_pdastate: $5.#0._end, _stack: L(#3)'})	!$3 & !$7 & $12 & empty($10'') | !$4 & !$7 & $12 & empty($10'')
do	loop(#0)	do(`push`, L(#9), pdaaal::PDA::tracestate_t{_pdastate: back($10).#1'', _stack: L(#3)'})	!$3 & !$7 & !empty($10'') & $12 | !$4 & !$7 & !empty($10'') & $12
dom	loop(#0)	exit	!$12 & !$3 & !$7 | !$12 & !$4 & !$7 | !$13 & !$14 & !$3 | !$13 & !$14 & !$4
do		do(`std::reverse`, L(#9))	!$3 & !$7 & L(#7)._post' | !$4 & !$7 & L(#7)._post'
do	foreach($16)	do(`push`, L(#2), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $16@0))	!$14 & !$3 & lt($16@0, $8) | !$14 & !$4 & lt($16@0, $8)
do		do(`push`, L(#6), pdaaal::PDA::tracestate_t{_pdastate: $5.#1._end, _stack: L(#2)'})	!$14 & !$3 & $17 | !$14 & !$4 & $17
do		do(`push`, L(#6), pdaaal::PDA::tracestate_t{_pdastate: back($15._edges).#1, _stack: L(#2)'})	!$14 & !$17 & !$3 | !$14 & !$17 & !$4
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#8))	!$14 & !$3 | !$14 & !$4
do	loop(#0) ; foreach($19)	do(`push`, L(#1), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $19@0))	!$14 & !$3 & $13 & lt($19@0, $8) | !$14 & !$4 & $13 & lt($19@0, $8)
do	loop(#0)	do(`push`, L(#6), pdaaal::PDA::tracestate_t{_pdastate: $5.#1._end, _stack: L(#1)'})	!$14 & !$3 & $13 & empty($18'') | !$14 & !$4 & $13 & empty($18'')
do	loop(#0)	do(`push`, L(#6), pdaaal::PDA::tracestate_t{_pdastate: back($18).#1'', _stack: L(#1)'})	!$14 & !$3 & !empty($18'') & $13 | !$14 & !$4 & !empty($18'') & $13
do		do(`std::reverse`, L(#6))	!$14 & !$3 & L(#8)._post' | !$14 & !$4 & L(#8)._post'
do	foreach($22)	do(`push`, L(#0), $22@0^)	!$3 | !$4
dom		init(L(#4)._edges, $5.#1._edges)	true
dom		init(L(#5), $20)	true
dom		init(L(#9), $20)	true
dom		init($10, $5.#0._edges)	true
dom		init(L(#7)._post, false)	true
dom	loop(#0)	init(L(#3), $20)	true
dom		init(L(#2), $20)	true
dom		init(L(#6), $20)	true
dom		init(L(#8)._post, false)	true
dom		init($18, L(#4)._edges')	true
dom	loop(#0)	init(L(#1), $20)	true
dom		init(L(#0), ite([{!$3 & !$7 | !$4 & !$7}, L(#9)'', {!$3 & $7 | !$4 & $7}, $20]))	true
ret	$20	$3 & $4
ret	L(#0)'	!$3 | !$4
== Solver::get_trace_dual_search | Solver | (const PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::Any, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | std::vector<PDA<char, Wu, fut::vector, u64, true>::tracestate_t>
-- file: include/pdaaal/Solver.h
-- same: 166
== Solver::get_trace_dual_search | Solver | (const PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::Shortest, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | std::pair<std::vector<PDA<char, Wu, fut::vector, u64, true>::tracestate_t>, u32>
-- file: include/pdaaal/Solver.h
-- id: 167
let	$1	call(`pdaaal::PAutomatonProduct::find_path`, param(#0))
let	$2	18446744073709551615
let	$3	eq($1.#0._end.#1, $2)
let	$4	eq($1.#0._end.#0, $2)
let	$5	call(`pdaaal::AutomatonPath::split`, $1.#0)
let	$6	call(`pdaaal::AutomatonPath::stack`, $5.#0)
let	$7	call(`pdaaal::PDA::number_of_labels`, param(#0)._pda)
let	$8	eq($2, $5.#0._end)
let	$9	empty($5.#0._edges)
let	$10	L(#4)._path._edges
let	$11	call(`pdaaal::AutomatonPath::stack`, upd($5.#0, `_edges`, $10''))
let	$12	has(res(`pdaaal::internal::TraceBack::next`, L(#4)))
let	$13	eq($2, $5.#1._end)
let	$14	has(res(`pdaaal::internal::TraceBack::next`, L(#7)))
let	$15	upd($5.#1, `_edges`, L(#6)._edges')
let	$16	call(`pdaaal::AutomatonPath::stack`, $15)
let	$17	empty(L(#6)._edges')
let	$18	L(#7)._path._edges
let	$19	call(`pdaaal::AutomatonPath::stack`, upd($5.#1, `_edges`, $18''))
let	$20	new(`std::vector`)
let	$21	ite([{!$13 & !$3 | !$13 & !$4}, L(#2)'', {!$3 & $13 | !$4 & $13}, $20])
let	$22	range(lin(#1, begin($21)), end($21))
do		do(`pdaaal::AutomatonPath::remove_epsilon`, L(#6))	!$3 | !$4
do	foreach($6)	do(`push`, L(#3), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $6@0))	!$3 & !$8 & lt($6@0, $7) | !$4 & !$8 & lt($6@0, $7)
do		do(`push`, L(#9), pdaaal::PDA::tracestate_t{_pdastate: $5.#0._end, _stack: L(#3)'})	!$3 & !$8 & $9 | !$4 & !$8 & $9
do		do(`push`, L(#9), pdaaal::PDA::tracestate_t{_pdastate: back($5.#0._edges).#1, _stack: L(#3)'})	!$3 & !$8 & !$9 | !$4 & !$8 & !$9
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#4))	!$3 & !$8 | !$4 & !$8
do	loop(#0) ; foreach($11)	do(`push`, L(#8), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $11@0))	!$3 & !$8 & $12 & lt($11@0, $7) | !$4 & !$8 & $12 & lt($11@0, $7)
do	loop(#0)	do(`push`, L(#9), pdaaal::PDA::tracestate_t{_pdastate: $5.#0._end, _stack: L(#8)'})	!$3 & !$8 & $12 & empty($10'') | !$4 & !$8 & $12 & empty($10'')
do	loop(#0)	do(`push`, L(#9), pdaaal::PDA::tracestate_t{_pdastate: back($10).#1'', _stack: L(#8)'})	!$3 & !$8 & !empty($10'') & $12 | !$4 & !$8 & !empty($10'') & $12
dom	loop(#0)	exit	!$12 & !$3 & !$8 | !$12 & !$4 & !$8 | !$13 & !$14 & !$3 | !$13 & !$14 & !$4
do		do(`std::reverse`, L(#9))	!$3 & !$8 & L(#4)._post' | !$4 & !$8 & L(#4)._post'
do	foreach($16)	do(`push`, L(#5), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $16@0))	!$13 & !$3 & lt($16@0, $7) | !$13 & !$4 & lt($16@0, $7)
do		do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: $5.#1._end, _stack: L(#5)'})	!$13 & !$3 & $17 | !$13 & !$4 & $17
do		do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: back($15._edges).#1, _stack: L(#5)'})	!$13 & !$17 & !$3 | !$13 & !$17 & !$4
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#7))	!$13 & !$3 | !$13 & !$4
do	loop(#0) ; foreach($19)	do(`push`, L(#0), call(`pdaaal::PDA::get_symbol`, param(#0)._pda, $19@0))	!$13 & !$3 & $14 & lt($19@0, $7) | !$13 & !$4 & $14 & lt($19@0, $7)
do	loop(#0)	do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: $5.#1._end, _stack: L(#0)'})	!$13 & !$3 & $14 & empty($18'') | !$13 & !$4 & $14 & empty($18'')
do	loop(#0)	do(`push`, L(#2), pdaaal::PDA::tracestate_t{_pdastate: back($18).#1'', _stack: L(#0)'})	!$13 & !$3 & !empty($18'') & $14 | !$13 & !$4 & !empty($18'') & $14
do		do(`std::reverse`, L(#2))	!$13 & !$3 & L(#7)._post' | !$13 & !$4 & L(#7)._post'
do	foreach($22)	do(`push`, L(#1), $22@0^)	!$3 | !$4
dom		init(L(#6)._edges, $5.#1._edges)	true
dom		init(L(#3), $20)	true
dom		init(L(#9), $20)	true
dom		init($10, $5.#0._edges)	true
dom		init(L(#4)._post, false)	true
dom	loop(#0)	init(L(#8), $20)	true
dom		init(L(#5), $20)	true
dom		init(L(#2), $20)	true
dom		init(L(#7)._post, false)	true
dom		init($18, L(#6)._edges')	true
dom	loop(#0)	init(L(#0), $20)	true
dom		init(L(#1), ite([{!$3 & !$8 | !$4 & !$8}, L(#9)'', {!$3 & $8 | !$4 & $8}, $20]))	true
ret	tuple{#0: $20, #1: 0}	$3 & $4
ret	tuple{#0: L(#1)', #1: $1.#1}	!$3 | !$4
== Solver::get_rule_trace_and_paths | Solver | (const PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> &) | TT::Any, false, PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0 | std::tuple<u64, std::vector<user_rule_t<W0, void>>, std::vector<u32>, std::vector<u32>, std::vector<u64>, std::vector<u64>>
-- file: include/pdaaal/Solver.h
-- id: 168
let	$1	call(`pdaaal::PAutomatonProduct::find_path`, param(#0))
let	$2	18446744073709551615
let	$3	eq($1._end.#0, $2)
let	$4	eq($1._end.#1, $2)
let	$5	res(`pdaaal::internal::TraceBack::next`, L(#0))
let	$6	param(#0)._swap_initial_final
let	$7	eq(addr(param(#0)._initial), addr(param(#0)._final))
let	$8	new(`std::vector`)
let	$9	L(#0)._path._edges
let	$10	call(`pdaaal::AutomatonPath::split`, $1)
let	$11	call(`pdaaal::AutomatonPath::get_path_and_stack`, upd($10.#0, `_edges`, $9'))
let	$12	call(`pdaaal::AutomatonPath::get_path_and_stack`, $10.#1)
let	$13	empty($1._edges)
let	$14	back($1._edges).#1.#0
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#0))	!$3 | !$4
do	loop(#0)	do(`push`, L(#1), val($5))	!$3 & has($5) | !$4 & has($5)
do	loop(#0)	exit	!$3 & !has($5) | !$4 & !has($5)
do		do(`std::reverse`, L(#1))	!$3 & !$6 | !$3 & $7 | !$4 & !$6 | !$4 & $7
dom		init(L(#0)._post, false)	true
dom		init(L(#1), $8)	true
dom		init($9, $10.#0._edges)	true
ret	tuple{#0: $2, #1: $8, #2: $8, #3: $8, #4: $8, #5: $8}	$3 & $4
ret	tuple{#0: $1._end.#0, #1: L(#1)'', #2: $11.#1, #3: $12.#1, #4: $11.#0, #5: $12.#0}	!$3 & !$6 & $13 & empty(L(#1)'') | !$3 & $13 & $7 & empty(L(#1)'') | !$4 & !$6 & $13 & empty(L(#1)'') | !$4 & $13 & $7 & empty(L(#1)'')
ret	tuple{#0: $14, #1: L(#1)'', #2: $11.#1, #3: $12.#1, #4: $11.#0, #5: $12.#0}	!$13 & !$3 & !$6 & empty(L(#1)'') | !$13 & !$3 & $7 & empty(L(#1)'') | !$13 & !$4 & !$6 & empty(L(#1)'') | !$13 & !$4 & $7 & empty(L(#1)'')
ret	tuple{#0: L(#1)[0]._from'', #1: L(#1)'', #2: $11.#1, #3: $12.#1, #4: $11.#0, #5: $12.#0}	!$3 & !$6 & !empty(L(#1)'') | !$3 & !empty(L(#1)'') & $7 | !$4 & !$6 & !empty(L(#1)'') | !$4 & !empty(L(#1)'') & $7
ret	tuple{#0: $1._end.#0, #1: L(#1)', #2: $12.#1, #3: $11.#1, #4: $12.#0, #5: $11.#0}	!$3 & !$7 & $13 & $6 | !$4 & !$7 & $13 & $6
ret	tuple{#0: $14, #1: L(#1)', #2: $12.#1, #3: $11.#1, #4: $12.#0, #5: $11.#0}	!$13 & !$3 & !$7 & $6 | !$13 & !$4 & !$7 & $6
== Solver::get_rule_trace_and_paths | Solver | (const PAutomatonProduct<PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0, TI::Single> &) | TT::Any, true, PDA<char, W0, fut::vector, u64, true>, PAutomaton<char, W0, u64, true, TI::Single>, W0 | std::tuple<u64, std::vector<user_rule_t<W0, void>>, std::vector<u32>, std::vector<u32>, std::vector<u64>, std::vector<u64>>
-- file: include/pdaaal/Solver.h
-- id: 169
let	$1	call(`pdaaal::PAutomatonProduct::find_path`, param(#0))
let	$2	18446744073709551615
let	$3	eq($1._end.#0, $2)
let	$4	eq($1._end.#1, $2)
let	$5	res(`pdaaal::internal::TraceBack::next`, L(#1))
let	$6	res(`pdaaal::internal::TraceBack::next`, L(#5))
let	$7	call(`pdaaal::AutomatonPath::split`, $1)
let	$8	L(#5)._path._edges
let	$9	call(`pdaaal::AutomatonPath::get_path_and_stack`, upd($7.#1, `_edges`, $8'))
let	$10	ite([{!$3 & !L(#5)._post' | !$4 & !L(#5)._post'}, tuple{#0: L(#3)', #1: $9.#1, #2: $9.#0}, {!$3 & L(#5)._post' | !$4 & L(#5)._post'}, tuple{#0: L(#3)'', #1: $9.#1, #2: $9.#0}]).#0
let	$11	L(#1)._path._edges
let	$12	new(`std::vector`)
let	$13	call(`pdaaal::AutomatonPath::get_path_and_stack`, upd($7.#0, `_edges`, $11'))
let	$14	empty($1._edges)
do		do(`pdaaal::AutomatonPath::remove_epsilon`, L(#2))	!$3 | !$4
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#1))	!$3 | !$4
do	loop(#0)	do(`push`, L(#0), val($5))	!$3 & has($5) | !$4 & has($5)
dom	loop(#0)	exit	!$3 & !has($5) | !$3 & !has($6) | !$4 & !has($5) | !$4 & !has($6)
do		do(`std::reverse`, L(#0))	!$3 & L(#1)._post' | !$4 & L(#1)._post'
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#5))	!$3 | !$4
do	loop(#0)	do(`push`, L(#3), val($6))	!$3 & has($6) | !$4 & has($6)
do		do(`std::reverse`, L(#3))	!$3 & L(#5)._post' | !$4 & L(#5)._post'
do	foreach($10)	do(`push`, L(#4), $10@0)	!$3 | !$4
dom		init(L(#2)._edges, $7.#1._edges)	true
dom		init($11, $7.#0._edges)	true
dom		init(L(#0), $12)	true
dom		init(L(#1)._post, false)	true
dom		init(L(#5)._post, false)	true
dom		init(L(#3), $12)	true
dom		init($8, L(#2)._edges')	true
dom		init(L(#4), ite([{!$3 & !L(#1)._post' | !$4 & !L(#1)._post'}, L(#0)', {!$3 & L(#1)._post' | !$4 & L(#1)._post'}, L(#0)'']))	true
ret	tuple{#0: $2, #1: $12, #2: $12, #3: $12, #4: $12, #5: $12}	$3 & $4
ret	tuple{#0: $1._end.#0, #1: L(#4)', #2: $13.#1, #3: $9.#1, #4: $13.#0, #5: $9.#0}	!$3 & $14 & empty(L(#4)') | !$4 & $14 & empty(L(#4)')
ret	tuple{#0: back($1._edges).#1.#0, #1: L(#4)', #2: $13.#1, #3: $9.#1, #4: $13.#0, #5: $9.#0}	!$14 & !$3 & empty(L(#4)') | !$14 & !$4 & empty(L(#4)')
ret	tuple{#0: L(#4)[0]._from', #1: L(#4)', #2: $13.#1, #3: $9.#1, #4: $13.#0, #5: $9.#0}	!$3 & !empty(L(#4)') | !$4 & !empty(L(#4)')
== Solver::get_rule_trace_and_paths | Solver | (const PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::Shortest, false, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | std::pair<std::tuple<u64, std::vector<user_rule_t<Wu, void>>, std::vector<u32>, std::vector<u32>, std::vector<u64>, std::vector<u64>>, u32>
-- file: include/pdaaal/Solver.h
-- id: 170
let	$1	call(`pdaaal::PAutomatonProduct::find_path`, param(#0))
let	$2	18446744073709551615
let	$3	eq($1.#0._end.#1, $2)
let	$4	eq($1.#0._end.#0, $2)
let	$5	res(`pdaaal::internal::TraceBack::next`, L(#0))
let	$6	param(#0)._swap_initial_final
let	$7	eq(addr(param(#0)._initial), addr(param(#0)._final))
let	$8	L(#0)._path._edges
let	$9	call(`pdaaal::AutomatonPath::split`, $1.#0)
let	$10	new(`std::vector`)
let	$11	call(`pdaaal::AutomatonPath::get_path_and_stack`, upd($9.#0, `_edges`, $8'))
let	$12	call(`pdaaal::AutomatonPath::get_path_and_stack`, $9.#1)
let	$13	empty($1.#0._edges)
let	$14	back($1.#0._edges).#1.#0
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#0))	!$3 | !$4
do	loop(#0)	do(`push`, L(#1), val($5))	!$3 & has($5) | !$4 & has($5)
do	loop(#0)	exit	!$3 & !has($5) | !$4 & !has($5)
do		do(`std::reverse`, L(#1))	!$3 & !$6 | !$3 & $7 | !$4 & !$6 | !$4 & $7
dom		init($8, $9.#0._edges)	true
dom		init(L(#1), $10)	true
dom		init(L(#0)._post, false)	true
ret	tuple{#0: tuple{#0: $2, #1: $10, #2: $10, #3: $10, #4: $10, #5: $10}, #1: $1.#1}	$3 & $4
ret	tuple{#0: tuple{#0: $1.#0._end.#0, #1: L(#1)'', #2: $11.#1, #3: $12.#1, #4: $11.#0, #5: $12.#0}, #1: $1.#1}	!$3 & !$6 & $13 & empty(L(#1)'') | !$3 & $13 & $7 & empty(L(#1)'') | !$4 & !$6 & $13 & empty(L(#1)'') | !$4 & $13 & $7 & empty(L(#1)'')
ret	tuple{#0: tuple{#0: $14, #1: L(#1)'', #2: $11.#1, #3: $12.#1, #4: $11.#0, #5: $12.#0}, #1: $1.#1}	!$13 & !$3 & !$6 & empty(L(#1)'') | !$13 & !$3 & $7 & empty(L(#1)'') | !$13 & !$4 & !$6 & empty(L(#1)'') | !$13 & !$4 & $7 & empty(L(#1)'')
ret	tuple{#0: tuple{#0: L(#1)[0]._from'', #1: L(#1)'', #2: $11.#1, #3: $12.#1, #4: $11.#0, #5: $12.#0}, #1: $1.#1}	!$3 & !$6 & !empty(L(#1)'') | !$3 & !empty(L(#1)'') & $7 | !$4 & !$6 & !empty(L(#1)'') | !$4 & !empty(L(#1)'') & $7
ret	tuple{#0: tuple{#0: $1.#0._end.#0, #1: L(#1)', #2: $12.#1, #3: $11.#1, #4: $12.#0, #5: $11.#0}, #1: $1.#1}	!$3 & !$7 & $13 & $6 | !$4 & !$7 & $13 & $6
ret	tuple{#0: tuple{#0: $14, #1: L(#1)', #2: $12.#1, #3: $11.#1, #4: $12.#0, #5: $11.#0}, #1: $1.#1}	!$13 & !$3 & !$7 & $6 | !$13 & !$4 & !$7 & $6
== Solver::get_rule_trace_and_paths | Solver | (const PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::Any, false, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | std::tuple<u64, std::vector<user_rule_t<Wu, void>>, std::vector<u32>, std::vector<u32>, std::vector<u64>, std::vector<u64>>
-- file: include/pdaaal/Solver.h
-- id: 171
let	$1	call(`pdaaal::PAutomatonProduct::find_path`, param(#0))
let	$2	18446744073709551615
let	$3	eq($1._end.#0, $2)
let	$4	eq($1._end.#1, $2)
let	$5	res(`pdaaal::internal::TraceBack::next`, L(#0))
let	$6	param(#0)._swap_initial_final
let	$7	eq(addr(param(#0)._initial), addr(param(#0)._final))
let	$8	new(`std::vector`)
let	$9	L(#0)._path._edges
let	$10	call(`pdaaal::AutomatonPath::split`, $1)
let	$11	call(`pdaaal::AutomatonPath::get_path_and_stack`, upd($10.#0, `_edges`, $9'))
let	$12	call(`pdaaal::AutomatonPath::get_path_and_stack`, $10.#1)
let	$13	empty($1._edges)
let	$14	back($1._edges).#1.#0
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#0))	!$3 | !$4
do	loop(#0)	do(`push`, L(#1), val($5))	!$3 & has($5) | !$4 & has($5)
do	loop(#0)	exit	!$3 & !has($5) | !$4 & !has($5)
do		do(`std::reverse`, L(#1))	!$3 & !$6 | !$3 & $7 | !$4 & !$6 | !$4 & $7
dom		init(L(#1), $8)	true
dom		init(L(#0)._post, false)	true
dom		init($9, $10.#0._edges)	true
ret	tuple{#0: $2, #1: $8, #2: $8, #3: $8, #4: $8, #5: $8}	$3 & $4
ret	tuple{#0: $1._end.#0, #1: L(#1)'', #2: $11.#1, #3: $12.#1, #4: $11.#0, #5: $12.#0}	!$3 & !$6 & $13 & empty(L(#1)'') | !$3 & $13 & $7 & empty(L(#1)'') | !$4 & !$6 & $13 & empty(L(#1)'') | !$4 & $13 & $7 & empty(L(#1)'')
ret	tuple{#0: $14, #1: L(#1)'', #2: $11.#1, #3: $12.#1, #4: $11.#0, #5: $12.#0}	!$13 & !$3 & !$6 & empty(L(#1)'') | !$13 & !$3 & $7 & empty(L(#1)'') | !$13 & !$4 & !$6 & empty(L(#1)'') | !$13 & !$4 & $7 & empty(L(#1)'')
ret	tuple{#0: L(#1)[0]._from'', #1: L(#1)'', #2: $11.#1, #3: $12.#1, #4: $11.#0, #5: $12.#0}	!$3 & !$6 & !empty(L(#1)'') | !$3 & !empty(L(#1)'') & $7 | !$4 & !$6 & !empty(L(#1)'') | !$4 & !empty(L(#1)'') & $7
ret	tuple{#0: $1._end.#0, #1: L(#1)', #2: $12.#1, #3: $11.#1, #4: $12.#0, #5: $11.#0}	!$3 & !$7 & $13 & $6 | !$4 & !$7 & $13 & $6
ret	tuple{#0: $14, #1: L(#1)', #2: $12.#1, #3: $11.#1, #4: $12.#0, #5: $11.#0}	!$13 & !$3 & !$7 & $6 | !$13 & !$4 & !$7 & $6
== Solver::get_rule_trace_and_paths | Solver | (const PAutomatonProduct<PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | TT::Any, true, PDA<char, Wu, fut::vector, u64, true>, PAutomaton<char, Wu, u64, true, TI::Single>, Wu | std::tuple<u64, std::vector<user_rule_t<Wu, void>>, std::vector<u32>, std::vector<u32>, std::vector<u64>, std::vector<u64>>
-- file: include/pdaaal/Solver.h
-- id: 172
let	$1	call(`pdaaal::PAutomatonProduct::find_path`, param(#0))
let	$2	18446744073709551615
let	$3	eq($1._end.#0, $2)
let	$4	eq($1._end.#1, $2)
let	$5	res(`pdaaal::internal::TraceBack::next`, L(#1))
let	$6	res(`pdaaal::internal::TraceBack::next`, L(#5))
let	$7	call(`pdaaal::AutomatonPath::split`, $1)
let	$8	L(#5)._path._edges
let	$9	call(`pdaaal::AutomatonPath::get_path_and_stack`, upd($7.#1, `_edges`, $8'))
let	$10	ite([{!$3 & !L(#5)._post' | !$4 & !L(#5)._post'}, tuple{#0: L(#3)', #1: $9.#1, #2: $9.#0}, {!$3 & L(#5)._post' | !$4 & L(#5)._post'}, tuple{#0: L(#3)'', #1: $9.#1, #2: $9.#0}]).#0
let	$11	L(#1)._path._edges
let	$12	new(`std::vector`)
let	$13	call(`pdaaal::AutomatonPath::get_path_and_stack`, upd($7.#0, `_edges`, $11'))
let	$14	empty($1._edges)
do		do(`pdaaal::AutomatonPath::remove_epsilon`, L(#2))	!$3 | !$4
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#1))	!$3 | !$4
do	loop(#0)	do(`push`, L(#0), val($5))	!$3 & has($5) | !$4 & has($5)
dom	loop(#0)	exit	!$3 & !has($5) | !$3 & !has($6) | !$4 & !has($5) | !$4 & !has($6)
do		do(`std::reverse`, L(#0))	!$3 & L(#1)._post' | !$4 & L(#1)._post'
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#5))	!$3 | !$4
do	loop(#0)	do(`push`, L(#3), val($6))	!$3 & has($6) | !$4 & has($6)
do		do(`std::reverse`, L(#3))	!$3 & L(#5)._post' | !$4 & L(#5)._post'
do	foreach($10)	do(`push`, L(#4), $10@0)	!$3 | !$4
dom		init(L(#2)._edges, $7.#1._edges)	true
dom		init($11, $7.#0._edges)	true
dom		init(L(#1)._post, false)	true
dom		init(L(#0), $12)	true
dom		init(L(#3), $12)	true
dom		init(L(#5)._post, false)	true
dom		init($8, L(#2)._edges')	true
dom		init(L(#4), ite([{!$3 & !L(#1)._post' | !$4 & !L(#1)._post'}, L(#0)', {!$3 & L(#1)._post' | !$4 & L(#1)._post'}, L(#0)'']))	true
ret	tuple{#0: $2, #1: $12, #2: $12, #3: $12, #4: $12, #5: $12}	$3 & $4
ret	tuple{#0: $1._end.#0, #1: L(#4)', #2: $13.#1, #3: $9.#1, #4: $13.#0, #5: $9.#0}	!$3 & $14 & empty(L(#4)') | !$4 & $14 & empty(L(#4)')
ret	tuple{#0: back($1._edges).#1.#0, #1: L(#4)', #2: $13.#1, #3: $9.#1, #4: $13.#0, #5: $9.#0}	!$14 & !$3 & empty(L(#4)') | !$14 & !$4 & empty(L(#4)')
ret	tuple{#0: L(#4)[0]._from', #1: L(#4)', #2: $13.#1, #3: $9.#1, #4: $13.#0, #5: $9.#0}	!$3 & !empty(L(#4)') | !$4 & !empty(L(#4)')
== Solver::get_trace | Solver | (const PDA<char, W0, fut::vector, u64, true> &, const i::PAutomaton<W0, TI::Single> &, u64, const std::vector<char> &) | TT::Any, char, W0 | std::vector<PDA<char, W0, fut::vector, u64, true>::tracestate_t>
-- file: include/pdaaal/Solver.h
-- id: 173
let	$1	list(4294967295)
let	$2	range(rbegin($1), rend($1))
let	$3	call(`pdaaal::PDA::encode_pre`, param(#0), param(#3))
let	$4	call(`pdaaal::internal::PAutomaton::accept_path`, param(#1), param(#2), $3)
let	$5	lt(lin(#1, size($3)), size($4))
let	$6	range(rbegin($3), rend($3))
let	$7	pdaaal::AutomatonPath{_edges: L(#4)', _end: back($4)}
let	$8	call(`pdaaal::AutomatonPath::stack`, $7)
let	$9	18446744073709551615
let	$10	eq($9, back($4))
let	$11	call(`pdaaal::PDA::number_of_labels`, param(#0))
let	$12	pdaaal::AutomatonPath{_edges: L(#3)', _end: back($4)}
let	$13	call(`pdaaal::AutomatonPath::stack`, $12)
let	$14	new(`std::vector`)
let	$15	L(#0)._path._edges
let	$16	call(`pdaaal::AutomatonPath::stack`, pdaaal::AutomatonPath{_edges: $15'', _end: back($4)})
let	$17	has(res(`pdaaal::internal::TraceBack::next`, L(#0)))
do	foreach($2)	do(`push`, L(#4), tuple{#0: $2@0^, #1: lin(#1, rbegin($4), ix($2, #0))^})	!empty($4) & $5
do	foreach($6)	do(`push`, L(#3), tuple{#0: $6@0^, #1: lin(#1, ix($6, #0), rbegin($4))^})	!$5 & !empty($4)
do	foreach($8)	do(`push`, L(#1), call(`pdaaal::PDA::get_symbol`, param(#0), $8@0))	!$10 & !empty($4) & $5 & lt($8@0, $11)
do	foreach($13)	do(`push`, L(#1), call(`pdaaal::PDA::get_symbol`, param(#0), $13@0))	!$10 & !$5 & !empty($4) & lt($13@0, $11)
do		do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back($4), _stack: L(#1)''})	!$10 & !$5 & !empty($4) & empty(L(#3)') | !$10 & !empty($4) & $5 & empty(L(#4)')
do		do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back(ite([{!empty($4) & $5}, $7, empty($4), pdaaal::AutomatonPath{_edges: $14, _end: $9}, {!$5 & !empty($4)}, $12])._edges).#1, _stack: L(#1)''})	!$10 & !$5 & !empty($4) & !empty(L(#3)') | !$10 & !empty($4) & !empty(L(#4)') & $5
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#0))	!$10 & !empty($4)
do	loop(#0) ; foreach($16)	do(`push`, L(#2), call(`pdaaal::PDA::get_symbol`, param(#0), $16@0))	!$10 & !empty($4) & $17 & lt($16@0, $11)
do	loop(#0)	do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back($4), _stack: L(#2)'})	!$10 & !empty($4) & $17 & empty($15'')
do	loop(#0)	do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back($15).#1'', _stack: L(#2)'})	!$10 & !empty($15'') & !empty($4) & $17
do	loop(#0)	exit	!$10 & !$17 & !empty($4)
do		do(`std::reverse`, L(#5))	!$10 & !empty($4) & L(#0)._post'
dom		init(L(#4), $14)	true
dom		init(L(#3), $14)	true
dom		init(L(#1), $14)	true
dom		init(L(#5), $14)	true
dom		init(L(#0)._post, false)	true
dom		init($15, ite([{!$10 & !$5 & !empty($4)}, L(#3)', {!$10 & !empty($4) & $5}, L(#4)']))	true
dom	loop(#0)	init(L(#2), $14)	true
ret	$14	$10 | empty($4)
ret	L(#5)''	!$10 & !empty($4)
== Solver::get_trace | Solver | (const PDA<char, Wu, fut::vector, u64, true> &, const i::PAutomaton<Wu, TI::Single> &, u64, const std::vector<char> &) | TT::Any, char, Wu | std::vector<PDA<char, Wu, fut::vector, u64, true>::tracestate_t>
-- file: include/pdaaal/Solver.h
-- same: 173
== Solver::get_trace | Solver | (const PDA<char, W0, fut::vector, u64, true> &, const i::PAutomaton<W0, TI::Single> &, u64, const std::vector<u32> &) | TT::Any, char, W0, void | std::vector<PDA<char, W0, fut::vector, u64, true>::tracestate_t>
-- file: include/pdaaal/Solver.h
-- id: 174
let	$1	list(4294967295)
let	$2	range(rbegin($1), rend($1))
let	$3	call(`pdaaal::internal::PAutomaton::accept_path`, param(#1), param(#2), param(#3))
let	$4	lt(lin(#1, size(param(#3))), size($3))
let	$5	range(rbegin(param(#3)), rend(param(#3)))
let	$6	pdaaal::AutomatonPath{_edges: L(#2)', _end: back($3)}
let	$7	call(`pdaaal::AutomatonPath::stack`, $6)
let	$8	18446744073709551615
let	$9	eq(back($3), $8)
let	$10	call(`pdaaal::PDA::number_of_labels`, param(#0))
let	$11	pdaaal::AutomatonPath{_edges: L(#0)', _end: back($3)}
let	$12	call(`pdaaal::AutomatonPath::stack`, $11)
let	$13	new(`std::vector`)
let	$14	L(#3)._path._edges
let	$15	call(`pdaaal::AutomatonPath::stack`, pdaaal::AutomatonPath{_edges: $14'', _end: back($3)})
let	$16	has(res(`pdaaal::internal::TraceBack::next`, L(#3)))
do	foreach($2)	do(`push`, L(#2), tuple{#0: $2@0^, #1: lin(#1, ix($2, #0), rbegin($3))^})	!empty($3) & $4
do	foreach($5)	do(`push`, L(#0), tuple{#0: $5@0^, #1: lin(#1, ix($5, #0), rbegin($3))^})	!$4 & !empty($3)
do	foreach($7)	do(`push`, L(#4), call(`pdaaal::PDA::get_symbol`, param(#0), $7@0))	!$9 & !empty($3) & $4 & lt($7@0, $10)
do	foreach($12)	do(`push`, L(#4), call(`pdaaal::PDA::get_symbol`, param(#0), $12@0))	!$4 & !$9 & !empty($3) & lt($12@0, $10)
do		do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back($3), _stack: L(#4)''})	!$4 & !$9 & !empty($3) & empty(L(#0)') | !$9 & !empty($3) & $4 & empty(L(#2)')
do		do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back(ite([{!$4 & !empty($3)}, $11, {!empty($3) & $4}, $6, empty($3), pdaaal::AutomatonPath{_edges: $13, _end: $8}])._edges).#1, _stack: L(#4)''})	!$4 & !$9 & !empty($3) & !empty(L(#0)') | !$9 & !empty($3) & !empty(L(#2)') & $4
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#3))	!$9 & !empty($3)
do	loop(#0) ; foreach($15)	do(`push`, L(#1), call(`pdaaal::PDA::get_symbol`, param(#0), $15@0))	!$9 & !empty($3) & $16 & lt($15@0, $10)
do	loop(#0)	do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back($3), _stack: L(#1)'})	!$9 & !empty($3) & $16 & empty($14'')
do	loop(#0)	do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back($14).#1'', _stack: L(#1)'})	!$9 & !empty($14'') & !empty($3) & $16
do	loop(#0)	exit	!$16 & !$9 & !empty($3)
do		do(`std::reverse`, L(#5))	!$9 & !empty($3) & L(#3)._post'
dom		init(L(#2), $13)	true
dom		init(L(#0), $13)	true
dom		init(L(#4), $13)	true
dom		init(L(#5), $13)	true
dom		init($14, ite([{!$4 & !$9 & !empty($3)}, L(#0)', {!$9 & !empty($3) & $4}, L(#2)']))	true
dom		init(L(#3)._post, false)	true
dom	loop(#0)	init(L(#1), $13)	true
ret	$13	$9 | empty($3)
ret	L(#5)''	!$9 & !empty($3)
== Solver::get_trace | Solver | (const PDA<char, Wu, fut::vector, u64, true> &, const i::PAutomaton<Wu, TI::Single> &, u64, const std::vector<u32> &) | TT::Any, char, Wu, void | std::vector<PDA<char, Wu, fut::vector, u64, true>::tracestate_t>
-- file: include/pdaaal/Solver.h
-- id: 175
let	$1	list(4294967295)
let	$2	range(rbegin($1), rend($1))
let	$3	call(`pdaaal::internal::PAutomaton::accept_path`, param(#1), param(#2), param(#3))
let	$4	lt(lin(#1, size(param(#3))), size($3))
let	$5	range(rbegin(param(#3)), rend(param(#3)))
let	$6	pdaaal::AutomatonPath{_edges: L(#2)', _end: back($3)}
let	$7	call(`pdaaal::AutomatonPath::stack`, $6)
let	$8	18446744073709551615
let	$9	eq(back($3), $8)
let	$10	call(`pdaaal::PDA::number_of_labels`, param(#0))
let	$11	pdaaal::AutomatonPath{_edges: L(#0)', _end: back($3)}
let	$12	call(`pdaaal::AutomatonPath::stack`, $11)
let	$13	new(`std::vector`)
let	$14	L(#3)._path._edges
let	$15	call(`pdaaal::AutomatonPath::stack`, pdaaal::AutomatonPath{_edges: $14'', _end: back($3)})
let	$16	has(res(`pdaaal::internal::TraceBack::next`, L(#3)))
do	foreach($2)	do(`push`, L(#2), tuple{#0: $2@0^, #1: lin(#1, ix($2, #0), rbegin($3))^})	!empty($3) & $4
do	foreach($5)	do(`push`, L(#0), tuple{#0: $5@0^, #1: lin(#1, ix($5, #0), rbegin($3))^})	!$4 & !empty($3)
do	foreach($7)	do(`push`, L(#4), call(`pdaaal::PDA::get_symbol`, param(#0), $7@0))	!$9 & !empty($3) & $4 & lt($7@0, $10)
do	foreach($12)	do(`push`, L(#4), call(`pdaaal::PDA::get_symbol`, param(#0), $12@0))	!$4 & !$9 & !empty($3) & lt($12@0, $10)
do		do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back($3), _stack: L(#4)''})	!$4 & !$9 & !empty($3) & empty(L(#0)') | !$9 & !empty($3) & $4 & empty(L(#2)')
do		do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back(ite([{!$4 & !empty($3)}, $11, {!empty($3) & $4}, $6, empty($3), pdaaal::AutomatonPath{_edges: $13, _end: $8}])._edges).#1, _stack: L(#4)''})	!$4 & !$9 & !empty($3) & !empty(L(#0)') | !$9 & !empty($3) & !empty(L(#2)') & $4
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#3))	!$9 & !empty($3)
do	loop(#0) ; foreach($15)	do(`push`, L(#1), call(`pdaaal::PDA::get_symbol`, param(#0), $15@0))	!$9 & !empty($3) & $16 & lt($15@0, $10)
do	loop(#0)	do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back($3), _stack: L(#1)'})	!$9 & !empty($3) & $16 & empty($14'')
do	loop(#0)	do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back($14).#1'', _stack: L(#1)'})	!$9 & !empty($14'') & !empty($3) & $16
do	loop(#0)	exit	!$16 & !$9 & !empty($3)
do		do(`std::reverse`, L(#5))	!$9 & !empty($3) & L(#3)._post'
dom		init(L(#2), $13)	true
dom		init(L(#0), $13)	true
dom		init(L(#4), $13)	true
dom		init(L(#5), $13)	true
dom		init(L(#3)._post, false)	true
dom		init($14, ite([{!$4 & !$9 & !empty($3)}, L(#0)', {!$9 & !empty($3) & $4}, L(#2)']))	true
dom	loop(#0)	init(L(#1), $13)	true
ret	$13	$9 | empty($3)
ret	L(#5)''	!$9 & !empty($3)
== Solver::get_trace | Solver | (const PDA<char, Wu, fut::vector, u64, true> &, const i::PAutomaton<Wu, TI::Single> &, u64, const std::vector<u32> &) | TT::Shortest, char, Wu, void | std::pair<std::vector<PDA<char, Wu, fut::vector, u64, true>::tracestate_t>, u32>
-- file: include/pdaaal/Solver.h
-- id: 176
let	$1	list(4294967295)
let	$2	range(rbegin($1), rend($1))
let	$3	call(`pdaaal::internal::PAutomaton::accept_path`, param(#1), param(#2), param(#3))
let	$4	lt(lin(#1, size(param(#3))), size($3.#0))
let	$5	range(rbegin(param(#3)), rend(param(#3)))
let	$6	pdaaal::AutomatonPath{_edges: L(#0)', _end: back($3.#0)}
let	$7	call(`pdaaal::AutomatonPath::stack`, $6)
let	$8	18446744073709551615
let	$9	eq(back($3.#0), $8)
let	$10	call(`pdaaal::PDA::number_of_labels`, param(#0))
let	$11	pdaaal::AutomatonPath{_edges: L(#4)', _end: back($3.#0)}
let	$12	call(`pdaaal::AutomatonPath::stack`, $11)
let	$13	new(`std::vector`)
let	$14	L(#3)._path._edges
let	$15	call(`pdaaal::AutomatonPath::stack`, pdaaal::AutomatonPath{_edges: $14'', _end: back($3.#0)})
let	$16	has(res(`pdaaal::internal::TraceBack::next`, L(#3)))
do	foreach($2)	do(`push`, L(#0), tuple{#0: $2@0^, #1: lin(#1, ix($2, #0), rbegin($3.#0))^})	!empty($3.#0) & $4
do	foreach($5)	do(`push`, L(#4), tuple{#0: $5@0^, #1: lin(#1, rbegin($3.#0), ix($5, #0))^})	!$4 & !empty($3.#0)
do	foreach($7)	do(`push`, L(#1), call(`pdaaal::PDA::get_symbol`, param(#0), $7@0))	!$9 & !empty($3.#0) & $4 & lt($7@0, $10)
do	foreach($12)	do(`push`, L(#1), call(`pdaaal::PDA::get_symbol`, param(#0), $12@0))	!$4 & !$9 & !empty($3.#0) & lt($12@0, $10)
do		do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back($3.#0), _stack: L(#1)''})	!$4 & !$9 & !empty($3.#0) & empty(L(#4)') | !$9 & !empty($3.#0) & $4 & empty(L(#0)')
do		do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back(ite([{!empty($3.#0) & $4}, $6, empty($3.#0), pdaaal::AutomatonPath{_edges: $13, _end: $8}, {!$4 & !empty($3.#0)}, $11])._edges).#1, _stack: L(#1)''})	!$4 & !$9 & !empty($3.#0) & !empty(L(#4)') | !$9 & !empty($3.#0) & !empty(L(#0)') & $4
do	loop(#0)	do(`pdaaal::internal::TraceBack::next`, L(#3))	!$9 & !empty($3.#0)
do	loop(#0) ; foreach($15)	do(`push`, L(#2), call(`pdaaal::PDA::get_symbol`, param(#0), $15@0))	!$9 & !empty($3.#0) & $16 & lt($15@0, $10)
do	loop(#0)	do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back($3.#0), _stack: L(#2)'})	!$9 & !empty($3.#0) & $16 & empty($14'')
do	loop(#0)	do(`push`, L(#5), pdaaal::PDA::tracestate_t{_pdastate: back($14).#1'', _stack: L(#2)'})	!$9 & !empty($14'') & !empty($3.#0) & $16
do	loop(#0)	exit	!$16 & !$9 & !empty($3.#0)
do		do(`std::reverse`, L(#5))	!$9 & !empty($3.#0) & L(#3)._post'
dom		init(L(#0), $13)	true
dom		init(L(#4), $13)	true
dom		init(L(#1), $13)	true
dom		init(L(#5), $13)	true
dom		init(L(#3)._post, false)	true
dom		init($14, ite([{!$9 & !empty($3.#0) & $4}, L(#0)', {!$4 & !$9 & !empty($3.#0)}, L(#4)']))	true
dom	loop(#0)	init(L(#2), $13)	true
ret	tuple{#0: $13, #1: $3.#1}	$9 | empty($3.#0)
ret	tuple{#0: L(#5)'', #1: $3.#1}	!$9 & !empty($3.#0)
== BasePDAFactory::BasePDAFactory | BasePDAFactory<char, PDA<char, W0, fut::hash, u64, true>, PDA<char, W0, fut::vector, u64, true>, PDA<char, W0, fut::hash, u64, true>::rule_t_<W0, void>, SolverInstance<char, W0, u64, true, TI::Single>> | (const std::unordered_set<char, std::hash<char>, std::equal_to<char>> &) | <const std::unordered_set<char, std::hash<char>, std::equal_to<char>> &> | void
-- file: include/pdaaal/PDAFactory.h
-- id: 177
do		set(self._temp_pda, ctor(`pdaaal::PDA`, param(#0)))	true
== BasePDAFactory::compile | BasePDAFactory<char, PDA<char, W0, fut::hash, u64, true>, PDA<char, W0, fut::vector, u64, true>, PDA<char, W0, fut::hash, u64, true>::rule_t_<W0, void>, SolverInstance<char, W0, u64, true, TI::Single>> | (const NFA<char> &, const NFA<char> &) |  | SolverInstance<char, W0, u64, true, TI::Single>
-- file: include/pdaaal/PDAFactory.h
-- id: 178
let	$1	self._temp_pda'
do		do(`pdaaal::BasePDAFactory::build_pda`, self)	true
do		do(`pdaaal::BasePDAFactory::initial`, self)	true
do		do(`pdaaal::BasePDAFactory::accepting`, self)	true
ret	pdaaal::SolverInstance{_pda: $1, _product: ctor(`pdaaal::PAutomatonProduct`, $1, param(#0), res(`pdaaal::BasePDAFactory::initial`, self), param(#1), res(`pdaaal::BasePDAFactory::accepting`, self))}	true
== BasePDAFactory::add_rule | BasePDAFactory<char, PDA<char, W0, fut::hash, u64, true>, PDA<char, W0, fut::vector, u64, true>, PDA<char, W0, fut::hash, u64, true>::rule_t_<W0, void>, SolverInstance<char, W0, u64, true, TI::Single>> | (const PDA<char, W0, fut::hash, u64, true>::rule_t_<W0, void> &) |  | void
-- file: include/pdaaal/PDAFactory.h
-- id: 179
do		do(`pdaaal::PDA::add_rule`, self._temp_pda, param(#0))	true
== BasePDAFactory::add_wildcard_rule | BasePDAFactory<char, PDA<char, W0, fut::hash, u64, true>, PDA<char, W0, fut::vector, u64, true>, PDA<char, W0, fut::hash, u64, true>::rule_t_<W0, void>, SolverInstance<char, W0, u64, true, TI::Single>> | (const PDA<char, W0, fut::hash, u64, true>::rule_t_<W0, void> &) |  | void
-- file: include/pdaaal/PDAFactory.h
-- id: 180
do		do(`pdaaal::PDA::add_wildcard_rule`, self._temp_pda, param(#0))	true
== PDAFactory::PDAFactory | PDAFactory<char, W0, TI::Single> | (const std::unordered_set<char, std::hash<char>, std::equal_to<char>> &) |  | void
-- file: include/pdaaal/PDAFactory.h
-- id: 181
do		set(self._temp_pda, ctor(`pdaaal::PDA`, param(#0)))	true
== DFS_PDAFactory::DFS_PDAFactory | DFS_PDAFactory<char, W0> | (const std::unordered_set<char, std::hash<char>, std::equal_to<char>> &, char) |  | void
-- file: include/pdaaal/PDAFactory.h
-- id: 182
do		set(self._temp_pda, ctor(`pdaaal::PDA`, param(#0)))	true
do		set(self._wildcard_label, param(#1))	true
do		set(self._accepting_states, new(`std::vector`))	true
== i::Reducer::reduce | i::Reducer | (i::PDA<W0, fut::vector> &, int, u64, u64) | W0 | std::pair<u64, u64>
-- file: include/pdaaal/internal/Reducer.h
-- id: 183
let	$1	eq(param(#1), 0)
let	$2	param(#0)._states
let	$3	$2[param(#2)]._rules
let	$4	L(#0)[$3@0.#0._to'']
let	$5	enum(`pdaaal::internal::Reducer::tos_t::NOT_IN_STACK`, `pdaaal::internal::Reducer::tos_t::waiting_t`)
let	$6	eq($5, $4._in_waiting')
let	$7	eq($3@0.#0._to'', param(#3))
let	$8	empty($3@0.#1._labels'')
let	$9	$3@0.#1._wildcard''
let	$10	$3@0.#0._op_label''
let	$11	call(`std::lower_bound`, begin($4._tos), end($4._tos), $10)
let	$12	L(#0)[front(L(#1))']
let	$13	$2[front(L(#1))']._rules
let	$14	L(#0)[$13@0.#0._to'']
let	$15	call(`pdaaal::internal::PDA::number_of_labels`, param(#0)'')
let	$16	eq(param(#1), 2)
let	$17	$13@0.#0._operation''
let	$18	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $17)
let	$19	eq(param(#1), 4)
let	$20	empty($13@0.#1._labels'')
let	$21	$13@0.#1._wildcard''
let	$22	eq($13@0.#0._to'', param(#3))
let	$23	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $17)
let	$24	$13@0.#0._op_label''
let	$25	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $17)
let	$26	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $17)
let	$27	res(`pdaaal::internal::Reducer::tos_t::merge_swap`, $14, $12'', $24, $13@0.#1'', true, $15)
let	$28	res(`pdaaal::internal::Reducer::tos_t::merge_swap`, $14, $12'', $24, $13@0.#1'', false, $15)
let	$29	res(`pdaaal::internal::Reducer::tos_t::merge_push`, $14, $12'', $24, $13@0.#1'', true, $15)
let	$30	res(`pdaaal::internal::Reducer::tos_t::merge_push`, $14, $12'', $24, $13@0.#1'', false, $15)
let	$31	res(`pdaaal::internal::Reducer::tos_t::merge_noop`, $14, $12'', $13@0.#1'', true, $15)
let	$32	res(`pdaaal::internal::Reducer::tos_t::merge_noop`, $14, $12'', $13@0.#1'', false, $15)
let	$33	res(`pdaaal::internal::Reducer::tos_t::merge_pop`, $14, $12'', $13@0.#1'', true, $15)
let	$34	res(`pdaaal::internal::Reducer::tos_t::merge_pop`, $14, $12'', $13@0.#1'', false, $15)
let	$35	range(1, size($2'))
let	$36	$2[$35@0]._rules
let	$37	L(#0)[$35@0]._tos''
let	$38	eq($36@0.#0._to'', param(#3))
let	$39	eq($35@0, param(#2))
let	$40	$36[phi(#1, 0, #0)]
let	$41	res(`pdaaal::internal::labels_t::intersect`, $36@0.#1, $37, $15)
let	$42	eq(ix($36, #0), phi(#1, 0, #0))
let	$43	call(`pdaaal::internal::Reducer::size`, param(#0), param(#2), param(#3))
do		do(`pdaaal::internal::Reducer::forwards_prune`, param(#0), param(#2))	!$1
do		do(`pdaaal::internal::Reducer::backwards_prune`, param(#0)', param(#3))	!$1
do	foreach($3)	do(`pdaaal::internal::Reducer::tos_t::update_state`, $4, tuple{#0: true, #1: true})	!$1 & !$7 & !$8 & $6 | !$1 & !$7 & $6 & $9
do	foreach($3)	do(`push`, L(#1), $3@0.#0._to'')	!$1 & !$7 & !$8 & $6 | !$1 & !$7 & $6 & $9
do	foreach($3)	do(`insert_at`, $4._tos, $11, $10)	!$1 & !$7 & !$8 & !eq($11^, $10) | !$1 & !$7 & !$8 & eq(end($4._tos), $11) | !$1 & !$7 & !eq($11^, $10) & $9 | !$1 & !$7 & $9 & eq(end($4._tos), $11)
dom		do(`pdaaal::internal::Reducer::target_tos_prune`, param(#0)'', param(#3))	!lt(param(#1), 3)
do	loop(#0)	do(`pop`, L(#1))	!$1 & !empty(L(#1)')
do	loop(#0)	set($12._in_waiting, $5)	!$1 & !empty(L(#1)')
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::merge_pop`, $14, $12'', $13@0.#1'', true, $15)	!$20 & !$22 & !empty(L(#1)') & $16 & $18 | !$20 & !$22 & !empty(L(#1)') & $18 & $19 | !$22 & !empty(L(#1)') & $16 & $18 & $21 | !$22 & !empty(L(#1)') & $18 & $19 & $21
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::merge_pop`, $14, $12'', $13@0.#1'', false, $15)	!$1 & !$16 & !$19 & !$20 & !$22 & !empty(L(#1)') & $18 | !$1 & !$16 & !$19 & !$22 & !empty(L(#1)') & $18 & $21
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::merge_noop`, $14, $12'', $13@0.#1'', true, $15)	!$20 & !$22 & !empty(L(#1)') & $16 & $23 | !$20 & !$22 & !empty(L(#1)') & $19 & $23 | !$22 & !empty(L(#1)') & $16 & $21 & $23 | !$22 & !empty(L(#1)') & $19 & $21 & $23
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::merge_noop`, $14, $12'', $13@0.#1'', false, $15)	!$1 & !$16 & !$19 & !$20 & !$22 & !empty(L(#1)') & $23 | !$1 & !$16 & !$19 & !$22 & !empty(L(#1)') & $21 & $23
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::merge_push`, $14, $12'', $24, $13@0.#1'', true, $15)	!$20 & !$22 & !empty(L(#1)') & $16 & $25 | !$20 & !$22 & !empty(L(#1)') & $19 & $25 | !$22 & !empty(L(#1)') & $16 & $21 & $25 | !$22 & !empty(L(#1)') & $19 & $21 & $25
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::merge_push`, $14, $12'', $24, $13@0.#1'', false, $15)	!$1 & !$16 & !$19 & !$20 & !$22 & !empty(L(#1)') & $25 | !$1 & !$16 & !$19 & !$22 & !empty(L(#1)') & $21 & $25
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::merge_swap`, $14, $12'', $24, $13@0.#1'', true, $15)	!$20 & !$22 & !empty(L(#1)') & $16 & $26 | !$20 & !$22 & !empty(L(#1)') & $19 & $26 | !$22 & !empty(L(#1)') & $16 & $21 & $26 | !$22 & !empty(L(#1)') & $19 & $21 & $26
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::merge_swap`, $14, $12'', $24, $13@0.#1'', false, $15)	!$1 & !$16 & !$19 & !$20 & !$22 & !empty(L(#1)') & $26 | !$1 & !$16 & !$19 & !$22 & !empty(L(#1)') & $21 & $26
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $27)	!$20 & !$22 & !empty(L(#1)') & $16 & $26 | !$20 & !$22 & !empty(L(#1)') & $19 & $26 | !$22 & !empty(L(#1)') & $16 & $21 & $26 | !$22 & !empty(L(#1)') & $19 & $21 & $26
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $28)	!$1 & !$16 & !$19 & !$20 & !$22 & !empty(L(#1)') & $26 | !$1 & !$16 & !$19 & !$22 & !empty(L(#1)') & $21 & $26
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $29)	!$20 & !$22 & !empty(L(#1)') & $16 & $25 | !$20 & !$22 & !empty(L(#1)') & $19 & $25 | !$22 & !empty(L(#1)') & $16 & $21 & $25 | !$22 & !empty(L(#1)') & $19 & $21 & $25
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $30)	!$1 & !$16 & !$19 & !$20 & !$22 & !empty(L(#1)') & $25 | !$1 & !$16 & !$19 & !$22 & !empty(L(#1)') & $21 & $25
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $31)	!$20 & !$22 & !empty(L(#1)') & $16 & $23 | !$20 & !$22 & !empty(L(#1)') & $19 & $23 | !$22 & !empty(L(#1)') & $16 & $21 & $23 | !$22 & !empty(L(#1)') & $19 & $21 & $23
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $32)	!$1 & !$16 & !$19 & !$20 & !$22 & !empty(L(#1)') & $23 | !$1 & !$16 & !$19 & !$22 & !empty(L(#1)') & $21 & $23
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $33)	!$20 & !$22 & !empty(L(#1)') & $16 & $18 | !$20 & !$22 & !empty(L(#1)') & $18 & $19 | !$22 & !empty(L(#1)') & $16 & $18 & $21 | !$22 & !empty(L(#1)') & $18 & $19 & $21
do	loop(#0) ; foreach($13)	do(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $34)	!$1 & !$16 & !$19 & !$20 & !$22 & !empty(L(#1)') & $18 | !$1 & !$16 & !$19 & !$22 & !empty(L(#1)') & $18 & $21
do	loop(#0) ; foreach($13)	do(`push`, L(#1), $13@0.#0._to'')	!$1 & !$16 & !$18 & !$19 & !$20 & !$22 & !$23 & !$25 & !empty(L(#1)') & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $28) | !$1 & !$16 & !$18 & !$19 & !$22 & !$23 & !$25 & !empty(L(#1)') & $21 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $28) | !$1 & !$16 & !$19 & !$20 & !$22 & !empty(L(#1)') & $18 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $34) | !$1 & !$16 & !$19 & !$20 & !$22 & !empty(L(#1)') & $23 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $32) | !$1 & !$16 & !$19 & !$20 & !$22 & !empty(L(#1)') & $25 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $30) | !$1 & !$16 & !$19 & !$22 & !empty(L(#1)') & $18 & $21 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $34) | !$1 & !$16 & !$19 & !$22 & !empty(L(#1)') & $21 & $23 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $32) | !$1 & !$16 & !$19 & !$22 & !empty(L(#1)') & $21 & $25 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $30) | !$18 & !$20 & !$22 & !$23 & !$25 & !empty(L(#1)') & $16 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $27) | !$18 & !$20 & !$22 & !$23 & !$25 & !empty(L(#1)') & $19 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $27) | !$18 & !$22 & !$23 & !$25 & !empty(L(#1)') & $16 & $21 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $27) | !$18 & !$22 & !$23 & !$25 & !empty(L(#1)') & $19 & $21 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $27) | !$20 & !$22 & !empty(L(#1)') & $16 & $18 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $33) | !$20 & !$22 & !empty(L(#1)') & $16 & $23 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $31) | !$20 & !$22 & !empty(L(#1)') & $16 & $25 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $29) | !$20 & !$22 & !empty(L(#1)') & $18 & $19 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $33) | !$20 & !$22 & !empty(L(#1)') & $19 & $23 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $31) | !$20 & !$22 & !empty(L(#1)') & $19 & $25 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $29) | !$22 & !empty(L(#1)') & $16 & $18 & $21 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $33) | !$22 & !empty(L(#1)') & $16 & $21 & $23 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $31) | !$22 & !empty(L(#1)') & $16 & $21 & $25 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $29) | !$22 & !empty(L(#1)') & $18 & $19 & $21 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $33) | !$22 & !empty(L(#1)') & $19 & $21 & $23 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $31) | !$22 & !empty(L(#1)') & $19 & $21 & $25 & res(`pdaaal::internal::Reducer::tos_t::update_state`, $14, $29)
do	loop(#0)	exit	!$1 & empty(L(#1)')
do	foreach($35) ; foreach($36)	do(`pdaaal::internal::labels_t::intersect`, $36@0.#1, $37, $15)	!$1 & !$38 & !$39
do	foreach($35) ; foreach($36)	set($40, $36@0'')	!$1 & !$39 & !$42 & $38 | !$1 & !$39 & !$42 & $41
do	foreach($35) ; foreach($36)	set($36@0, $40'')	!$1 & !$39 & !$42 & $38 | !$1 & !$39 & !$42 & $41
do	foreach($35)	do(`resize`, $36, fold($36, 0, ite([{!$39 & $38 | !$39 & $41}, lin(#1, phi(#1, 0, #0)), {!$38 & !$41 | $39}, phi(#1, 0, #0)]), none, false))	!$1 & !$39
do	foreach($35)	do(`pdaaal::internal::PDA::clear_state`, param(#0), $35@0)	!$1 & !$39 & empty($36'')
do		do(`pdaaal::internal::Reducer::backwards_prune`, param(#0)'', param(#3))	!$1
dom		init(L(#1), new(`std::queue`))	true
dom		init(L(#0), ctor(`std::vector`, size($2'')))	true
ret	tuple{#0: $43, #1: $43}	$1
ret	tuple{#0: $43, #1: call(`pdaaal::internal::Reducer::size`, param(#0)'', param(#2), param(#3))}	!$1
== i::Reducer::forwards_prune | i::Reducer | (i::PDA<W0, fut::vector> &, u64) | W0 | void
-- file: include/pdaaal/internal/Reducer.h
-- id: 184
let	$1	param(#0)._states
let	$2	$1[front(L(#1))']._rules
let	$3	empty($2@0.#1._labels)
let	$4	$2@0.#1._wildcard
let	$5	L(#0)[$2@0.#0._to]
do		do(`push`, L(#1), param(#1))	true
do		set(L(#0)[param(#1)], true)	true
do	loop(#0)	do(`pop`, L(#1))	!empty(L(#1)')
do	loop(#0) ; foreach($2)	do(`push`, L(#1), $2@0.#0._to)	!$3 & !$5'' & !empty(L(#1)') | !$5'' & !empty(L(#1)') & $4
do	loop(#0) ; foreach($2)	set($5, true)	!$3 & !$5'' & !empty(L(#1)') | !$5'' & !empty(L(#1)') & $4
do	loop(#0)	exit	empty(L(#1)')
do	foreach($1, `grows`)	do(`pdaaal::internal::PDA::clear_state`, param(#0), ix($1, #0))	!L(#0)[ix($1, #0)]''
dom		init(L(#1), new(`std::queue`))	true
dom		init(L(#0), ctor(`std::vector`, size($1)))	true
== i::Reducer::backwards_prune | i::Reducer | (i::PDA<W0, fut::vector> &, u64) | W0 | void
-- file: include/pdaaal/internal/Reducer.h
-- id: 185
let	$1	param(#0)._states
let	$2	$1[front(L(#0))']._pre_states
do		do(`push`, L(#0), param(#1))	true
do		set(L(#1)[param(#1)], true)	true
do	loop(#0)	do(`pop`, L(#0))	!empty(L(#0)')
do	loop(#0) ; foreach($2)	do(`push`, L(#0), $2@0)	!L(#1)[$2@0]'' & !empty(L(#0)')
do	loop(#0) ; foreach($2)	set(L(#1)[$2@0], true)	!empty(L(#0)')
do	loop(#0)	exit	empty(L(#0)')
do	foreach($1, `grows`)	do(`pdaaal::internal::PDA::clear_state`, param(#0), ix($1, #0))	!L(#1)[ix($1, #0)]''
dom		init(L(#0), new(`std::queue`))	true
dom		init(L(#1), ctor(`std::vector`, size($1)))	true
== i::Reducer::target_tos_prune | i::Reducer | (i::PDA<W0, fut::vector> &, u64) | W0 | void
-- file: include/pdaaal/internal/Reducer.h
-- id: 186
let	$1	param(#0)._states
let	$2	L(#1)[front(L(#2))']
let	$3	eq(front(L(#2))', param(#1))
let	$4	$1[front(L(#2))']
let	$5	foreach($4._rules)
let	$6	$4._rules@0.#1._labels
let	$7	$4._rules@0.#1._wildcard'
let	$8	eq(call(`pdaaal::internal::PDA::number_of_labels`, param(#0)'), size(L(#0)''))
let	$9	foreach($4._pre_states)
let	$10	$4._pre_states@0
let	$11	foreach($1[$10]._rules)
let	$12	$1[$10]._rules@0
let	$13	$12.#1._wildcard
let	$14	contains(L(#0)', $12.#0._op_label)
let	$15	empty($12.#1._labels')
let	$16	exists($4._rules, {$7 | $8})
let	$17	$12.#0._operation
let	$18	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $17)
let	$19	eq(front(L(#2))', $12.#0._to)
let	$20	eq($17, enum(`pdaaal::PUSH`, `pdaaal::op_t`))
let	$21	eq($17, enum(`pdaaal::POP`, `pdaaal::op_t`))
let	$22	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $17)
let	$23	res(`pdaaal::internal::labels_t::noop_pre_filter`, $12.#1, L(#0)')
do	foreach($1)	do(`push`, L(#2), ix($1, #0))	true
do	foreach($1)	set(L(#1)[ix($1, #0)], true)	true
do	loop(#0)	do(`pop`, L(#2))	!empty(L(#2)')
do	loop(#0)	set($2, false)	!$3 & !empty(L(#2)') & $2'
do	loop(#0) ; $5 ; foreach($6)	do(`insert`, L(#0), $6@0')	!$3 & !$7 & !empty(L(#2)')
do	loop(#0) ; $5	exit	!$3 & !empty(L(#2)') & $7 | !$3 & !empty(L(#2)') & $8
do	loop(#0) ; $9 ; $11	do(`clear`, $12.#1._labels)	!$14 & !$15 & !$16 & !$3 & !empty(L(#2)') & $18 & $19 | !$14 & !$15 & !$16 & !$3 & !empty(L(#2)') & $19 & $20 | !$14 & !$16 & !$3 & !empty(L(#2)') & $13' & $18 & $19 | !$14 & !$16 & !$3 & !empty(L(#2)') & $13' & $19 & $20
dom	loop(#0) ; $9 ; $11	do(`push`, L(#2), $10)	!$14 & !$15 & !$16 & !$21 & !$22 & !$3 & !L(#1)[$10]'' & !empty(L(#2)') & $19 | !$14 & !$16 & !$21 & !$22 & !$3 & !L(#1)[$10]'' & !empty(L(#2)') & $13' & $19 | !$16 & !$3 & !L(#1)[$10]'' & !empty(L(#2)') & $19 & $22 & $23
do	loop(#0) ; $9 ; $11	do(`pdaaal::internal::labels_t::noop_pre_filter`, $12.#1, L(#0)')	!$16 & !$3 & !empty(L(#2)') & $19 & $22
do	loop(#0) ; $9 ; $11	set($13, false)	!$14 & !$16 & !$3 & !empty(L(#2)') & $13' & $18 & $19 | !$14 & !$16 & !$3 & !empty(L(#2)') & $13' & $19 & $20
do	loop(#0) ; $9 ; $11	set(L(#1)[$10], true)	!$14 & !$15 & !$16 & !$21 & !$22 & !$3 & !L(#1)[$10]'' & !empty(L(#2)') & $19 | !$14 & !$16 & !$21 & !$22 & !$3 & !L(#1)[$10]'' & !empty(L(#2)') & $13' & $19 | !$16 & !$3 & !L(#1)[$10]'' & !empty(L(#2)') & $19 & $22 & $23
do	loop(#0)	exit	empty(L(#2)')
dom		init(L(#1), ctor(`std::vector`, size($1)))	true
dom		init(L(#2), new(`std::queue`))	true
dom	loop(#0)	init(L(#0), new(`std::set`))	true
== i::Reducer::size | i::Reducer | (const i::PDA<W0, fut::vector> &, u64, u64) | W0 | u64
-- file: include/pdaaal/internal/Reducer.h
-- id: 187
let	$1	param(#0)._states
let	$2	range(1, size($1))
let	$3	lin(#1, size($1[param(#1)]._rules))
let	$4	$1[$2@0]._rules
let	$5	phi(#0, $3, #0)
let	$6	eq($4@0.#0._to, param(#2))
let	$7	phi(#1, $5, #0)
let	$8	$4@0.#1._wildcard
let	$9	$4@0.#1._labels
ret	fold($2, $3, fold($4, $5, ite([$6, lin(#1, $7), {!$6 & !$8 & empty($9)}, $7, {!$6 & !$8 & !empty($9)}, lin(#0, $7, size($9)), {!$6 & $8}, lin(#0, call(`pdaaal::internal::PDA::number_of_labels`, param(#0)), $7)]), none, false), none, false)	true
== i::AbslHashValue |  | (absl::hash_internal::MixingHashState, const i::pda_rule_t<W0, void> &) | absl::hash_internal::MixingHashState | absl::hash_internal::MixingHashState
-- file: include/pdaaal/internal/PDA.h
-- id: 188
ret	call(`absl::hash_internal::HashStateBase::combine`, param(#0), param(#1)._to, param(#1)._operation, param(#1)._op_label)	true
== i::AbslHashValue |  | (absl::hash_internal::MixingHashState, const i::pda_rule_t<Wu, void> &) | absl::hash_internal::MixingHashState | absl::hash_internal::MixingHashState
-- file: include/pdaaal/internal/PDA.h
-- id: 189
ret	call(`absl::hash_internal::HashStateBase::combine`, param(#0), param(#1)._to, param(#1)._operation, param(#1)._weight, param(#1)._op_label)	true
== user_rule_t::from | user_rule_t<W0, void> | () const |  | u64
-- file: include/pdaaal/internal/PDA.h
-- id: 190
ret	self._from	true
== user_rule_t::from | user_rule_t<Wu, void> | () const |  | u64
-- file: include/pdaaal/internal/PDA.h
-- same: 190
== user_rule_t::user_rule_t | user_rule_t<Wi, void> | (u64, u32, const i::pda_rule_t<Wi, void> &) |  | void
-- file: include/pdaaal/internal/PDA.h
-- id: 191
let	$1	param(#2)._operation
let	$2	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $1)
let	$3	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $1)
do		set(self._from, param(#0))	true
do		set(self._to, param(#2)._to)	true
do		set(self._pre, param(#1))	true
do		set(self._op_label, param(#2)._op_label)	$2 | $3
do		set(self._op_label, 4294967295)	!$2 & !$3
do		set(self._op, $1)	true
do		set(self._weight, param(#2)._weight)	true
== i::PDA::PDA | i::PDA<W0, fut::vector> | (i::PDA<W0, fut::hash> &&) | fut::hash | void
-- file: include/pdaaal/internal/PDA.h
-- id: 192
let	$1	param(#0)._states
do		set(self._states, ctor(`std::vector`, call(`std::make_move_iterator`, begin($1)), call(`std::make_move_iterator`, end($1))))	true
== i::PDA::PDA | i::PDA<Wu, fut::vector> | (i::PDA<Wu, fut::hash> &&) | fut::hash | void
-- file: include/pdaaal/internal/PDA.h
-- same: 192
== i::PDA::state_t::state_t | i::PDA<Wu, fut::hash>::state_t | (i::PDA<Wu, fut::hash>::state_t &&) |  | void
-- file: include/pdaaal/internal/PDA.h
-- id: 193
do		set(self._rules, param(#0)._rules)	true
do		set(self._pre_states, param(#0)._pre_states)	true
== i::PDA::states_begin | i::PDA<Wu, fut::hash> | () |  | __gnu_cxx::__normal_iterator<i::PDA<Wu, fut::hash>::state_t *, std::vector<i::PDA<Wu, fut::hash>::state_t>>
-- file: include/pdaaal/internal/PDA.h
-- id: 194
ret	begin(self._states)	true
== i::PDA::states_end | i::PDA<Wu, fut::hash> | () |  | __gnu_cxx::__normal_iterator<i::PDA<Wu, fut::hash>::state_t *, std::vector<i::PDA<Wu, fut::hash>::state_t>>
-- file: include/pdaaal/internal/PDA.h
-- id: 195
ret	end(self._states)	true
== i::PDA::states | i::PDA<Wu, fut::hash> | () const |  | const std::vector<i::PDA<Wu, fut::hash>::state_t> &
-- file: include/pdaaal/internal/PDA.h
-- id: 196
ret	self._states	true
== i::PDA::add_state | i::PDA<Wu, fut::hash> | (u64) |  | void
-- file: include/pdaaal/internal/PDA.h
-- id: 197
do		do(`resize`, self._states, lin(#1, param(#0)))	!lt(param(#0), size(self._states))
== i::PDA::add_untyped_rule | i::PDA<Wu, fut::hash> | (const u64 &, const u64 &, const op_t &, u32 &, const u32 &, bool &&, std::vector<u32> &&) | <const u64 &, const u64 &, const op_t &, u32 &, const u32 &, bool, std::vector<u32>> | void
-- file: include/pdaaal/internal/PDA.h
-- id: 198
do		do(`pdaaal::internal::PDA::add_untyped_rule_`, self, param(#0), param(#1), param(#2), param(#3), param(#4), true, param(#6))	param(#5)
do		do(`pdaaal::internal::PDA::add_untyped_rule_`, self, param(#0), param(#1), param(#2), param(#3), param(#4), false, param(#6))	!param(#5)
== i::PDA::add_untyped_rule_impl | i::PDA<Wu, fut::hash> | (u64, i::pda_rule_t<Wu, void>, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/internal/PDA.h
-- id: 199
let	$1	lt(param(#0), param(#1)._to)
let	$2	self._states[param(#0)]._rules
do		do(`pdaaal::internal::PDA::add_state`, self, param(#1)._to)	$1
do		do(`pdaaal::internal::PDA::add_state`, self, param(#0))	!$1
do		do(`insert`, $2, param(#1), pdaaal::internal::labels_t{_labels: new(`std::vector`), _wildcard: false})	true
do		do(`pdaaal::internal::labels_t::merge`, $2[param(#1)], true, param(#3))	param(#2)
do		do(`pdaaal::internal::labels_t::merge`, $2[param(#1)], false, param(#3))	!param(#2)
do		do(`insert`, self._states[param(#1)._to]._pre_states, param(#0))	true
== i::PDA::add_untyped_rule_ | i::PDA<Wu, fut::hash> | (u64, u64, op_t, u32, u32, bool, const std::vector<u32> &) | Wu, void | void
-- file: include/pdaaal/internal/PDA.h
-- id: 200
let	$1	pdaaal::internal::pda_rule_t{_op_label: param(#3), _operation: param(#2), _to: param(#1), _weight: param(#4)}
do		do(`pdaaal::internal::PDA::add_untyped_rule_impl`, self, param(#0), $1, true, param(#6))	param(#5)
do		do(`pdaaal::internal::PDA::add_untyped_rule_impl`, self, param(#0), $1, false, param(#6))	!param(#5)
== i::PDA::state_t::state_t | i::PDA<W0, fut::hash>::state_t | (i::PDA<W0, fut::hash>::state_t &&) |  | void
-- file: include/pdaaal/internal/PDA.h
-- same: 193
== i::PDA::states_begin | i::PDA<W0, fut::hash> | () |  | __gnu_cxx::__normal_iterator<i::PDA<W0, fut::hash>::state_t *, std::vector<i::PDA<W0, fut::hash>::state_t>>
-- file: include/pdaaal/internal/PDA.h
-- same: 194
== i::PDA::states_end | i::PDA<W0, fut::hash> | () |  | __gnu_cxx::__normal_iterator<i::PDA<W0, fut::hash>::state_t *, std::vector<i::PDA<W0, fut::hash>::state_t>>
-- file: include/pdaaal/internal/PDA.h
-- same: 195
== i::PDA::states | i::PDA<W0, fut::hash> | () const |  | const std::vector<i::PDA<W0, fut::hash>::state_t> &
-- file: include/pdaaal/internal/PDA.h
-- same: 196
== i::PDA::add_state | i::PDA<W0, fut::hash> | (u64) |  | void
-- file: include/pdaaal/internal/PDA.h
-- same: 197
== i::PDA::add_untyped_rule | i::PDA<W0, fut::hash> | (const u64 &, const u64 &, const op_t &, u32 &, bool &&, std::vector<u32> &&) | <const u64 &, const u64 &, const op_t &, u32 &, bool, std::vector<u32>> | void
-- file: include/pdaaal/internal/PDA.h
-- id: 201
do		do(`pdaaal::internal::PDA::add_untyped_rule_`, self, param(#0), param(#1), param(#2), param(#3), true, param(#5))	param(#4)
do		do(`pdaaal::internal::PDA::add_untyped_rule_`, self, param(#0), param(#1), param(#2), param(#3), false, param(#5))	!param(#4)
== i::PDA::add_untyped_rule_impl | i::PDA<W0, fut::hash> | (u64, i::pda_rule_t<W0, void>, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/internal/PDA.h
-- same: 199
== i::PDA::add_untyped_rule_ | i::PDA<W0, fut::hash> | (u64, u64, op_t, u32, bool, const std::vector<u32> &) | W0, void | void
-- file: include/pdaaal/internal/PDA.h
-- id: 202
let	$1	pdaaal::internal::pda_rule_t{_op_label: param(#3), _operation: param(#2), _to: param(#1)}
do		do(`pdaaal::internal::PDA::add_untyped_rule_impl`, self, param(#0), $1, true, param(#5))	param(#4)
do		do(`pdaaal::internal::PDA::add_untyped_rule_impl`, self, param(#0), $1, false, param(#5))	!param(#4)
