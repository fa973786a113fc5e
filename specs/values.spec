== AutomatonPath::empty | AutomatonPath<true> | () const |  | bool
-- file: include/pdaaal/AutomatonPath.h
-- id: 0
ret	empty(self._edges)	true
== AutomatonPath::edges_size | AutomatonPath<true> | () const |  | u64
-- file: include/pdaaal/AutomatonPath.h
-- id: 1
ret	size(self._edges)	true
== AutomatonPath::front_state | AutomatonPath<true> | () const |  | std::pair<u64, u64>
-- file: include/pdaaal/AutomatonPath.h
-- id: 2
let	$1	empty(self._edges)
ret	self._end	$1
ret	back(self._edges).#1	!$1
== AutomatonPath::front_edge | AutomatonPath<true> | () const |  | std::tuple<std::pair<u64, u64>, u32, std::pair<u64, u64>>
-- file: include/pdaaal/AutomatonPath.h
-- id: 3
let	$1	back(self._edges)
let	$2	size(self._edges)
ret	tuple{#0: $1.#1, #1: $1.#0, #2: self._edges[lin(#-2, $2)].#1}	lt(1, $2)
ret	tuple{#0: $1.#1, #1: $1.#0, #2: self._end}	!lt(1, $2)
== AutomatonPath::pop | AutomatonPath<true> | () |  | void
-- file: include/pdaaal/AutomatonPath.h
-- id: 4
do		do(`pop`, self._edges)	true
== AutomatonPath::emplace | AutomatonPath<true> | (std::pair<u64, u64>, u32) |  | void
-- file: include/pdaaal/AutomatonPath.h
-- id: 5
do		do(`push`, self._edges, tuple{#0: param(#1), #1: param(#0)})	true
== AutomatonPath::stack | AutomatonPath<true> | () const |  | std::vector<u32>
-- file: include/pdaaal/AutomatonPath.h
-- id: 6
let	$1	range(rbegin(self._edges), rend(self._edges))
do	foreach($1)	do(`push`, L(#0), $1@0^.#0)	true
dom		init(L(#0), new(`std::vector`))	true
ret	L(#0)'	true
== AutomatonPath::get_path_and_stack | AutomatonPath<true> | () const |  | std::pair<std::vector<std::pair<u64, u64>>, std::vector<u32>>
-- file: include/pdaaal/AutomatonPath.h
-- id: 7
let	$1	range(rbegin(self._edges), rend(self._edges))
let	$2	eq($1@0^.#0, 4294967295)
let	$3	new(`std::vector`)
do	foreach($1)	do(`push`, L(#1), $1@0^.#1)	!$2
do	foreach($1)	do(`push`, L(#0), $1@0^.#0)	!$2
do		do(`push`, L(#1), self._end)	true
dom		init(L(#1), $3)	true
dom		init(L(#0), $3)	true
ret	tuple{#0: L(#1)'', #1: L(#0)'}	true
== AutomatonPath::split | AutomatonPath<true> | () const |  | std::pair<AutomatonPath<false>, AutomatonPath<false>>
-- file: include/pdaaal/AutomatonPath.h
-- id: 8
let	$1	foreach(self._edges)
let	$2	self._edges@0.#1
let	$3	self._edges@0.#0
let	$4	new(`std::vector`)
do	$1	do(`pdaaal::AutomatonPath::emplace`, L(#0), $2.#0, $3)	true
do	$1	do(`pdaaal::AutomatonPath::emplace`, L(#1), $2.#1, $3)	true
dom		init(L(#0)._edges, $4)	true
dom		init(L(#1)._edges, $4)	true
ret	tuple{#0: pdaaal::AutomatonPath{_edges: L(#0)._edges', _end: self._end.#0}, #1: pdaaal::AutomatonPath{_edges: L(#1)._edges', _end: self._end.#1}}	true
== AutomatonPath::remove_epsilon | AutomatonPath<true> | () |  | void
-- file: include/pdaaal/AutomatonPath.h
-- id: 9
do		do(`pdaaal::AutomatonPath::pop`, self)	!empty(self._edges) & eq(get(call(`pdaaal::AutomatonPath::front_edge`, self), `1UL`), 4294967295)
== operator== |  | (const AutomatonPath<true> &, const AutomatonPath<true> &) |  | bool
-- file: include/pdaaal/AutomatonPath.h
-- id: 10
ret	{eq(param(#0)._end, param(#1)._end) & eq(param(#1)._edges, param(#0)._edges)}	true
== use_paths |  | () |  | void
-- file: unit
-- id: 11
== utils::ptrie_set::insert | utils::ptrie_set<u32> | (const u32 &) |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 12
let	$1	call(`pdaaal::utils::ptrie_interface::to_ptrie`, param(#0))
do		do(`insert`, self, $1)	true
ret	res(`ptrie::set_stable::insert`, self, $1)	true
== utils::ptrie_set::exists | utils::ptrie_set<u32> | (const u32 &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 13
ret	call(`ptrie::set_stable::exists`, self, call(`pdaaal::utils::ptrie_interface::to_ptrie`, param(#0)))	true
== utils::ptrie_set::erase | utils::ptrie_set<u32> | (const u32 &) |  | bool
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 14
let	$1	call(`pdaaal::utils::ptrie_interface::to_ptrie`, param(#0))
do		do(`erase`, self, $1)	true
ret	res(`ptrie::set_stable::erase`, self, $1)	true
== utils::ptrie_set::at | utils::ptrie_set<u32> | (u64) const |  | u32
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 15
ret	call(`pdaaal::utils::ptrie_interface::unpack`, self, param(#0))	true
== utils::ptrie_set::insert | utils::ptrie_set<std::string> | (const std::string &) |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 12
== utils::ptrie_set::exists | utils::ptrie_set<std::string> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 13
== utils::ptrie_set::erase | utils::ptrie_set<std::string> | (const std::string &) |  | bool
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 14
== utils::ptrie_set::at | utils::ptrie_set<std::string> | (u64) const |  | std::string
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 15
== utils::ptrie_set::insert | utils::ptrie_set<std::vector<u32>> | (const std::vector<u32> &) |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 12
== utils::ptrie_set::exists | utils::ptrie_set<std::vector<u32>> | (const std::vector<u32> &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 13
== utils::ptrie_set::erase | utils::ptrie_set<std::vector<u32>> | (const std::vector<u32> &) |  | bool
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 14
== utils::ptrie_set::at | utils::ptrie_set<std::vector<u32>> | (u64) const |  | std::vector<u32>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 15
== utils::ptrie_set::insert | utils::ptrie_set<std::tuple<u32, std::vector<u32>>> | (const std::tuple<u32, std::vector<u32>> &) |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 12
== utils::ptrie_set::exists | utils::ptrie_set<std::tuple<u32, std::vector<u32>>> | (const std::tuple<u32, std::vector<u32>> &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 13
== utils::ptrie_set::erase | utils::ptrie_set<std::tuple<u32, std::vector<u32>>> | (const std::tuple<u32, std::vector<u32>> &) |  | bool
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 14
== utils::ptrie_set::at | utils::ptrie_set<std::tuple<u32, std::vector<u32>>> | (u64) const |  | std::tuple<u32, std::vector<u32>>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 15
== utils::ptrie_set::insert | utils::ptrie_set<std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>>> | (const std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>> &) |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 12
== utils::ptrie_set::exists | utils::ptrie_set<std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>>> | (const std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>> &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 13
== utils::ptrie_set::erase | utils::ptrie_set<std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>>> | (const std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>> &) |  | bool
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 14
== utils::ptrie_set::at | utils::ptrie_set<std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>>> | (u64) const |  | std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 15
== utils::ptrie_map::insert | utils::ptrie_map<std::tuple<std::variant<u32, std::vector<u32>>, u32>, int> | (const std::tuple<std::variant<u32, std::vector<u32>>, u32> &) |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 16
let	$1	call(`pdaaal::utils::ptrie_interface::to_ptrie`, param(#0))
do		do(`insert`, self, $1)	true
ret	res(`ptrie::map::insert`, self, $1)	true
== utils::ptrie_map::exists | utils::ptrie_map<std::tuple<std::variant<u32, std::vector<u32>>, u32>, int> | (const std::tuple<std::variant<u32, std::vector<u32>>, u32> &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 17
ret	call(`ptrie::set_stable::exists`, self, call(`pdaaal::utils::ptrie_interface::to_ptrie`, param(#0)))	true
== utils::ptrie_map::erase | utils::ptrie_map<std::tuple<std::variant<u32, std::vector<u32>>, u32>, int> | (const std::tuple<std::variant<u32, std::vector<u32>>, u32> &) |  | bool
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 18
let	$1	call(`pdaaal::utils::ptrie_interface::to_ptrie`, param(#0))
do		do(`erase`, self, $1)	true
ret	res(`ptrie::set_stable::erase`, self, $1)	true
== utils::ptrie_map::at | utils::ptrie_map<std::tuple<std::variant<u32, std::vector<u32>>, u32>, int> | (u64) const |  | std::tuple<std::variant<u32, std::vector<u32>>, u32>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 19
ret	call(`pdaaal::utils::ptrie_interface::unpack`, self, param(#0))	true
== utils::ptrie_map::operator[] | utils::ptrie_map<std::tuple<std::variant<u32, std::vector<u32>>, u32>, int> | (const std::tuple<std::variant<u32, std::vector<u32>>, u32> &) |  | int &
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 20
ret	self[call(`pdaaal::utils::ptrie_interface::to_ptrie`, param(#0))]	true
== utils::ptrie_map::insert | utils::ptrie_map<std::string, int> | (const std::string &) |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 16
== utils::ptrie_map::exists | utils::ptrie_map<std::string, int> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 17
== utils::ptrie_map::erase | utils::ptrie_map<std::string, int> | (const std::string &) |  | bool
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 18
== utils::ptrie_map::at | utils::ptrie_map<std::string, int> | (u64) const |  | std::string
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 19
== utils::ptrie_map::operator[] | utils::ptrie_map<std::string, int> | (const std::string &) |  | int &
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 20
== utils::fixed_byte_size::size | utils::fixed_byte_size<std::tuple<u32, u64>, void> | () |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 21
ret	12	true
== utils::byte_vector_converter::size | utils::byte_vector_converter<std::tuple<u32, std::vector<u32>>, void> | (const std::tuple<u32, std::vector<u32>> &) |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 22
ret	call(`std::apply`, fun(lin(#0, call(`pdaaal::utils::byte_vector_converter::size`, lp(#0, #1)), call(`pdaaal::utils::byte_vector_converter::size`, lp(#0, #0))), []), param(#0))	true
== utils::byte_vector_converter::push_back_bytes | utils::byte_vector_converter<std::tuple<u32, std::vector<u32>>, void> | (std::vector<std::byte> &, const std::tuple<u32, std::vector<u32>> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 23
do		do(`std::apply`, fun(none, [eff(ctx([]), true, do(`pdaaal::utils::byte_vector_converter::push_back_bytes`, param(#0), lp(#0, #0))), eff(ctx([]), true, do(`pdaaal::utils::byte_vector_converter::push_back_bytes`, param(#0)', lp(#0, #1)))]), param(#1))	true
== utils::byte_vector_converter::from_bytes | utils::byte_vector_converter<std::tuple<u32, std::vector<u32>>, void> | (const std::vector<std::byte> &, u64 &, std::tuple<u32, std::vector<u32>> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 24
do		do(`std::apply`, fun(none, [eff(ctx([]), true, do(`pdaaal::utils::byte_vector_converter::from_bytes`, param(#0), param(#1)', lp(#0, #1))), eff(ctx([]), true, do(`pdaaal::utils::byte_vector_converter::from_bytes`, param(#0), param(#1), lp(#0, #0)))]), param(#2))	true
== utils::byte_vector_converter::size | utils::byte_vector_converter<std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>>, void> | (const std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>> &) |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 25
ret	call(`std::apply`, fun(lin(#0, call(`pdaaal::utils::byte_vector_converter::size`, lp(#0, #1)), call(`pdaaal::utils::byte_vector_converter::size`, lp(#0, #0)), call(`pdaaal::utils::byte_vector_converter::size`, lp(#0, #2))), []), param(#0))	true
== utils::byte_vector_converter::push_back_bytes | utils::byte_vector_converter<std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>>, void> | (std::vector<std::byte> &, const std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 26
do		do(`std::apply`, fun(none, [eff(ctx([]), true, do(`pdaaal::utils::byte_vector_converter::push_back_bytes`, param(#0), lp(#0, #0))), eff(ctx([]), true, do(`pdaaal::utils::byte_vector_converter::push_back_bytes`, param(#0)'', lp(#0, #2))), eff(ctx([]), true, do(`pdaaal::utils::byte_vector_converter::push_back_bytes`, param(#0)', lp(#0, #1)))]), param(#1))	true
== utils::byte_vector_converter::from_bytes | utils::byte_vector_converter<std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>>, void> | (const std::vector<std::byte> &, u64 &, std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 27
do		do(`std::apply`, fun(none, [eff(ctx([]), true, do(`pdaaal::utils::byte_vector_converter::from_bytes`, param(#0), param(#1)', lp(#0, #1))), eff(ctx([]), true, do(`pdaaal::utils::byte_vector_converter::from_bytes`, param(#0), param(#1)'', lp(#0, #2))), eff(ctx([]), true, do(`pdaaal::utils::byte_vector_converter::from_bytes`, param(#0), param(#1), lp(#0, #0)))]), param(#2))	true
== utils::byte_vector_converter::size | utils::byte_vector_converter<std::variant<u32, std::vector<u32>>, void> | (const std::variant<u32, std::vector<u32>> &) |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 28
ret	lin(#1, call(`boost::mp11::mp_with_index`, index(param(#0)), funs(fun(call(`pdaaal::utils::byte_vector_converter::size`, get(param(#0), `0UL`)), []), fun(call(`pdaaal::utils::byte_vector_converter::size`, get(param(#0), `1UL`)), []))))	true
== utils::byte_vector_converter::push_back_bytes | utils::byte_vector_converter<std::variant<u32, std::vector<u32>>, void> | (std::vector<std::byte> &, const std::variant<u32, std::vector<u32>> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 29
let	$1	index(param(#1))
let	$2	call(`std::variant::valueless_by_exception`, param(#1))
do		do(`pdaaal::utils::byte_vector_converter::push_back_bytes`, param(#0), cast(#8, $1))	!$2
do		do(`boost::mp11::mp_with_index`, $1, funs(fun(none, [eff(ctx([]), true, do(`pdaaal::utils::byte_vector_converter::push_back_bytes`, param(#0)', get(param(#1), `0UL`)))]), fun(none, [eff(ctx([]), true, do(`pdaaal::utils::byte_vector_converter::push_back_bytes`, param(#0)', get(param(#1), `1UL`)))])))	!$2
== utils::byte_vector_converter::from_bytes | utils::byte_vector_converter<std::variant<u32, std::vector<u32>>, void> | (const std::vector<std::byte> &, u64 &, std::variant<u32, std::vector<u32>> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 30
do		do(`pdaaal::utils::byte_vector_converter::from_bytes`, param(#0), param(#1), 0)	true
do		do(`boost::mp11::mp_with_index`, L(#0)', fun(none, [eff(ctx([]), true, do(`pdaaal::utils::byte_vector_converter::from_bytes`, param(#0), param(#1)', res(`std::variant::emplace`, param(#2)))), eff(ctx([]), true, do(`insert`, param(#2)))]))	true
dom		init(L(#0), 0)	true
== utils::byte_vector_converter::size | utils::byte_vector_converter<std::variant<u32>, void> | (const std::variant<u32> &) |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 31
ret	call(`pdaaal::utils::byte_vector_converter::size`, get(param(#0), `0UL`))	true
== utils::byte_vector_converter::push_back_bytes | utils::byte_vector_converter<std::variant<u32>, void> | (std::vector<std::byte> &, const std::variant<u32> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 32
do		do(`pdaaal::utils::byte_vector_converter::push_back_bytes`, param(#0), get(param(#1), `0UL`))	true
== utils::byte_vector_converter::from_bytes | utils::byte_vector_converter<std::variant<u32>, void> | (const std::vector<std::byte> &, u64 &, std::variant<u32> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 33
do		do(`pdaaal::utils::byte_vector_converter::from_bytes`, param(#0), param(#1), get(param(#2), `0UL`))	true
== utils::byte_vector_converter::size | utils::byte_vector_converter<u32, void> | (const u32 &) |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 34
ret	4	true
== utils::byte_vector_converter::push_back_bytes | utils::byte_vector_converter<u32, void> | (std::vector<std::byte> &, const u32 &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 35
do	foreach(range(0, 4))	do(`push`, param(#0), call(`ptrie::byte_iterator::const_access`, addr(param(#1)), range(0, 4)@0))	true
== utils::byte_vector_converter::from_bytes | utils::byte_vector_converter<u32, void> | (const std::vector<std::byte> &, u64 &, u32 &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 36
let	$1	foreach(range(0, 4))
do	$1	set(call(`ptrie::byte_iterator::access`, addr(param(#2)), range(0, 4)@0), param(#0)[param(#1)'])	true
do	$1	set(param(#1), lin(#1, param(#1)'))	true
== utils::byte_vector_converter::size | utils::byte_vector_converter<std::vector<unsigned short>, void> | (const std::vector<unsigned short> &) |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 37
ret	lin(#8, mul(#2, size(param(#0))))	true
== utils::byte_vector_converter::push_back_bytes | utils::byte_vector_converter<std::vector<unsigned short>, void> | (std::vector<std::byte> &, const std::vector<unsigned short> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 38
do		do(`pdaaal::utils::byte_vector_converter::push_back_bytes`, param(#0), size(param(#1)))	true
do	foreach(param(#1))	do(`pdaaal::utils::byte_vector_converter::push_back_bytes`, param(#0)', param(#1)@0)	true
== utils::byte_vector_converter::from_bytes | utils::byte_vector_converter<std::vector<unsigned short>, void> | (const std::vector<std::byte> &, u64 &, std::vector<unsigned short> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 39
let	$1	foreach(range(0, L(#0)'))
do		do(`pdaaal::utils::byte_vector_converter::from_bytes`, param(#0), param(#1), indet)	true
do	$1	do(`push`, param(#2), 0)	true
do	$1	do(`pdaaal::utils::byte_vector_converter::from_bytes`, param(#0), param(#1)', back(param(#2))'')	true
dom		init(L(#0), indet)	true
== utils::byte_vector_converter::size | utils::byte_vector_converter<std::vector<std::tuple<u32, u32>>, void> | (const std::vector<std::tuple<u32, u32>> &) |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 40
ret	lin(#8, mul(#8, size(param(#0))))	true
== utils::byte_vector_converter::push_back_bytes | utils::byte_vector_converter<std::vector<std::tuple<u32, u32>>, void> | (std::vector<std::byte> &, const std::vector<std::tuple<u32, u32>> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 38
== utils::byte_vector_converter::from_bytes | utils::byte_vector_converter<std::vector<std::tuple<u32, u32>>, void> | (const std::vector<std::byte> &, u64 &, std::vector<std::tuple<u32, u32>> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 41
let	$1	foreach(range(0, L(#0)'))
do		do(`pdaaal::utils::byte_vector_converter::from_bytes`, param(#0), param(#1), indet)	true
do	$1	do(`push`, param(#2), tuple{#0: 0, #1: 0})	true
do	$1	do(`pdaaal::utils::byte_vector_converter::from_bytes`, param(#0), param(#1)', back(param(#2))'')	true
dom		init(L(#0), indet)	true
== utils::ptrie_access_iterator::ptrie_access_iterator | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (const utils::ptrie_set<u32> *) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 42
do		set(self._inner, new(`__gnu_cxx::__normal_iterator`))	true
do		set(self._ptrie, param(#0))	true
== utils::ptrie_access_iterator::ptrie_access_iterator | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (__gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>> &&, const utils::ptrie_set<u32> *) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 43
do		set(self._inner, param(#0))	true
do		set(self._ptrie, param(#1))	true
== utils::ptrie_access_iterator::ptrie_access_iterator | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (const __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>> &, const utils::ptrie_set<u32> *) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 43
== utils::ptrie_access_iterator::operator* | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | () const |  | u32
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 44
ret	call(`pdaaal::utils::ptrie_set::at`, self._ptrie^, self._inner^)	true
== utils::ptrie_access_iterator::operator++ | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | () |  | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> &
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 45
do		set(self._inner, lin(#1, self._inner))	true
ret	self	true
== utils::ptrie_access_iterator::operator++ | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (int) |  | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 46
do		set(self._inner, lin(#1, self._inner))	true
ret	pdaaal::utils::ptrie_access_iterator{_inner: self._inner, _ptrie: self._ptrie}	true
== utils::ptrie_access_iterator::operator== | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (const utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> &) const |  | bool
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 47
ret	eq(self._inner, param(#0)._inner)	true
== utils::ptrie_access_iterator::operator!= | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (const utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> &) const |  | bool
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 48
ret	{!eq(self._inner, param(#0)._inner)}	true
== utils::ptrie_access_iterator::operator-- | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | () |  | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> &
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 49
do		set(self._inner, lin(#-1, self._inner))	true
ret	self	true
== utils::ptrie_access_iterator::operator-- | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (int) |  | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 50
do		set(self._inner, lin(#-1, self._inner))	true
ret	pdaaal::utils::ptrie_access_iterator{_inner: self._inner, _ptrie: self._ptrie}	true
== utils::ptrie_access_iterator::operator[] | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (long) const |  | u32
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 51
ret	call(`pdaaal::utils::ptrie_set::at`, self._ptrie^, self._inner[param(#0)])	true
== utils::ptrie_access_iterator::operator+= | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (long) |  | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> &
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 52
do		set(self._inner, lin(#0, param(#0), self._inner))	true
ret	self	true
== utils::ptrie_access_iterator::operator+ | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (long) const |  | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 53
ret	pdaaal::utils::ptrie_access_iterator{_inner: lin(#0, param(#0), self._inner), _ptrie: self._ptrie}	true
== utils::ptrie_access_iterator::operator-= | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (long) |  | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> &
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 54
do		set(self._inner, lin(#0, mul(#-1, param(#0)), self._inner))	true
ret	self	true
== utils::ptrie_access_iterator::operator- | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (long) const |  | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 55
ret	pdaaal::utils::ptrie_access_iterator{_inner: lin(#0, mul(#-1, param(#0)), self._inner), _ptrie: self._ptrie}	true
== utils::ptrie_access_iterator::operator- | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (const utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> &) const |  | long
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 56
ret	lin(#0, self._inner, mul(#-1, param(#0)._inner))	true
== utils::ptrie_access_iterator::operator< | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (const utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> &) const |  | bool
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 57
ret	lt(self._inner, param(#0)._inner)	true
== utils::ptrie_access_iterator::operator> | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (const utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> &) const |  | bool
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 58
ret	lt(param(#0)._inner, self._inner)	true
== utils::ptrie_access_iterator::operator<= | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (const utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> &) const |  | bool
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 59
ret	{!lt(param(#0)._inner, self._inner)}	true
== utils::ptrie_access_iterator::operator>= | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | (const utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> &) const |  | bool
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 60
ret	{!lt(self._inner, param(#0)._inner)}	true
== utils::ptrie_access_iterator::base | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | () const |  | const __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>> &
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 61
ret	self._inner	true
== utils::ptrie_access_iterator::ptrie | utils::ptrie_access_iterator<utils::ptrie_set<u32>, __gnu_cxx::__normal_iterator<const u64 *, std::vector<u64>>> | () const |  | const utils::ptrie_set<u32> *
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 62
ret	self._ptrie	true
== weight::print | weight<std::vector<u32>, void> | (std::basic_ostream<char, std::char_traits<char>> &, const std::vector<u32> &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/Weight.h
-- id: 63
let	$1	foreach(param(#1))
do		out(`<<`, param(#0), "[")	true
do	$1	out(`<<`, param(#0), ",")	!phi(#0, true, #0)
do	$1	do(`operator<<`, param(#0), param(#1)@0)	true
do		out(`<<`, param(#0), "]")	true
ret	param(#0)	true
== utils::ptrie_interface::to_ptrie | utils::ptrie_interface<u32, void> | (const u32 &) |  | u32
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 64
ret	param(#0)	true
== utils::ptrie_interface::unpack | utils::ptrie_interface<u32, void> | (const utils::ptrie_set<u32> &, u64) | utils::ptrie_set<u32> | u32
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 65
ret	out(`ptrie::set_stable::unpack`, #1, param(#0), param(#1))	true
== utils::ptrie_interface::to_ptrie | utils::ptrie_interface<std::vector<u32>, void> | (const std::vector<u32> &) |  | std::vector<u32>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 64
== utils::ptrie_interface::unpack | utils::ptrie_interface<std::vector<u32>, void> | (const utils::ptrie_set<std::vector<u32>> &, u64) | utils::ptrie_set<std::vector<u32>> | std::vector<u32>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 66
ret	call(`ptrie::set_stable::unpack`, param(#0), param(#1))	true
== utils::ptrie_interface::to_ptrie | utils::ptrie_interface<std::tuple<u32, std::vector<u32>>, void> | (const std::tuple<u32, std::vector<u32>> &) |  | std::vector<std::byte>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 67
let	$1	new(`std::vector`)
do		do(`pdaaal::utils::byte_vector_converter::push_back_bytes`, $1, param(#0))	true
dom		init(L(#0), $1)	true
ret	L(#0)'	true
== utils::ptrie_interface::unpack | utils::ptrie_interface<std::tuple<u32, std::vector<u32>>, void> | (const utils::ptrie_set<std::tuple<u32, std::vector<u32>>> &, u64) | utils::ptrie_set<std::tuple<u32, std::vector<u32>>> | std::tuple<u32, std::vector<u32>>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 68
let	$1	tuple{#0: 0, #1: new(`std::vector`)}
do		do(`pdaaal::utils::byte_vector_converter::from_bytes`, call(`ptrie::set_stable::unpack`, param(#0), param(#1)), 0, $1)	true
dom		init(L(#0), 0)	true
dom		init(L(#1), $1)	true
ret	L(#1)'	true
== utils::ptrie_interface::to_ptrie | utils::ptrie_interface<std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>>, void> | (const std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>> &) |  | std::vector<std::byte>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 67
== utils::ptrie_interface::unpack | utils::ptrie_interface<std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>>, void> | (const utils::ptrie_set<std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>>> &, u64) | utils::ptrie_set<std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>>> | std::tuple<std::vector<unsigned short>, u64, std::vector<std::tuple<u32, u32>>>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 69
let	$1	new(`std::vector`)
let	$2	tuple{#0: $1, #1: 0, #2: $1}
do		do(`pdaaal::utils::byte_vector_converter::from_bytes`, call(`ptrie::set_stable::unpack`, param(#0), param(#1)), 0, $2)	true
dom		init(L(#0), 0)	true
dom		init(L(#1), $2)	true
ret	L(#1)'	true
== utils::ptrie_interface::to_ptrie | utils::ptrie_interface<std::tuple<std::variant<u32, std::vector<u32>>, u32>, void> | (const std::tuple<std::variant<u32, std::vector<u32>>, u32> &) |  | std::vector<std::byte>
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 67
== utils::ptrie_interface::unpack | utils::ptrie_interface<std::tuple<std::variant<u32, std::vector<u32>>, u32>, void> | (const utils::ptrie_map<std::tuple<std::variant<u32, std::vector<u32>>, u32>, int> &, u64) | utils::ptrie_map<std::tuple<std::variant<u32, std::vector<u32>>, u32>, int> | std::tuple<std::variant<u32, std::vector<u32>>, u32>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 70
let	$1	tuple{#0: new(`std::variant`), #1: 0}
do		do(`pdaaal::utils::byte_vector_converter::from_bytes`, call(`ptrie::set_stable::unpack`, param(#0), param(#1)), 0, $1)	true
dom		init(L(#0), 0)	true
dom		init(L(#1), $1)	true
ret	L(#1)'	true
== utils::ptrie_interface::to_ptrie | utils::ptrie_interface<std::string, void> | (const std::string &) |  | std::pair<const char *, u64>
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 71
ret	tuple{#0: data(param(#0)), #1: size(param(#0))}	true
== utils::ptrie_interface::unpack | utils::ptrie_interface<std::string, void> | (const utils::ptrie_set<std::string> &, u64) | utils::ptrie_set<std::string> | std::string
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 72
let	$1	call(`ptrie::set_stable::unpack`, param(#0), param(#1))
ret	ctor(`std::basic_string`, data($1), size($1))	true
== utils::ptrie_interface::unpack | utils::ptrie_interface<std::string, void> | (const utils::ptrie_map<std::string, int> &, u64) | utils::ptrie_map<std::string, int> | std::string
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 72
== weight::print | weight<std::vector<int>, void> | (std::basic_ostream<char, std::char_traits<char>> &, const std::vector<int> &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/Weight.h
-- same: 63
== utils::fixed_byte_size::size | utils::fixed_byte_size<u64, void> | () |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 73
ret	8	true
== utils::fixed_byte_size::size | utils::fixed_byte_size<u32, void> | () |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 74
ret	4	true
== utils::fixed_byte_size::size | utils::fixed_byte_size<std::tuple<u32, u32>, void> | () |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 73
== utils::fixed_byte_size::size | utils::fixed_byte_size<unsigned short, void> | () |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 75
ret	2	true
== utils::fixed_byte_size::size | utils::fixed_byte_size<unsigned char, void> | () |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 76
ret	1	true
== utils::byte_vector_converter::size | utils::byte_vector_converter<std::vector<u32>, void> | (const std::vector<u32> &) |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 77
ret	lin(#8, mul(#4, size(param(#0))))	true
== utils::byte_vector_converter::push_back_bytes | utils::byte_vector_converter<std::vector<u32>, void> | (std::vector<std::byte> &, const std::vector<u32> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 38
== utils::byte_vector_converter::from_bytes | utils::byte_vector_converter<std::vector<u32>, void> | (const std::vector<std::byte> &, u64 &, std::vector<u32> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 39
== utils::byte_vector_converter::size | utils::byte_vector_converter<std::tuple<std::variant<u32, std::vector<u32>>, u32>, void> | (const std::tuple<std::variant<u32, std::vector<u32>>, u32> &) |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 22
== utils::byte_vector_converter::push_back_bytes | utils::byte_vector_converter<std::tuple<std::variant<u32, std::vector<u32>>, u32>, void> | (std::vector<std::byte> &, const std::tuple<std::variant<u32, std::vector<u32>>, u32> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 23
== utils::byte_vector_converter::from_bytes | utils::byte_vector_converter<std::tuple<std::variant<u32, std::vector<u32>>, u32>, void> | (const std::vector<std::byte> &, u64 &, std::tuple<std::variant<u32, std::vector<u32>>, u32> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 24
== utils::byte_vector_converter::size | utils::byte_vector_converter<u64, void> | (const u64 &) |  | u64
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 78
ret	8	true
== utils::byte_vector_converter::push_back_bytes | utils::byte_vector_converter<u64, void> | (std::vector<std::byte> &, const u64 &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 79
do	foreach(range(0, 8))	do(`push`, param(#0), call(`ptrie::byte_iterator::const_access`, addr(param(#1)), range(0, 8)@0))	true
== utils::byte_vector_converter::from_bytes | utils::byte_vector_converter<u64, void> | (const std::vector<std::byte> &, u64 &, u64 &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 80
let	$1	foreach(range(0, 8))
do	$1	set(call(`ptrie::byte_iterator::access`, addr(param(#2)), range(0, 8)@0), param(#0)[param(#1)'])	true
do	$1	set(param(#1), lin(#1, param(#1)'))	true
== utils::byte_vector_converter::push_back_bytes | utils::byte_vector_converter<std::tuple<u32, u32>, void> | (std::vector<std::byte> &, const std::tuple<u32, u32> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 23
== weight::print | weight<std::array<u32, 3>, void> | (std::basic_ostream<char, std::char_traits<char>> &, const std::array<u32, 3> &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/Weight.h
-- same: 63
== utils::byte_vector_converter::from_bytes | utils::byte_vector_converter<std::tuple<u32, u32>, void> | (const std::vector<std::byte> &, u64 &, std::tuple<u32, u32> &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- same: 24
== utils::byte_vector_converter::push_back_bytes | utils::byte_vector_converter<unsigned short, void> | (std::vector<std::byte> &, const unsigned short &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 81
do	foreach(range(0, 2))	do(`push`, param(#0), call(`ptrie::byte_iterator::const_access`, addr(param(#1)), range(0, 2)@0))	true
== utils::byte_vector_converter::from_bytes | utils::byte_vector_converter<unsigned short, void> | (const std::vector<std::byte> &, u64 &, unsigned short &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 82
let	$1	foreach(range(0, 2))
do	$1	set(call(`ptrie::byte_iterator::access`, addr(param(#2)), range(0, 2)@0), param(#0)[param(#1)'])	true
do	$1	set(param(#1), lin(#1, param(#1)'))	true
== utils::byte_vector_converter::push_back_bytes | utils::byte_vector_converter<unsigned char, void> | (std::vector<std::byte> &, const unsigned char &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 83
do	foreach(range(0, 1))	do(`push`, param(#0), call(`ptrie::byte_iterator::const_access`, addr(param(#1)), range(0, 1)@0))	true
== utils::byte_vector_converter::from_bytes | utils::byte_vector_converter<unsigned char, void> | (const std::vector<std::byte> &, u64 &, unsigned char &) |  | void
-- file: include/pdaaal/utils/ptrie_interface.h
-- id: 84
let	$1	foreach(range(0, 1))
do	$1	set(call(`ptrie::byte_iterator::access`, addr(param(#2)), range(0, 1)@0), param(#0)[param(#1)'])	true
do	$1	set(param(#1), lin(#1, param(#1)'))	true
== vector_printer::vector_printer | vector_printer | (std::string) |  | void
-- file: include/pdaaal/utils/vector_printer.h
-- id: 85
do		set(self._o, addrof(gvar(`std::cout`)))	true
do		set(self._start, "[")	true
do		set(self._separator, param(#0))	true
do		set(self._end, "]")	true
== vector_printer::vector_printer | vector_printer | (std::string, std::string) |  | void
-- file: include/pdaaal/utils/vector_printer.h
-- id: 86
do		set(self._o, addrof(gvar(`std::cout`)))	true
do		set(self._start, param(#0))	true
do		set(self._separator, ",")	true
do		set(self._end, param(#1))	true
== vector_printer::vector_printer | vector_printer | (std::string, std::string, std::string) |  | void
-- file: include/pdaaal/utils/vector_printer.h
-- id: 87
do		set(self._o, addrof(gvar(`std::cout`)))	true
do		set(self._start, param(#0))	true
do		set(self._separator, param(#1))	true
do		set(self._end, param(#2))	true
== operator<< |  | (std::basic_ostream<char, std::char_traits<char>> &, const vector_printer &) |  | vector_printer
-- file: include/pdaaal/utils/vector_printer.h
-- id: 88
ret	pdaaal::vector_printer{_end: param(#1)._end, _o: addrof(param(#0)), _separator: param(#1)._separator, _start: param(#1)._start}	true
== weight::print | weight<std::array<int, 3>, void> | (std::basic_ostream<char, std::char_traits<char>> &, const std::array<int, 3> &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/Weight.h
-- same: 63
== weight::print | Wu | (std::basic_ostream<char, std::char_traits<char>> &, const u32 &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/Weight.h
-- id: 89
do		do(`operator<<`, param(#0), param(#1))	true
ret	param(#0)	true
== fut::operator< |  | (const fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t &, const u32 &) |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- id: 90
ret	lt(param(#0).#0, param(#1))	true
== is_disjoint |  | (const std::vector<u32> &, const std::vector<u32> &) | u32 | bool
-- file: include/pdaaal/utils/more_algorithms.h
-- id: 91
ret	exists(loop(#0), {eq(end(param(#1)), phi(#0, begin(param(#1)), #0)) | eq(phi(#0, begin(param(#0)), #0), end(param(#0)))})	true
== is_disjoint |  | (const std::vector<u32> &, const std::vector<u32> &, std::less<u32>) | u32, u32, std::less<u32> | bool
-- file: include/pdaaal/utils/more_algorithms.h
-- same: 91
== CompFirst::operator() | CompFirst<u32, u64, std::less<u32>> | (const std::pair<u32, u64> &, const std::pair<u32, u64> &) const |  | bool
-- file: include/pdaaal/utils/more_algorithms.h
-- id: 92
ret	lt(param(#0).#0, param(#1).#0)	true
== CompFirst::operator() | CompFirst<u32, u64, CompSwapArgs<u32, std::less<u32>>> | (const std::pair<u32, u64> &, const std::pair<u32, u64> &) const |  | bool
-- file: include/pdaaal/utils/more_algorithms.h
-- id: 93
ret	lt(param(#1).#0, param(#0).#0)	true
== fut::operator== |  | (const fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t &, const u32 &) |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- id: 94
ret	eq(param(#1), param(#0).#0)	true
== CompSwapArgs::operator() | CompSwapArgs<u32, std::less<u32>> | (const u32 &, const u32 &) const |  | bool
-- file: include/pdaaal/utils/more_algorithms.h
-- id: 95
ret	lt(param(#1), param(#0))	true
== fut::operator!= |  | (const fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t &, const u32 &) |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- id: 96
ret	{!eq(param(#1), param(#0).#0)}	true
== details::weight_impl::less | details::weight_impl<u32, false, void> | (u32, u32) |  | bool
-- file: include/pdaaal/Weight.h
-- id: 97
ret	lt(param(#0), param(#1))	true
== details::weight_impl::add | details::weight_impl<u32, false, void> | (u32, u32) |  | u32
-- file: include/pdaaal/Weight.h
-- id: 98
let	$1	eq(param(#1), 4294967295)
let	$2	eq(4294967295, param(#0))
ret	4294967295	$1 | $2
ret	lin(#0, param(#1), param(#0))	!$1 & !$2
== details::weight_impl::less | details::weight_impl<u32, true, void> | (u32, u32) |  | bool
-- file: include/pdaaal/Weight.h
-- id: 99
ret	{!eq(4294967295, param(#0)) & eq(param(#1), 4294967295) | !eq(4294967295, param(#0)) & lt(param(#1), param(#0))}	true
== details::weight_impl::add | details::weight_impl<u32, true, void> | (u32, u32) |  | u32
-- file: include/pdaaal/Weight.h
-- id: 100
let	$1	eq(param(#1), 4294967295)
let	$2	eq(4294967295, param(#0))
let	$3	eq(param(#1), 4294967294)
let	$4	eq(param(#0), 4294967294)
ret	4294967295	$1 | $2
ret	4294967294	!$1 & $4 | !$2 & $3
ret	lin(#0, param(#1), param(#0))	!$1 & !$2 & !$3 & !$4
== details::weight_impl::less | details::weight_impl<int, false, void> | (int, int) |  | bool
-- file: include/pdaaal/Weight.h
-- same: 97
== details::weight_impl::add | details::weight_impl<int, false, void> | (int, int) |  | int
-- file: include/pdaaal/Weight.h
-- id: 101
let	$1	eq(param(#0), 2147483647)
let	$2	eq(param(#1), 2147483647)
let	$3	eq(param(#1), -2147483648)
let	$4	eq(param(#0), -2147483648)
ret	2147483647	$1 | $2
ret	-2147483648	!$1 & $3 | !$2 & $4
ret	lin(#0, param(#1), param(#0))	!$1 & !$2 & !$3 & !$4
== details::weight_impl::less | details::weight_impl<int, true, void> | (int, int) |  | bool
-- file: include/pdaaal/Weight.h
-- id: 102
ret	lt(param(#1), param(#0))	true
== details::weight_impl::add | details::weight_impl<int, true, void> | (int, int) |  | int
-- file: include/pdaaal/Weight.h
-- id: 103
let	$1	eq(param(#1), -2147483648)
let	$2	eq(param(#0), -2147483648)
let	$3	eq(param(#0), 2147483647)
let	$4	eq(param(#1), 2147483647)
ret	-2147483648	$1 | $2
ret	2147483647	!$1 & $3 | !$2 & $4
ret	lin(#0, param(#1), param(#0))	!$1 & !$2 & !$3 & !$4
== details::weight_impl::less | details::weight_impl<std::array<u32, 3>, false, void> | (const std::array<u32, 3> &, const std::array<u32, 3> &) |  | bool
-- file: include/pdaaal/Weight.h
-- id: 104
ret	call(`std::lexicographical_compare`, begin(param(#0)), end(param(#0)), begin(param(#1)), end(param(#1)), fnref(`pdaaal::details::weight_impl::less`))	true
== details::weight_impl::add | details::weight_impl<std::array<u32, 3>, false, void> | (const std::array<u32, 3> &, const std::array<u32, 3> &) |  | std::array<u32, 3>
-- file: include/pdaaal/Weight.h
-- id: 105
do	foreach(range(0, 3))	set(L(#0)[range(0, 3)@0], call(`pdaaal::details::weight_impl::add`, param(#0)[range(0, 3)@0], param(#1)[range(0, 3)@0]))	true
dom		init(L(#0), list(new(`unsigned int[3]`)))	true
ret	L(#0)'	true
== details::weight_impl::less | details::weight_impl<std::array<int, 3>, true, void> | (const std::array<int, 3> &, const std::array<int, 3> &) |  | bool
-- file: include/pdaaal/Weight.h
-- same: 104
== details::weight_impl::add | details::weight_impl<std::array<int, 3>, true, void> | (const std::array<int, 3> &, const std::array<int, 3> &) |  | std::array<int, 3>
-- file: include/pdaaal/Weight.h
-- id: 106
do	foreach(range(0, 3))	set(L(#0)[range(0, 3)@0], call(`pdaaal::details::weight_impl::add`, param(#0)[range(0, 3)@0], param(#1)[range(0, 3)@0]))	true
dom		init(L(#0), list(new(`int[3]`)))	true
ret	L(#0)'	true
== fut::vector_map::begin | fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>> | () |  | __gnu_cxx::__normal_iterator<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- id: 107
ret	begin(self.elems)	true
== details::weight_impl::less | details::weight_impl<std::vector<u32>, false, void> | (const std::vector<u32> &, const std::vector<u32> &) |  | bool
-- file: include/pdaaal/Weight.h
-- same: 97
== details::weight_impl::add | details::weight_impl<std::vector<u32>, false, void> | (const std::vector<u32> &, const std::vector<u32> &) |  | std::vector<u32>
-- file: include/pdaaal/Weight.h
-- id: 108
let	$1	call(`std::minmax`, param(#0), param(#1), fun(lt(size(lp(#0, #0)), size(lp(#0, #1))), []))
do	foreach($1.#0)	set(L(#0)[ix($1.#0, #0)], call(`pdaaal::details::weight_impl::add`, $1.#0@0, $1.#1[ix($1.#0, #0)]))	true
dom		init(L(#0), $1.#1)	true
ret	L(#0)'	true
== fut::vector_map::end | fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>> | () |  | __gnu_cxx::__normal_iterator<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- id: 109
ret	end(self.elems)	true
== details::weight_impl::less | details::weight_impl<std::vector<u32>, true, void> | (const std::vector<u32> &, const std::vector<u32> &) |  | bool
-- file: include/pdaaal/Weight.h
-- id: 110
let	$1	phi(#0, begin(param(#0)), #0)^
let	$2	phi(#0, begin(param(#1)), #0)^
ret	exists(loop(#0), {!phi(#0, empty(param(#0)), #0) & !phi(#0, empty(param(#1)), #0) & call(`pdaaal::details::weight_impl::less`, $1, $2) | !phi(#0, empty(param(#0)), #0) & call(`pdaaal::details::weight_impl::less`, $1, 0) & phi(#0, empty(param(#1)), #0) | !phi(#0, empty(param(#1)), #0) & call(`pdaaal::details::weight_impl::less`, 0, $2) & phi(#0, empty(param(#0)), #0)})	true
== details::weight_impl::add | details::weight_impl<std::vector<u32>, true, void> | (const std::vector<u32> &, const std::vector<u32> &) |  | std::vector<u32>
-- file: include/pdaaal/Weight.h
-- same: 108
== fut::vector_map::begin | fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 107
== details::weight_impl::less | details::weight_impl<std::vector<int>, false, void> | (const std::vector<int> &, const std::vector<int> &) |  | bool
-- file: include/pdaaal/Weight.h
-- same: 110
== fut::vector_map::end | fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 109
== details::weight_impl::add | details::weight_impl<std::vector<int>, false, void> | (const std::vector<int> &, const std::vector<int> &) |  | std::vector<int>
-- file: include/pdaaal/Weight.h
-- same: 108
== fut::vector_map::cbegin | fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- id: 111
ret	begin(self.elems)	true
== details::weight_impl::less | details::weight_impl<std::vector<int>, true, void> | (const std::vector<int> &, const std::vector<int> &) |  | bool
-- file: include/pdaaal/Weight.h
-- same: 110
== details::weight_impl::add | details::weight_impl<std::vector<int>, true, void> | (const std::vector<int> &, const std::vector<int> &) |  | std::vector<int>
-- file: include/pdaaal/Weight.h
-- same: 108
== fut::vector_map::cend | fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- id: 112
ret	end(self.elems)	true
== linear_weight_function::linear_weight_function | linear_weight_function<u32, int> | (std::function<u32 (int)>) |  | void
-- file: include/pdaaal/Weight.h
-- id: 113
do		set(self._functions, new(`std::vector`))	true
do		set(self._function, some(param(#0)))	true
== linear_weight_function::linear_weight_function | linear_weight_function<u32, int> | (std::vector<std::pair<u32, linear_weight_function<u32, int>>>) |  | void
-- file: include/pdaaal/Weight.h
-- id: 114
do		set(self._functions, param(#0))	true
do		set(self._function, nullopt)	true
== linear_weight_function::operator() | linear_weight_function<u32, int> | (int) const |  | u32
-- file: include/pdaaal/Weight.h
-- id: 115
let	$1	val(self._function)
let	$2	has(self._function)
let	$3	self._functions
do		invoke($1, param(#0))	$2
ret	res_invoke($1, param(#0))	$2
ret	fold($3, 0, lin(#0, phi(#0, 0, #0), times($3@0.#0, call(`pdaaal::linear_weight_function::operator()`, $3@0.#1, param(#0)))), none, false)	!$2
== fut::vector_map::size | fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>> | () const |  | u64
-- file: include/pdaaal/utils/vector_set.h
-- id: 116
ret	size(self.elems)	true
== fut::vector_map::empty | fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>> | () const |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- id: 117
ret	empty(self.elems)	true
== linear_weight_function::linear_weight_function | linear_weight_function<double, int> | (std::function<double (int)>) |  | void
-- file: include/pdaaal/Weight.h
-- same: 113
== linear_weight_function::linear_weight_function | linear_weight_function<double, int> | (std::vector<std::pair<double, linear_weight_function<double, int>>>) |  | void
-- file: include/pdaaal/Weight.h
-- same: 114
== linear_weight_function::operator() | linear_weight_function<double, int> | (int) const |  | double
-- file: include/pdaaal/Weight.h
-- same: 115
== fut::vector_map::find | fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>> | (const u32 &) |  | __gnu_cxx::__normal_iterator<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- id: 118
let	$1	end(self.elems)
let	$2	call(`std::lower_bound`, begin(self.elems), $1, param(#0))
let	$3	eq(param(#0), $2^.#0)
ret	$1	!$3 | eq($1, $2)
ret	$2	!eq($1, $2) & $3
== ordered_weight_function::ordered_weight_function | ordered_weight_function<u32, int> | (std::vector<linear_weight_function<u32, int>>) |  | void
-- file: include/pdaaal/Weight.h
-- id: 119
do		set(self._functions, param(#0))	true
== ordered_weight_function::operator() | ordered_weight_function<u32, int> | (int) const |  | std::vector<u32>
-- file: include/pdaaal/Weight.h
-- id: 120
let	$1	self._functions
do	foreach($1)	do(`push`, L(#0), call(`pdaaal::linear_weight_function::operator()`, $1@0, param(#0)))	true
dom		init(L(#0), new(`std::vector`))	true
ret	L(#0)'	true
== fut::vector_map::find | fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>> | (const u32 &) const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 118
== fut::vector_map::elem_t::elem_t | fut::vector_map<u32, int>::elem_t | (const u32 &, int &&) | <int> | void
-- file: include/pdaaal/utils/vector_set.h
-- id: 121
do		set(self.#0, param(#0))	true
do		set(self.#1, param(#1))	true
== fut::vector_map::elem_t::elem_t | fut::vector_map<u32, int>::elem_t | (u32 &&, int &&) | <int> | void
-- file: include/pdaaal/utils/vector_set.h
-- same: 121
== fut::vector_map::elem_t::elem_t | fut::vector_map<u32, int>::elem_t | (const std::pair<u32, int> &) |  | void
-- file: include/pdaaal/utils/vector_set.h
-- id: 122
do		set(self.#0, param(#0).#0)	true
do		set(self.#1, param(#0).#1)	true
== fut::vector_map::elem_t::elem_t | fut::vector_map<u32, int>::elem_t | (std::pair<u32, int> &&) |  | void
-- file: include/pdaaal/utils/vector_set.h
-- same: 122
== fut::operator< |  | (const fut::vector_map<u32, int>::elem_t &, const fut::vector_map<u32, int>::elem_t &) |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- id: 123
ret	lt(param(#0).#0, param(#1).#0)	true
== fut::vector_map::clear | fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>> | () |  | void
-- file: include/pdaaal/utils/vector_set.h
-- id: 124
do		do(`clear`, self.elems)	true
== fut::operator< |  | (const fut::vector_map<u32, int>::elem_t &, const u32 &) |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- same: 90
== fut::operator== |  | (const fut::vector_map<u32, int>::elem_t &, const u32 &) |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- same: 94
== fut::operator!= |  | (const fut::vector_map<u32, int>::elem_t &, const u32 &) |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- same: 96
== fut::vector_map::vector_map | fut::vector_map<u32, int> | (const std::unordered_map<u32, int, std::hash<u32>, std::equal_to<u32>> &) | std::hash<u32>, std::equal_to<u32> | void
-- file: include/pdaaal/utils/vector_set.h
-- id: 125
do		do(`std::sort`, self.elems)	true
do		set(self.elems, copyof(param(#0)))	true
== fut::vector_map::vector_map | fut::vector_map<u32, int> | (const std::unordered_map<u32, int, absl::hash_internal::Hash<u32>, std::equal_to<u32>> &) | absl::hash_internal::Hash<u32>, std::equal_to<u32> | void
-- file: include/pdaaal/utils/vector_set.h
-- same: 125
== fut::vector_map::vector_map | fut::vector_map<u32, int> | (std::unordered_map<u32, int, std::hash<u32>, std::equal_to<u32>> &&) | std::hash<u32>, std::equal_to<u32> | void
-- file: include/pdaaal/utils/vector_set.h
-- id: 126
do		do(`std::sort`, self.elems)	true
do		set(self.elems, ctor(`std::vector`, call(`std::make_move_iterator`, begin(param(#0))), call(`std::make_move_iterator`, end(param(#0)))))	true
== fut::vector_map::vector_map | fut::vector_map<u32, int> | (std::unordered_map<u32, int, absl::hash_internal::Hash<u32>, std::equal_to<u32>> &&) | absl::hash_internal::Hash<u32>, std::equal_to<u32> | void
-- file: include/pdaaal/utils/vector_set.h
-- same: 126
== fut::vector_map::begin | fut::vector_map<u32, int> | () |  | __gnu_cxx::__normal_iterator<fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 107
== fut::vector_map::end | fut::vector_map<u32, int> | () |  | __gnu_cxx::__normal_iterator<fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 109
== fut::vector_map::begin | fut::vector_map<u32, int> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 107
== fut::vector_map::end | fut::vector_map<u32, int> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 109
== fut::vector_map::cbegin | fut::vector_map<u32, int> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 111
== fut::vector_map::cend | fut::vector_map<u32, int> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 112
== fut::vector_map::size | fut::vector_map<u32, int> | () const |  | u64
-- file: include/pdaaal/utils/vector_set.h
-- same: 116
== fut::vector_map::empty | fut::vector_map<u32, int> | () const |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- same: 117
== fut::vector_map::emplace | fut::vector_map<u32, int> | (const u32 &, int &&) | <int> | std::pair<__gnu_cxx::__normal_iterator<fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>, bool>
-- file: include/pdaaal/utils/vector_set.h
-- id: 127
let	$1	end(self.elems)
let	$2	call(`std::lower_bound`, begin(self.elems), $1, param(#0))
let	$3	pdaaal::fut::vector_map::elem_t{#0: param(#0), #1: param(#1)}
let	$4	eq(param(#0), $2^.#0)
do		do(`insert_at`, self.elems, $2, $3)	!$4 | eq($1, $2)
ret	tuple{#0: res(`std::vector::insert`, self.elems, $2, $3), #1: true}	!$4 | eq($1, $2)
ret	tuple{#0: $2, #1: false}	!eq($1, $2) & $4
== fut::vector_map::emplace | fut::vector_map<u32, int> | (u32 &&, int &&) | <int> | std::pair<__gnu_cxx::__normal_iterator<fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>, bool>
-- file: include/pdaaal/utils/vector_set.h
-- same: 127
== fut::vector_map::try_emplace | fut::vector_map<u32, int> | (const u32 &, int &&) | <int> | std::pair<__gnu_cxx::__normal_iterator<fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>, bool>
-- file: include/pdaaal/utils/vector_set.h
-- id: 128
let	$1	end(self.elems)
let	$2	call(`std::lower_bound`, begin(self.elems), $1, param(#0))
let	$3	pdaaal::fut::vector_map::elem_t{#0: param(#0), #1: param(#1)}
let	$4	eq(param(#0), $2^.#0)
do		do(`insert_at`, self.elems, $2, $3)	!$4 | eq($1, $2)
ret	tuple{#0: res(`std::vector::insert`, self.elems, $2, $3), #1: true}	!$4 | eq($1, $2)
ret	tuple{#0: $2, #1: false}	!eq($1, $2) & $4
== fut::vector_map::try_emplace | fut::vector_map<u32, int> | (u32 &&, int &&) | <int> | std::pair<__gnu_cxx::__normal_iterator<fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>, bool>
-- file: include/pdaaal/utils/vector_set.h
-- same: 128
== fut::vector_map::insert_or_assign | fut::vector_map<u32, int> | (const u32 &, int &&) | int | std::pair<__gnu_cxx::__normal_iterator<fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>, bool>
-- file: include/pdaaal/utils/vector_set.h
-- id: 129
let	$1	end(self.elems)
let	$2	call(`std::lower_bound`, begin(self.elems), $1, param(#0))
let	$3	pdaaal::fut::vector_map::elem_t{#0: param(#0), #1: param(#1)}
let	$4	eq(param(#0), $2^.#0)
do		do(`insert_at`, self.elems, $2, $3)	!$4 | eq($1, $2)
do		set($2^.#1, param(#1))	!eq($1, $2) & $4
ret	tuple{#0: res(`std::vector::insert`, self.elems, $2, $3), #1: true}	!$4 | eq($1, $2)
ret	tuple{#0: $2, #1: false}	!eq($1, $2) & $4
== fut::vector_map::insert_or_assign | fut::vector_map<u32, int> | (u32 &&, int &&) | int | std::pair<__gnu_cxx::__normal_iterator<fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>, bool>
-- file: include/pdaaal/utils/vector_set.h
-- same: 129
== fut::vector_map::contains | fut::vector_map<u32, int> | (const u32 &) const |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- id: 130
let	$1	end(self.elems)
let	$2	call(`std::lower_bound`, begin(self.elems), $1, param(#0))
ret	{!eq($1, $2) & eq(param(#0), $2^.#0)}	true
== fut::vector_map::find | fut::vector_map<u32, int> | (const u32 &) |  | __gnu_cxx::__normal_iterator<fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 118
== fut::vector_map::find | fut::vector_map<u32, int> | (const u32 &) const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 118
== fut::vector_map::operator[] | fut::vector_map<u32, int> | (u64) |  | fut::vector_map<u32, int>::elem_t &
-- file: include/pdaaal/utils/vector_set.h
-- id: 131
ret	self.elems[param(#0)]	true
== fut::vector_map::operator[] | fut::vector_map<u32, int> | (u64) const |  | const fut::vector_map<u32, int>::elem_t &
-- file: include/pdaaal/utils/vector_set.h
-- same: 131
== fut::vector_map::resize | fut::vector_map<u32, int> | (u64) |  | void
-- file: include/pdaaal/utils/vector_set.h
-- id: 132
do		do(`resize`, self.elems, param(#0))	true
== fut::vector_map::clear | fut::vector_map<u32, int> | () |  | void
-- file: include/pdaaal/utils/vector_set.h
-- same: 124
== fut::vector_map::lower_bound | fut::vector_map<u32, int> | (const u32 &) const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- id: 133
ret	call(`std::lower_bound`, begin(self.elems), end(self.elems), param(#0))	true
== fut::vector_set::vector_set | fut::vector_set<u32> | (const std::unordered_set<u32, std::hash<u32>, std::equal_to<u32>> &) | std::hash<u32>, std::equal_to<u32> | void
-- file: include/pdaaal/utils/vector_set.h
-- id: 134
do		do(`std::sort`, self.elems)	true
do		set(self.elems, copyof(param(#0)))	true
== fut::vector_set::vector_set | fut::vector_set<u32> | (std::unordered_set<u32, std::hash<u32>, std::equal_to<u32>> &&) | std::hash<u32>, std::equal_to<u32> | void
-- file: include/pdaaal/utils/vector_set.h
-- id: 135
do		do(`std::sort`, self.elems)	true
do		set(self.elems, ctor(`std::vector`, call(`std::make_move_iterator`, begin(param(#0))), call(`std::make_move_iterator`, end(param(#0)))))	true
== fut::vector_set::begin | fut::vector_set<u32> | () |  | __gnu_cxx::__normal_iterator<u32 *, std::vector<u32>>
-- file: include/pdaaal/utils/vector_set.h
-- id: 136
ret	begin(self.elems)	true
== fut::vector_set::end | fut::vector_set<u32> | () |  | __gnu_cxx::__normal_iterator<u32 *, std::vector<u32>>
-- file: include/pdaaal/utils/vector_set.h
-- id: 137
ret	end(self.elems)	true
== fut::vector_set::begin | fut::vector_set<u32> | () const |  | __gnu_cxx::__normal_iterator<const u32 *, std::vector<u32>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 136
== fut::vector_set::end | fut::vector_set<u32> | () const |  | __gnu_cxx::__normal_iterator<const u32 *, std::vector<u32>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 137
== fut::vector_set::cbegin | fut::vector_set<u32> | () const |  | __gnu_cxx::__normal_iterator<const u32 *, std::vector<u32>>
-- file: include/pdaaal/utils/vector_set.h
-- id: 138
ret	begin(self.elems)	true
== fut::vector_set::cend | fut::vector_set<u32> | () const |  | __gnu_cxx::__normal_iterator<const u32 *, std::vector<u32>>
-- file: include/pdaaal/utils/vector_set.h
-- id: 139
ret	end(self.elems)	true
== fut::vector_set::size | fut::vector_set<u32> | () const |  | u64
-- file: include/pdaaal/utils/vector_set.h
-- id: 140
ret	size(self.elems)	true
== fut::vector_set::empty | fut::vector_set<u32> | () const |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- id: 141
ret	empty(self.elems)	true
== fut::vector_set::emplace | fut::vector_set<u32> | (u32 &) | <u32 &> | std::pair<__gnu_cxx::__normal_iterator<u32 *, std::vector<u32>>, bool>
-- file: include/pdaaal/utils/vector_set.h
-- id: 142
let	$1	end(self.elems)
let	$2	call(`std::lower_bound`, begin(self.elems), $1, param(#0))
let	$3	eq($2^, param(#0))
do		do(`insert_at`, self.elems, $2, param(#0))	!$3 | eq($1, $2)
ret	tuple{#0: res(`std::vector::insert`, self.elems, $2, param(#0)), #1: true}	!$3 | eq($1, $2)
ret	tuple{#0: $2, #1: false}	!eq($1, $2) & $3
== fut::vector_set::emplace | fut::vector_set<u32> | (u32 &&) | <u32> | std::pair<__gnu_cxx::__normal_iterator<u32 *, std::vector<u32>>, bool>
-- file: include/pdaaal/utils/vector_set.h
-- same: 142
== fut::vector_set::contains | fut::vector_set<u32> | (const u32 &) const |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- id: 143
let	$1	end(self.elems)
let	$2	call(`std::lower_bound`, begin(self.elems), $1, param(#0))
ret	{!eq($1, $2) & eq($2^, param(#0))}	true
== fut::vector_set::find | fut::vector_set<u32> | (const u32 &) |  | __gnu_cxx::__normal_iterator<u32 *, std::vector<u32>>
-- file: include/pdaaal/utils/vector_set.h
-- id: 144
let	$1	end(self.elems)
let	$2	call(`std::lower_bound`, begin(self.elems), $1, param(#0))
let	$3	eq($2^, param(#0))
ret	$1	!$3 | eq($1, $2)
ret	$2	!eq($1, $2) & $3
== fut::vector_set::find | fut::vector_set<u32> | (const u32 &) const |  | __gnu_cxx::__normal_iterator<const u32 *, std::vector<u32>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 144
== fut::vector_set::operator[] | fut::vector_set<u32> | (u64) |  | u32 &
-- file: include/pdaaal/utils/vector_set.h
-- id: 145
ret	self.elems[param(#0)]	true
== fut::vector_set::operator[] | fut::vector_set<u32> | (u64) const |  | const u32 &
-- file: include/pdaaal/utils/vector_set.h
-- same: 145
== fut::vector_set::resize | fut::vector_set<u32> | (u64) |  | void
-- file: include/pdaaal/utils/vector_set.h
-- id: 146
do		do(`resize`, self.elems, param(#0))	true
== fut::vector_set::clear | fut::vector_set<u32> | () |  | void
-- file: include/pdaaal/utils/vector_set.h
-- id: 147
do		do(`clear`, self.elems)	true
== fut::vector_set::lower_bound | fut::vector_set<u32> | (const u32 &) const |  | __gnu_cxx::__normal_iterator<const u32 *, std::vector<u32>>
-- file: include/pdaaal/utils/vector_set.h
-- id: 148
ret	call(`std::lower_bound`, begin(self.elems), end(self.elems), param(#0))	true
== fut::vector_map::elem_t::elem_t | fut::vector_map<u64, std::string>::elem_t | (const std::pair<u64, std::string> &) |  | void
-- file: include/pdaaal/utils/vector_set.h
-- same: 122
== fut::vector_map::elem_t::elem_t | fut::vector_map<u64, std::string>::elem_t | (std::pair<u64, std::string> &&) |  | void
-- file: include/pdaaal/utils/vector_set.h
-- same: 122
== fut::operator< |  | (const fut::vector_map<u64, std::string>::elem_t &, const u64 &) |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- same: 90
== fut::operator== |  | (const fut::vector_map<u64, std::string>::elem_t &, const u64 &) |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- same: 94
== fut::operator!= |  | (const fut::vector_map<u64, std::string>::elem_t &, const u64 &) |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- same: 96
== fut::vector_map::begin | fut::vector_map<u64, std::string> | () |  | __gnu_cxx::__normal_iterator<fut::vector_map<u64, std::string>::elem_t *, std::vector<fut::vector_map<u64, std::string>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 107
== fut::vector_map::end | fut::vector_map<u64, std::string> | () |  | __gnu_cxx::__normal_iterator<fut::vector_map<u64, std::string>::elem_t *, std::vector<fut::vector_map<u64, std::string>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 109
== fut::vector_map::begin | fut::vector_map<u64, std::string> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u64, std::string>::elem_t *, std::vector<fut::vector_map<u64, std::string>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 107
== fut::vector_map::end | fut::vector_map<u64, std::string> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u64, std::string>::elem_t *, std::vector<fut::vector_map<u64, std::string>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 109
== fut::vector_map::cbegin | fut::vector_map<u64, std::string> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u64, std::string>::elem_t *, std::vector<fut::vector_map<u64, std::string>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 111
== fut::vector_map::cend | fut::vector_map<u64, std::string> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u64, std::string>::elem_t *, std::vector<fut::vector_map<u64, std::string>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 112
== fut::vector_map::size | fut::vector_map<u64, std::string> | () const |  | u64
-- file: include/pdaaal/utils/vector_set.h
-- same: 116
== fut::vector_map::empty | fut::vector_map<u64, std::string> | () const |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- same: 117
== fut::vector_map::contains | fut::vector_map<u64, std::string> | (const u64 &) const |  | bool
-- file: include/pdaaal/utils/vector_set.h
-- same: 130
== fut::vector_map::find | fut::vector_map<u64, std::string> | (const u64 &) |  | __gnu_cxx::__normal_iterator<fut::vector_map<u64, std::string>::elem_t *, std::vector<fut::vector_map<u64, std::string>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 118
== fut::vector_map::find | fut::vector_map<u64, std::string> | (const u64 &) const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u64, std::string>::elem_t *, std::vector<fut::vector_map<u64, std::string>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 118
== fut::vector_map::operator[] | fut::vector_map<u64, std::string> | (u64) |  | fut::vector_map<u64, std::string>::elem_t &
-- file: include/pdaaal/utils/vector_set.h
-- same: 131
== fut::vector_map::operator[] | fut::vector_map<u64, std::string> | (u64) const |  | const fut::vector_map<u64, std::string>::elem_t &
-- file: include/pdaaal/utils/vector_set.h
-- same: 131
== fut::vector_map::resize | fut::vector_map<u64, std::string> | (u64) |  | void
-- file: include/pdaaal/utils/vector_set.h
-- same: 132
== fut::vector_map::clear | fut::vector_map<u64, std::string> | () |  | void
-- file: include/pdaaal/utils/vector_set.h
-- same: 124
== fut::vector_map::lower_bound | fut::vector_map<u64, std::string> | (const u64 &) const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u64, std::string>::elem_t *, std::vector<fut::vector_map<u64, std::string>::elem_t>>
-- file: include/pdaaal/utils/vector_set.h
-- same: 133
== fut::detail::fut_set::fut_set | fut::detail::fut_set<std::tuple<u32, int>, fut::vector> | (const fut::detail::fut_set<std::tuple<u32, int>, fut::hash> &) | fut::hash | void
-- file: include/pdaaal/utils/fut_set.h
-- id: 149
do		do(`std::sort`, self.elems)	true
do		set(self.elems, copyof(param(#0)))	true
== fut::detail::fut_set::fut_set | fut::detail::fut_set<std::tuple<u32, int>, fut::vector> | (fut::detail::fut_set<std::tuple<u32, int>, fut::hash> &&) | fut::hash | void
-- file: include/pdaaal/utils/fut_set.h
-- id: 150
do		do(`std::sort`, self.elems)	true
do		set(self.elems, ctor(`std::vector`, call(`std::make_move_iterator`, begin(param(#0))), call(`std::make_move_iterator`, end(param(#0)))))	true
== fut::detail::fut_set::get | fut::detail::fut_set<std::tuple<u32, int>, fut::vector> | (const u32 &) const |  | const int *
-- file: include/pdaaal/utils/fut_set.h
-- id: 151
let	$1	end(self.elems)
let	$2	call(`std::lower_bound`, begin(self.elems), $1, param(#0))
let	$3	eq(param(#0), $2^.#0)
ret	0	!$3 | eq($1, $2)
ret	addr($2^.#1)	!eq($1, $2) & $3
== fut::detail::fut_set::get | fut::detail::fut_set<std::tuple<u32, int>, fut::vector> | (const u32 &) |  | int *
-- file: include/pdaaal/utils/fut_set.h
-- same: 151
== fut::detail::fut_set::begin | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | () |  | std::__detail::_Node_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32, int>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- id: 152
ret	begin(self.elems)	true
== fut::detail::fut_set::end | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | () |  | std::__detail::_Node_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32, int>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- id: 153
ret	end(self.elems)	true
== fut::detail::fut_set::begin | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | () const |  | std::__detail::_Node_const_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32, int>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- same: 152
== fut::detail::fut_set::end | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | () const |  | std::__detail::_Node_const_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32, int>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- same: 153
== fut::detail::fut_set::cbegin | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | () const |  | std::__detail::_Node_const_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32, int>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- id: 154
ret	begin(self.elems)	true
== fut::detail::fut_set::cend | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | () const |  | std::__detail::_Node_const_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32, int>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- id: 155
ret	end(self.elems)	true
== fut::detail::fut_set::size | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | () const |  | u64
-- file: include/pdaaal/utils/fut_set.h
-- id: 156
ret	size(self.elems)	true
== fut::detail::fut_set::empty | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | () const |  | bool
-- file: include/pdaaal/utils/fut_set.h
-- id: 157
ret	empty(self.elems)	true
== fut::detail::fut_set::clear | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | () |  | void
-- file: include/pdaaal/utils/fut_set.h
-- id: 158
do		do(`clear`, self.elems)	true
== fut::detail::fut_set::emplace | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | (const u32 &, u32 &, int &&) | <u32 &, int> | std::pair<__gnu_cxx::__normal_iterator<fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>, bool>
-- file: include/pdaaal/utils/fut_set.h
-- id: 159
let	$1	self.elems[param(#0)].elems
let	$2	call(`std::lower_bound`, begin($1), end($1), param(#1))
let	$3	pdaaal::fut::vector_map::elem_t{#0: param(#1), #1: param(#2)}
let	$4	eq(param(#1), $2^.#0)
let	$5	eq(end($1), $2)
do		do(`insert`, self.elems, param(#0))	true
do		do(`insert_at`, $1, $2, $3)	!$4 | $5
ret	tuple{#0: res(`std::vector::insert`, $1, $2, $3), #1: true}	!$4 | $5
ret	tuple{#0: $2, #1: false}	!$5 & $4
== fut::detail::fut_set::emplace | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | (u32 &&, u32 &, int &&) | <u32 &, int> | std::pair<__gnu_cxx::__normal_iterator<fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>, bool>
-- file: include/pdaaal/utils/fut_set.h
-- same: 159
== fut::detail::fut_set::insert_or_assign | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | (const u32 &, u32 &, int &&) | <u32 &, int> | std::pair<__gnu_cxx::__normal_iterator<fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>, bool>
-- file: include/pdaaal/utils/fut_set.h
-- id: 160
let	$1	self.elems[param(#0)].elems
let	$2	call(`std::lower_bound`, begin($1), end($1), param(#1))
let	$3	pdaaal::fut::vector_map::elem_t{#0: param(#1), #1: param(#2)}
let	$4	eq(param(#1), $2^.#0)
let	$5	eq(end($1), $2)
do		do(`insert`, self.elems, param(#0))	true
do		do(`insert_at`, $1, $2, $3)	!$4 | $5
do		set($2^.#1, param(#2))	!$5 & $4
ret	tuple{#0: res(`std::vector::insert`, $1, $2, $3), #1: true}	!$4 | $5
ret	tuple{#0: $2, #1: false}	!$5 & $4
== fut::detail::fut_set::insert_or_assign | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | (u32 &&, u32 &, int &&) | <u32 &, int> | std::pair<__gnu_cxx::__normal_iterator<fut::vector_map<u32, int>::elem_t *, std::vector<fut::vector_map<u32, int>::elem_t>>, bool>
-- file: include/pdaaal/utils/fut_set.h
-- same: 160
== weight::print | Wi | (std::basic_ostream<char, std::char_traits<char>> &, const int &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/Weight.h
-- same: 89
== fut::detail::fut_set::contains | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | (const u32 &, const u32 &) const | <u32> | bool
-- file: include/pdaaal/utils/fut_set.h
-- id: 161
let	$1	self.elems[param(#0)].elems
let	$2	call(`std::lower_bound`, begin($1), end($1), param(#1))
ret	{!eq(end($1), $2) & contains(self.elems, param(#0)) & eq(param(#1), $2^.#0)}	true
== fut::detail::fut_set::get | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | (const u32 &, const u32 &) const | <u32> | const int *
-- file: include/pdaaal/utils/fut_set.h
-- id: 162
let	$1	self.elems[param(#0)].elems
let	$2	call(`std::lower_bound`, begin($1), end($1), param(#1))
let	$3	eq(param(#1), $2^.#0)
let	$4	contains(self.elems, param(#0))
let	$5	eq(end($1), $2)
ret	0	!$3 | !$4 | $5
ret	addr($2^.#1)	!$5 & $3 & $4
== fut::detail::fut_set::get | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | (const u32 &, const u32 &) | <u32> | int *
-- file: include/pdaaal/utils/fut_set.h
-- same: 162
== fut::detail::fut_set::find | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | (const u32 &) const |  | std::__detail::_Node_const_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32, int>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- id: 163
ret	mfind(self.elems, param(#0))	true
== fut::detail::fut_set::find | fut::detail::fut_set<std::tuple<u32, u32, int>, fut::hash, fut::vector> | (const u32 &) |  | std::__detail::_Node_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32, int>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- same: 163
== fut::detail::fut_set::begin | fut::detail::fut_set<std::tuple<u32, u32>, fut::hash, fut::vector> | () |  | std::__detail::_Node_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- same: 152
== fut::detail::fut_set::end | fut::detail::fut_set<std::tuple<u32, u32>, fut::hash, fut::vector> | () |  | std::__detail::_Node_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- same: 153
== fut::detail::fut_set::begin | fut::detail::fut_set<std::tuple<u32, u32>, fut::hash, fut::vector> | () const |  | std::__detail::_Node_const_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- same: 152
== fut::detail::fut_set::end | fut::detail::fut_set<std::tuple<u32, u32>, fut::hash, fut::vector> | () const |  | std::__detail::_Node_const_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- same: 153
== fut::detail::fut_set::cbegin | fut::detail::fut_set<std::tuple<u32, u32>, fut::hash, fut::vector> | () const |  | std::__detail::_Node_const_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- same: 154
== fut::detail::fut_set::cend | fut::detail::fut_set<std::tuple<u32, u32>, fut::hash, fut::vector> | () const |  | std::__detail::_Node_const_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- same: 155
== fut::detail::fut_set::size | fut::detail::fut_set<std::tuple<u32, u32>, fut::hash, fut::vector> | () const |  | u64
-- file: include/pdaaal/utils/fut_set.h
-- same: 156
== fut::detail::fut_set::empty | fut::detail::fut_set<std::tuple<u32, u32>, fut::hash, fut::vector> | () const |  | bool
-- file: include/pdaaal/utils/fut_set.h
-- same: 157
== fut::detail::fut_set::clear | fut::detail::fut_set<std::tuple<u32, u32>, fut::hash, fut::vector> | () |  | void
-- file: include/pdaaal/utils/fut_set.h
-- same: 158
== fut::detail::fut_set::find | fut::detail::fut_set<std::tuple<u32, u32>, fut::hash, fut::vector> | (const u32 &) const |  | std::__detail::_Node_const_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- same: 163
== fut::detail::fut_set::find | fut::detail::fut_set<std::tuple<u32, u32>, fut::hash, fut::vector> | (const u32 &) |  | std::__detail::_Node_iterator<std::pair<const u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>, false, true>
-- file: include/pdaaal/utils/fut_set.h
-- same: 163
== fut::detail::fut_set::begin | fut::detail::fut_set<std::tuple<u32, u32>, fut::vector, fut::vector> | () |  | __gnu_cxx::__normal_iterator<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/fut_set.h
-- id: 164
ret	begin(self.elems.elems)	true
== fut::detail::fut_set::end | fut::detail::fut_set<std::tuple<u32, u32>, fut::vector, fut::vector> | () |  | __gnu_cxx::__normal_iterator<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/fut_set.h
-- id: 165
ret	end(self.elems.elems)	true
== fut::detail::fut_set::begin | fut::detail::fut_set<std::tuple<u32, u32>, fut::vector, fut::vector> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/fut_set.h
-- same: 164
== fut::detail::fut_set::end | fut::detail::fut_set<std::tuple<u32, u32>, fut::vector, fut::vector> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/fut_set.h
-- same: 165
== fut::detail::fut_set::cbegin | fut::detail::fut_set<std::tuple<u32, u32>, fut::vector, fut::vector> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/fut_set.h
-- id: 166
ret	begin(self.elems.elems)	true
== fut::detail::fut_set::cend | fut::detail::fut_set<std::tuple<u32, u32>, fut::vector, fut::vector> | () const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/fut_set.h
-- id: 167
ret	end(self.elems.elems)	true
== fut::detail::fut_set::size | fut::detail::fut_set<std::tuple<u32, u32>, fut::vector, fut::vector> | () const |  | u64
-- file: include/pdaaal/utils/fut_set.h
-- id: 168
ret	size(self.elems.elems)	true
== fut::detail::fut_set::empty | fut::detail::fut_set<std::tuple<u32, u32>, fut::vector, fut::vector> | () const |  | bool
-- file: include/pdaaal/utils/fut_set.h
-- id: 169
ret	empty(self.elems.elems)	true
== fut::detail::fut_set::clear | fut::detail::fut_set<std::tuple<u32, u32>, fut::vector, fut::vector> | () |  | void
-- file: include/pdaaal/utils/fut_set.h
-- id: 170
do		do(`clear`, self.elems.elems)	true
== fut::detail::fut_set::find | fut::detail::fut_set<std::tuple<u32, u32>, fut::vector, fut::vector> | (const u32 &) const |  | __gnu_cxx::__normal_iterator<const fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/fut_set.h
-- id: 171
let	$1	self.elems.elems
let	$2	call(`std::lower_bound`, begin($1), end($1), param(#0))
let	$3	eq(param(#0), $2^.#0)
let	$4	eq(end($1), $2)
ret	end($1)	!$3 | $4
ret	$2	!$4 & $3
== fut::detail::fut_set::find | fut::detail::fut_set<std::tuple<u32, u32>, fut::vector, fut::vector> | (const u32 &) |  | __gnu_cxx::__normal_iterator<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t *, std::vector<fut::vector_map<u32, fut::detail::fut_set<std::tuple<u32>, fut::vector>>::elem_t>>
-- file: include/pdaaal/utils/fut_set.h
-- same: 171
== priority_set::emplace | priority_set<u32, u64, std::less<u32>> | (const u32 &, u64) | <u64> | void
-- file: include/pdaaal/utils/more_algorithms.h
-- id: 172
do		do(`push`, self._queue, tuple{#0: param(#0), #1: param(#1)})	true
== priority_set::emplace | priority_set<u32, u64, std::less<u32>> | (u32 &&, u64) | <u64> | void
-- file: include/pdaaal/utils/more_algorithms.h
-- same: 172
== priority_set::pop | priority_set<u32, u64, std::less<u32>> | () |  | void
-- file: include/pdaaal/utils/more_algorithms.h
-- id: 173
let	$1	top(self._queue).#1
let	$2	do(`pop`, self._queue)
let	$3	contains(self._seen', $1')
let	$4	empty(self._queue')
do		do(`insert`, self._seen, $1)	true
do		$2	true
do	loop(#0)	$2	!$4 & $3
do	loop(#0)	exit	!$3 | $4
== priority_set::top | priority_set<u32, u64, std::less<u32>> | () const |  | std::pair<u32, u64>
-- file: include/pdaaal/utils/more_algorithms.h
-- id: 174
ret	top(self._queue)	true
== priority_set::empty | priority_set<u32, u64, std::less<u32>> | () const |  | bool
-- file: include/pdaaal/utils/more_algorithms.h
-- id: 175
ret	empty(self._queue)	true
== priority_set::back | priority_set<u32, u64, std::less<u32>> | () const |  | u64
-- file: include/pdaaal/utils/more_algorithms.h
-- id: 176
ret	top(self._queue).#1	true
== priority_set::pop_back | priority_set<u32, u64, std::less<u32>> | () |  | void
-- file: include/pdaaal/utils/more_algorithms.h
-- id: 177
do		do(`pdaaal::priority_set::pop`, self)	true
== priority_set::pop | priority_set<u32, u64, CompSwapArgs<u32, std::less<u32>>> | () |  | void
-- file: include/pdaaal/utils/more_algorithms.h
-- same: 173
== priority_set::top | priority_set<u32, u64, CompSwapArgs<u32, std::less<u32>>> | () const |  | std::pair<u32, u64>
-- file: include/pdaaal/utils/more_algorithms.h
-- same: 174
== priority_set::empty | priority_set<u32, u64, CompSwapArgs<u32, std::less<u32>>> | () const |  | bool
-- file: include/pdaaal/utils/more_algorithms.h
-- same: 175
== priority_set::back | priority_set<u32, u64, CompSwapArgs<u32, std::less<u32>>> | () const |  | u64
-- file: include/pdaaal/utils/more_algorithms.h
-- same: 176
== priority_set::pop_back | priority_set<u32, u64, CompSwapArgs<u32, std::less<u32>>> | () |  | void
-- file: include/pdaaal/utils/more_algorithms.h
-- same: 177
== use_containers |  | () |  | void
-- file: unit
-- id: 178
let	$1	new(`std::vector`)
let	$2	new(`std::unordered_map`)
let	$3	new(`std::unordered_set`)
let	$4	pdaaal::fut::detail::fut_set{elems: $2}
let	$5	pdaaal::fut::detail::fut_set{}
dom		do(`insert`, L(#7), 1, 2)	true
do		do(`insert`, L(#7), 3, 4)	true
dom		do(`insert_or_assign`, L(#7), 1, 2)	true
do		do(`std::sort`, L(#1))	true
do		do(`std::sort`, L(#6))	true
do		do(`insert`, L(#9), 1)	true
do		do(`insert`, L(#9), 2)	true
do		do(`std::sort`, L(#5))	true
do		do(`std::sort`, L(#4))	true
do		do(`insert`, L(#2), 1, 1, 3)	true
do		do(`insert`, L(#2), 2, 1, 3)	true
do		do(`insert_or_assign`, L(#2), 1, 1, 3)	true
do		do(`insert_or_assign`, L(#2), 2, 1, 3)	true
do		do(`insert`, L(#3), 1, 1)	true
do		do(`std::sort`, L(#10))	true
do		do(`std::sort`, L(#8))	true
dom		do(`pdaaal::priority_set::emplace`, L(#0), 1, 1)	true
dom		init(L(#7), pdaaal::fut::vector_map{elems: $1})	true
dom		init(L(#1), copyof($2))	true
dom		init(L(#6), ctor(`std::vector`, call(`std::make_move_iterator`, begin($2)), call(`std::make_move_iterator`, end($2))))	true
dom		init(L(#9), pdaaal::fut::vector_set{elems: $1})	true
dom		init(L(#5), copyof($3))	true
dom		init(L(#4), ctor(`std::vector`, call(`std::make_move_iterator`, begin($3)), call(`std::make_move_iterator`, end($3))))	true
dom		init(L(#2), $4)	true
dom		init(L(#3), $4)	true
dom		init(L(#10), copyof($5))	true
dom		init(L(#8), ctor(`std::vector`, call(`std::make_move_iterator`, begin($5)), call(`std::make_move_iterator`, end($5))))	true
dom		init(L(#0)._queue, new(`std::priority_queue`))	true
== verif::consts::zero | verif::consts<details::weight_impl<u32, false, void>> | () |  | u32
-- file: unit
-- id: 179
ret	0	true
== verif::consts::bottom | verif::consts<details::weight_impl<u32, false, void>> | () |  | u32
-- file: unit
-- id: 180
ret	0	true
== verif::consts::max | verif::consts<details::weight_impl<u32, false, void>> | () |  | u32
-- file: unit
-- id: 181
ret	4294967295	true
== verif::consts::print | verif::consts<details::weight_impl<u32, false, void>> | (std::basic_ostream<char, std::char_traits<char>> &, const u32 &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: unit
-- id: 182
do		do(`operator<<`, param(#0), param(#1))	true
ret	param(#0)	true
== verif::consts::zero | verif::consts<details::weight_impl<u32, true, void>> | () |  | u32
-- file: unit
-- same: 179
== verif::consts::bottom | verif::consts<details::weight_impl<u32, true, void>> | () |  | u32
-- file: unit
-- id: 183
ret	4294967294	true
== verif::consts::max | verif::consts<details::weight_impl<u32, true, void>> | () |  | u32
-- file: unit
-- same: 181
== verif::consts::print | verif::consts<details::weight_impl<u32, true, void>> | (std::basic_ostream<char, std::char_traits<char>> &, const u32 &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: unit
-- same: 182
== verif::consts::zero | verif::consts<details::weight_impl<int, false, void>> | () |  | int
-- file: unit
-- same: 179
== verif::consts::bottom | verif::consts<details::weight_impl<int, false, void>> | () |  | int
-- file: unit
-- id: 184
ret	-2147483648	true
== verif::consts::max | verif::consts<details::weight_impl<int, false, void>> | () |  | int
-- file: unit
-- id: 185
ret	2147483647	true
== verif::consts::print | verif::consts<details::weight_impl<int, false, void>> | (std::basic_ostream<char, std::char_traits<char>> &, const int &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: unit
-- same: 182
== verif::consts::zero | verif::consts<details::weight_impl<int, true, void>> | () |  | int
-- file: unit
-- same: 179
== verif::consts::bottom | verif::consts<details::weight_impl<int, true, void>> | () |  | int
-- file: unit
-- id: 186
ret	2147483647	true
== verif::consts::max | verif::consts<details::weight_impl<int, true, void>> | () |  | int
-- file: unit
-- id: 187
ret	-2147483648	true
== verif::consts::print | verif::consts<details::weight_impl<int, true, void>> | (std::basic_ostream<char, std::char_traits<char>> &, const int &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: unit
-- same: 182
== verif::consts::zero | verif::consts<details::weight_impl<std::array<u32, 3>, false, void>> | () |  | std::array<u32, 3>
-- file: unit
-- id: 188
do		do(`fill`, L(#0), 0)	true
dom		init(L(#0), list(new(`unsigned int[3]`)))	true
ret	L(#0)'	true
== verif::consts::bottom | verif::consts<details::weight_impl<std::array<u32, 3>, false, void>> | () |  | std::array<u32, 3>
-- file: unit
-- id: 189
do		do(`fill`, L(#0), 0)	true
dom		init(L(#0), list(new(`unsigned int[3]`)))	true
ret	L(#0)'	true
== verif::consts::max | verif::consts<details::weight_impl<std::array<u32, 3>, false, void>> | () |  | std::array<u32, 3>
-- file: unit
-- id: 190
do		do(`fill`, L(#0), 4294967295)	true
dom		init(L(#0), list(new(`unsigned int[3]`)))	true
ret	L(#0)'	true
== verif::consts::print | verif::consts<details::weight_impl<std::array<u32, 3>, false, void>> | (std::basic_ostream<char, std::char_traits<char>> &, const std::array<u32, 3> &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: unit
-- id: 191
let	$1	foreach(param(#1))
do		out(`<<`, param(#0), "[")	true
do	$1	out(`<<`, param(#0), ",")	!phi(#0, true, #0)
do	$1	do(`operator<<`, param(#0), param(#1)@0)	true
do		out(`<<`, param(#0), "]")	true
ret	param(#0)	true
== verif::consts::zero | verif::consts<details::weight_impl<std::array<int, 3>, true, void>> | () |  | std::array<int, 3>
-- file: unit
-- id: 192
do		do(`fill`, L(#0), 0)	true
dom		init(L(#0), list(new(`int[3]`)))	true
ret	L(#0)'	true
== verif::consts::bottom | verif::consts<details::weight_impl<std::array<int, 3>, true, void>> | () |  | std::array<int, 3>
-- file: unit
-- id: 193
do		do(`fill`, L(#0), 2147483647)	true
dom		init(L(#0), list(new(`int[3]`)))	true
ret	L(#0)'	true
== verif::consts::max | verif::consts<details::weight_impl<std::array<int, 3>, true, void>> | () |  | std::array<int, 3>
-- file: unit
-- id: 194
do		do(`fill`, L(#0), -2147483648)	true
dom		init(L(#0), list(new(`int[3]`)))	true
ret	L(#0)'	true
== verif::consts::print | verif::consts<details::weight_impl<std::array<int, 3>, true, void>> | (std::basic_ostream<char, std::char_traits<char>> &, const std::array<int, 3> &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: unit
-- same: 191
== verif::consts::zero | verif::consts<details::weight_impl<std::vector<u32>, false, void>> | () |  | std::vector<u32>
-- file: unit
-- id: 195
ret	new(`std::vector`)	true
== verif::consts::bottom | verif::consts<details::weight_impl<std::vector<u32>, false, void>> | () |  | std::vector<u32>
-- file: unit
-- id: 196
ret	list(0)	true
== verif::consts::max | verif::consts<details::weight_impl<std::vector<u32>, false, void>> | () |  | std::vector<u32>
-- file: unit
-- id: 197
ret	list(4294967295)	true
== verif::consts::print | verif::consts<details::weight_impl<std::vector<u32>, false, void>> | (std::basic_ostream<char, std::char_traits<char>> &, const std::vector<u32> &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: unit
-- same: 191
== verif::consts::zero | verif::consts<details::weight_impl<std::vector<u32>, true, void>> | () |  | std::vector<u32>
-- file: unit
-- same: 195
== verif::consts::bottom | verif::consts<details::weight_impl<std::vector<u32>, true, void>> | () |  | std::vector<u32>
-- file: unit
-- id: 198
ret	list(4294967294)	true
== verif::consts::max | verif::consts<details::weight_impl<std::vector<u32>, true, void>> | () |  | std::vector<u32>
-- file: unit
-- same: 197
== verif::consts::print | verif::consts<details::weight_impl<std::vector<u32>, true, void>> | (std::basic_ostream<char, std::char_traits<char>> &, const std::vector<u32> &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: unit
-- same: 191
== verif::consts::zero | verif::consts<details::weight_impl<std::vector<int>, false, void>> | () |  | std::vector<int>
-- file: unit
-- same: 195
== verif::consts::bottom | verif::consts<details::weight_impl<std::vector<int>, false, void>> | () |  | std::vector<int>
-- file: unit
-- id: 199
ret	list(-2147483648)	true
== verif::consts::max | verif::consts<details::weight_impl<std::vector<int>, false, void>> | () |  | std::vector<int>
-- file: unit
-- id: 200
ret	list(2147483647)	true
== verif::consts::print | verif::consts<details::weight_impl<std::vector<int>, false, void>> | (std::basic_ostream<char, std::char_traits<char>> &, const std::vector<int> &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: unit
-- same: 191
== fut::detail::fut_set::emplace | fut::detail::fut_set<std::tuple<u32, u32>, fut::hash, fut::hash> | (const u32 &, u32 &) | <u32 &> | std::pair<std::__detail::_Node_iterator<u32, true, true>, bool>
-- file: include/pdaaal/utils/fut_set.h
-- id: 201
let	$1	self.elems[param(#0)]
do		do(`insert`, self.elems, param(#0))	true
do		do(`insert`, $1, param(#1))	true
ret	tuple{#0: sfind($1, param(#1)), #1: {!contains($1', param(#1))}}	true
== verif::consts::zero | verif::consts<details::weight_impl<std::vector<int>, true, void>> | () |  | std::vector<int>
-- file: unit
-- same: 195
== verif::consts::bottom | verif::consts<details::weight_impl<std::vector<int>, true, void>> | () |  | std::vector<int>
-- file: unit
-- id: 202
ret	list(2147483647)	true
== verif::consts::max | verif::consts<details::weight_impl<std::vector<int>, true, void>> | () |  | std::vector<int>
-- file: unit
-- id: 203
ret	list(-2147483648)	true
== verif::consts::print | verif::consts<details::weight_impl<std::vector<int>, true, void>> | (std::basic_ostream<char, std::char_traits<char>> &, const std::vector<int> &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: unit
-- same: 191
== AutomatonPath::AutomatonPath | AutomatonPath<false> | () |  | void
-- file: include/pdaaal/AutomatonPath.h
-- id: 204
do		set(self._end, 18446744073709551615)	true
do		set(self._edges, new(`std::vector`))	true
== AutomatonPath::AutomatonPath | AutomatonPath<false> | (u64) |  | void
-- file: include/pdaaal/AutomatonPath.h
-- id: 205
do		set(self._end, param(#0))	true
do		set(self._edges, new(`std::vector`))	true
== AutomatonPath::AutomatonPath | AutomatonPath<false> | (const std::vector<u64> &, const std::vector<u32> &) |  | void
-- file: include/pdaaal/AutomatonPath.h
-- id: 206
let	$1	range(rbegin(param(#1)), rend(param(#1)))
do		set(self._end, back(param(#0)))	true
do		set(self._edges, new(`std::vector`))	true
do	foreach($1)	do(`push`, self._edges, tuple{#0: $1@0^, #1: lin(#1, ix($1, #0), rbegin(param(#0)))^})	true
== AutomatonPath::is_null | AutomatonPath<false> | () const |  | bool
-- file: include/pdaaal/AutomatonPath.h
-- id: 207
ret	eq(self._end, 18446744073709551615)	true
== AutomatonPath::empty | AutomatonPath<false> | () const |  | bool
-- file: include/pdaaal/AutomatonPath.h
-- same: 0
== AutomatonPath::edges_size | AutomatonPath<false> | () const |  | u64
-- file: include/pdaaal/AutomatonPath.h
-- same: 1
== AutomatonPath::front_state | AutomatonPath<false> | () const |  | u64
-- file: include/pdaaal/AutomatonPath.h
-- same: 2
== AutomatonPath::front_edge | AutomatonPath<false> | () const |  | std::tuple<u64, u32, u64>
-- file: include/pdaaal/AutomatonPath.h
-- same: 3
== AutomatonPath::pop | AutomatonPath<false> | () |  | void
-- file: include/pdaaal/AutomatonPath.h
-- same: 4
== AutomatonPath::emplace | AutomatonPath<false> | (u64, u32) |  | void
-- file: include/pdaaal/AutomatonPath.h
-- same: 5
== AutomatonPath::stack | AutomatonPath<false> | () const |  | std::vector<u32>
-- file: include/pdaaal/AutomatonPath.h
-- same: 6
== AutomatonPath::get_path_and_stack | AutomatonPath<false> | () const |  | std::pair<std::vector<u64>, std::vector<u32>>
-- file: include/pdaaal/AutomatonPath.h
-- same: 7
== AutomatonPath::split | AutomatonPath<false> | () const |  | std::pair<AutomatonPath<false>, AutomatonPath<false>>
-- file: include/pdaaal/AutomatonPath.h
-- id: 208
ret	tuple{#0: self, #1: self}	true
== AutomatonPath::remove_epsilon | AutomatonPath<false> | () |  | void
-- file: include/pdaaal/AutomatonPath.h
-- same: 9
== operator== |  | (const AutomatonPath<false> &, const AutomatonPath<false> &) |  | bool
-- file: include/pdaaal/AutomatonPath.h
-- same: 10
== operator!= |  | (const AutomatonPath<false> &, const AutomatonPath<false> &) |  | bool
-- file: include/pdaaal/AutomatonPath.h
-- id: 209
ret	{!eq(param(#0)._end, param(#1)._end) | !eq(param(#1)._edges, param(#0)._edges)}	true
== fut::detail::fut_set::contains | fut::detail::fut_set<std::tuple<u32, u32>, fut::hash, fut::hash> | (const u32 &, const u32 &) const | <u32> | bool
-- file: include/pdaaal/utils/fut_set.h
-- id: 210
ret	{contains(self.elems, param(#0)) & contains(self.elems[param(#0)], param(#1))}	true
== AutomatonPath::AutomatonPath | AutomatonPath<true> | () |  | void
-- file: include/pdaaal/AutomatonPath.h
-- id: 211
let	$1	18446744073709551615
do		set(self._end, tuple{#0: $1, #1: $1})	true
do		set(self._edges, new(`std::vector`))	true
== AutomatonPath::AutomatonPath | AutomatonPath<true> | (std::pair<u64, u64>) |  | void
-- file: include/pdaaal/AutomatonPath.h
-- same: 205
== AutomatonPath::AutomatonPath | AutomatonPath<true> | (const std::vector<std::pair<u64, u64>> &, const std::vector<u32> &) |  | void
-- file: include/pdaaal/AutomatonPath.h
-- same: 206
== AutomatonPath::is_null | AutomatonPath<true> | () const |  | bool
-- file: include/pdaaal/AutomatonPath.h
-- id: 212
let	$1	18446744073709551615
ret	{eq($1, self._end.#0) & eq(self._end.#1, $1)}	true
