== utils::flags::remove | utils::flags<3> | (unsigned char &, unsigned char) |  | void
-- file: include/pdaaal/utils/flags.h
-- id: 0
do		set(param(#0), band(param(#0), bnot(param(#1))))	true
== utils::flags::is_single_flag | utils::flags<3> | (unsigned char) |  | bool
-- file: include/pdaaal/utils/flags.h
-- id: 1
ret	{!eq(param(#0), 0) & eq(0, band(param(#0), lin(#-1, param(#0))))}	true
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::SolverInstanceSaxHandler<TI::Single> &) | p::SolverInstanceSaxHandler<TI::Single> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 2
do		set(self._dispatch_null, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::SolverInstanceSaxHandler::null`, param(#0)))]))	true
do		set(self._dispatch_boolean, fun(false, [eff(ctx([]), {!lp(#0, #0)}, do(`pdaaal::parsing::SolverInstanceSaxHandler::boolean`, param(#0), false)), eff(ctx([]), lp(#0, #0), do(`pdaaal::parsing::SolverInstanceSaxHandler::boolean`, param(#0), true))]))	true
do		set(self._dispatch_number_integer, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::SolverInstanceSaxHandler::number_integer`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_number_unsigned, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::SolverInstanceSaxHandler::number_unsigned`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_number_float, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::SolverInstanceSaxHandler::number_float`, param(#0), lp(#0, #0), lp(#0, #1)))]))	true
do		set(self._dispatch_string, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::SolverInstanceSaxHandler::string`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_binary, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::SolverInstanceSaxHandler::binary`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_key, fun(res(`pdaaal::parsing::SolverInstanceSaxHandler::key`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::SolverInstanceSaxHandler::key`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_start_object, fun(res(`pdaaal::parsing::SolverInstanceSaxHandler::start_object`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::SolverInstanceSaxHandler::start_object`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_end_object, fun(res(`pdaaal::parsing::SolverInstanceSaxHandler::end_object`, param(#0)), [eff(ctx([]), true, do(`pdaaal::parsing::SolverInstanceSaxHandler::end_object`, param(#0)))]))	true
do		set(self._dispatch_start_array, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::SolverInstanceSaxHandler::start_array`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_end_array, fun(res(`pdaaal::parsing::SolverInstanceSaxHandler::end_array`, param(#0)), [eff(ctx([]), true, do(`pdaaal::parsing::SolverInstanceSaxHandler::end_array`, param(#0)))]))	true
do		set(self._dispatch_parse_error, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::SAXHandlerBase::parse_error`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2)))]))	true
do		set(self._dispatch_is_errored, fun(call(`pdaaal::parsing::SAXHandlerBase::is_errored`, param(#0)), []))	true
== p::SAXHandlerDispatch::null | p::SAXHandlerDispatch | () |  | bool
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 3
let	$1	self._dispatch_null
let	$2	self._dispatch_is_errored
do		invoke($1)	true
do		invoke($2)	!res_invoke($1)
do		invoke(self._callback, self)	!res_invoke($1) & !res_invoke($2)
ret	{!res_invoke($2) & res_invoke(self._callback, self) | res_invoke($1)}	true
== p::SAXHandlerDispatch::boolean | p::SAXHandlerDispatch | (bool) |  | bool
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 4
let	$1	self._dispatch_boolean
let	$2	self._dispatch_is_errored
let	$3	res_invoke($1, param(#0))
do		invoke($1, param(#0))	true
do		invoke($2)	!$3
do		invoke(self._callback, self)	!$3 & !res_invoke($2)
ret	{!res_invoke($2) & res_invoke(self._callback, self) | $3}	true
== p::SAXHandlerDispatch::number_integer | p::SAXHandlerDispatch | (long) |  | bool
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 5
let	$1	self._dispatch_number_integer
let	$2	self._dispatch_is_errored
let	$3	res_invoke($1, param(#0))
do		invoke($1, param(#0))	true
do		invoke($2)	!$3
do		invoke(self._callback, self)	!$3 & !res_invoke($2)
ret	{!res_invoke($2) & res_invoke(self._callback, self) | $3}	true
== p::SAXHandlerDispatch::number_unsigned | p::SAXHandlerDispatch | (u64) |  | bool
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 6
let	$1	self._dispatch_number_unsigned
let	$2	self._dispatch_is_errored
let	$3	res_invoke($1, param(#0))
do		invoke($1, param(#0))	true
do		invoke($2)	!$3
do		invoke(self._callback, self)	!$3 & !res_invoke($2)
ret	{!res_invoke($2) & res_invoke(self._callback, self) | $3}	true
== p::SAXHandlerDispatch::number_float | p::SAXHandlerDispatch | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 7
let	$1	self._dispatch_number_float
let	$2	self._dispatch_is_errored
let	$3	res_invoke($1, param(#0), param(#1))
do		invoke($1, param(#0), param(#1))	true
do		invoke($2)	!$3
do		invoke(self._callback, self)	!$3 & !res_invoke($2)
ret	{!res_invoke($2) & res_invoke(self._callback, self) | $3}	true
== p::SAXHandlerDispatch::string | p::SAXHandlerDispatch | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 8
let	$1	self._dispatch_string
let	$2	self._dispatch_is_errored
let	$3	res_invoke($1, param(#0))
do		invoke($1, param(#0))	true
do		invoke($2)	!$3
do		invoke(self._callback, self)	!$3 & !res_invoke($2)
ret	{!res_invoke($2) & res_invoke(self._callback, self) | $3}	true
== p::SAXHandlerDispatch::binary | p::SAXHandlerDispatch | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 9
let	$1	self._dispatch_binary
let	$2	self._dispatch_is_errored
let	$3	res_invoke($1, param(#0))
do		invoke($1, param(#0))	true
do		invoke($2)	!$3
do		invoke(self._callback, self)	!$3 & !res_invoke($2)
ret	{!res_invoke($2) & res_invoke(self._callback, self) | $3}	true
== p::SAXHandlerDispatch::key | p::SAXHandlerDispatch | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 10
let	$1	self._dispatch_key
let	$2	self._dispatch_is_errored
let	$3	res_invoke($1, param(#0))
do		invoke($1, param(#0))	true
do		invoke($2)	!$3
do		invoke(self._callback, self)	!$3 & !res_invoke($2)
ret	{!res_invoke($2) & res_invoke(self._callback, self) | $3}	true
== p::SAXHandlerDispatch::start_object | p::SAXHandlerDispatch | (u64) |  | bool
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 11
let	$1	self._dispatch_start_object
let	$2	self._dispatch_is_errored
let	$3	res_invoke($1, param(#0))
do		invoke($1, param(#0))	true
do		invoke($2)	!$3
do		invoke(self._callback, self)	!$3 & !res_invoke($2)
ret	{!res_invoke($2) & res_invoke(self._callback, self) | $3}	true
== p::SAXHandlerDispatch::end_object | p::SAXHandlerDispatch | () |  | bool
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 12
let	$1	self._dispatch_end_object
let	$2	self._dispatch_is_errored
do		invoke($1)	true
do		invoke($2)	!res_invoke($1)
do		invoke(self._callback, self)	!res_invoke($1) & !res_invoke($2)
ret	{!res_invoke($2) & res_invoke(self._callback, self) | res_invoke($1)}	true
== p::SAXHandlerDispatch::start_array | p::SAXHandlerDispatch | (u64) |  | bool
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 13
let	$1	self._dispatch_start_array
let	$2	self._dispatch_is_errored
let	$3	res_invoke($1, param(#0))
do		invoke($1, param(#0))	true
do		invoke($2)	!$3
do		invoke(self._callback, self)	!$3 & !res_invoke($2)
ret	{!res_invoke($2) & res_invoke(self._callback, self) | $3}	true
== p::SAXHandlerDispatch::end_array | p::SAXHandlerDispatch | () |  | bool
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 14
let	$1	self._dispatch_end_array
let	$2	self._dispatch_is_errored
do		invoke($1)	true
do		invoke($2)	!res_invoke($1)
do		invoke(self._callback, self)	!res_invoke($1) & !res_invoke($2)
ret	{!res_invoke($2) & res_invoke(self._callback, self) | res_invoke($1)}	true
== p::SAXHandlerDispatch::parse_error | p::SAXHandlerDispatch | (u64, const std::string &, const nlohmann::detail::exception &) |  | bool
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 15
let	$1	self._dispatch_parse_error
let	$2	self._dispatch_is_errored
let	$3	res_invoke($1, param(#0), param(#1), param(#2))
do		invoke($1, param(#0), param(#1), param(#2))	true
do		invoke($2)	!$3
do		invoke(self._callback, self)	!$3 & !res_invoke($2)
ret	{!res_invoke($2) & res_invoke(self._callback, self) | $3}	true
== utils::flag_mask::flag_mask | utils::flag_mask<2> | (unsigned char) |  | void
-- file: include/pdaaal/utils/flags.h
-- id: 16
do		set(self._mask, param(#0))	true
== utils::flag_mask::got_flag | utils::flag_mask<2> | (unsigned char) |  | void
-- file: include/pdaaal/utils/flags.h
-- id: 17
do		set(self._mask, band(bnot(param(#0)), self._mask))	true
== utils::flag_mask::needs_flag | utils::flag_mask<2> | (unsigned char) const |  | bool
-- file: include/pdaaal/utils/flags.h
-- id: 18
ret	eq(band(param(#0), self._mask), param(#0))	true
== utils::flag_mask::has_missing_flags | utils::flag_mask<2> | () const |  | bool
-- file: include/pdaaal/utils/flags.h
-- id: 19
ret	{!eq(self._mask, 0)}	true
== utils::flag_mask::get_missing_flags | utils::flag_mask<2> | () const |  | std::vector<unsigned char>
-- file: include/pdaaal/utils/flags.h
-- id: 20
ret	call(`pdaaal::utils::flags::split_to_single_flags`, self._mask)	true
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, W0, fut::vector, std::string, false>, PAutomaton<std::string, W0, std::string, false, TI::Pair>, W0, TI::Pair> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 21
do		set(L(#0)["instance"], ctor(`nlohmann::basic_json`, self))	true
dom		init(L(#0), ctor(`nlohmann::basic_json`, 0))	true
ret	L(#0)'	true
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, Wu, fut::vector, std::string, false>, PAutomaton<std::string, Wu, std::string, false, TI::Pair>, Wu, TI::Pair> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, Wi, fut::vector, std::string, false>, PAutomaton<std::string, Wi, std::string, false, TI::Pair>, Wi, TI::Pair> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Pair>, weight<std::vector<u32>, void>, TI::Pair> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== utils::flags::flag | utils::flags<3> | () | 1UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- id: 22
ret	1	true
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Pair>, weight<std::vector<int>, void>, TI::Pair> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== utils::flag_mask::flag_mask | utils::flag_mask<1> | (unsigned char) |  | void
-- file: include/pdaaal/utils/flags.h
-- same: 16
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, W0, fut::vector, u64, true>, PAutomaton<std::string, W0, u64, true, TI::Pair>, W0, TI::Pair> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, Wu, fut::vector, u64, true>, PAutomaton<std::string, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, Wi, fut::vector, u64, true>, PAutomaton<std::string, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== utils::flag_mask::got_flag | utils::flag_mask<1> | (unsigned char) |  | void
-- file: include/pdaaal/utils/flags.h
-- same: 17
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<u32>, void>, u64, true, TI::Pair>, weight<std::vector<u32>, void>, TI::Pair> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<int>, void>, u64, true, TI::Pair>, weight<std::vector<int>, void>, TI::Pair> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== utils::flag_mask::needs_flag | utils::flag_mask<1> | (unsigned char) const |  | bool
-- file: include/pdaaal/utils/flags.h
-- same: 18
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, W0, fut::vector, std::string, false>, PAutomaton<std::string, W0, std::string, false, TI::Single>, W0, TI::Single> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== utils::flag_mask::has_missing_flags | utils::flag_mask<1> | () const |  | bool
-- file: include/pdaaal/utils/flags.h
-- same: 19
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, Wu, fut::vector, std::string, false>, PAutomaton<std::string, Wu, std::string, false, TI::Single>, Wu, TI::Single> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== utils::flag_mask::get_missing_flags | utils::flag_mask<1> | () const |  | std::vector<unsigned char>
-- file: include/pdaaal/utils/flags.h
-- same: 20
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, Wi, fut::vector, std::string, false>, PAutomaton<std::string, Wi, std::string, false, TI::Single>, Wi, TI::Single> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== utils::flags::flag | utils::flags<3> | () | 2UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- id: 23
ret	2	true
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Single>, weight<std::vector<u32>, void>, TI::Single> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Single>, weight<std::vector<int>, void>, TI::Single> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, W0, fut::vector, u64, true>, PAutomaton<std::string, W0, u64, true, TI::Single>, W0, TI::Single> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== p::SAXHandlerBase::SAXHandlerBase | p::SAXHandlerBase | (std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 24
do		set(self._errors, addrof(param(#0)))	true
do		set(self._errored, false)	true
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, Wu, fut::vector, u64, true>, PAutomaton<std::string, Wu, u64, true, TI::Single>, Wu, TI::Single> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== utils::flags::flag | utils::flags<3> | () | 3UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- id: 25
ret	4	true
== p::SAXHandlerBase::parse_error | p::SAXHandlerBase | (u64, const std::string &, const nlohmann::detail::exception &) |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 26
do		out(`<<`, self._errors, "error at line ")	true
do		do(`operator<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " with last token ")	true
do		out(`<<`, self._errors, param(#1))	true
do		out(`<<`, self._errors, ". ")	true
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		out(`<<`, self._errors, "\terror message: ")	true
do		out(`<<`, self._errors, call(`nlohmann::detail::exception::what`, param(#2)))	true
do		set(self._errored, true)	true
ret	false	true
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, Wi, fut::vector, u64, true>, PAutomaton<std::string, Wi, u64, true, TI::Single>, Wi, TI::Single> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== p::SAXHandlerBase::is_errored | p::SAXHandlerBase | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 27
ret	self._errored	true
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<u32>, void>, u64, true, TI::Single>, weight<std::vector<u32>, void>, TI::Single> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== PAutomatonProduct::to_json | PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<int>, void>, u64, true, TI::Single>, weight<std::vector<int>, void>, TI::Single> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 21
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, W0, fut::vector, std::string, false>, PAutomaton<std::string, W0, std::string, false, TI::Pair>, W0, TI::Pair> &) | std::string, W0, fut::vector, std::string, false, TI::Pair | void
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 28
let	$1	new(`std::initializer_list`)
let	$2	back(param(#0))
do		do(`push`, param(#0), call(`nlohmann::basic_json::object`, $1))	true
do		set(param(#0), call(`nlohmann::basic_json::array`, $1))	true
do		do(`push`, param(#0), param(#1)._pda)	true
do		set($2["state-names"], ctor(`nlohmann::basic_json`, true))	true
do		set($2["weight-type"], ctor(`nlohmann::basic_json`, "none"))	true
dom		do(`push`, param(#0), new(`std::map`))	true
do		do(`pdaaal::to_json_impl`, $2'', param(#1)._initial)	true
do		do(`pdaaal::to_json_impl`, $2'', param(#1)._final)	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, Wu, fut::vector, std::string, false>, PAutomaton<std::string, Wu, std::string, false, TI::Pair>, Wu, TI::Pair> &) | std::string, Wu, fut::vector, std::string, false, TI::Pair | void
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 29
let	$1	new(`std::initializer_list`)
let	$2	back(param(#0))
do		do(`push`, param(#0), call(`nlohmann::basic_json::object`, $1))	true
do		set(param(#0), call(`nlohmann::basic_json::array`, $1))	true
do		do(`push`, param(#0), param(#1)._pda)	true
do		set($2["state-names"], ctor(`nlohmann::basic_json`, true))	true
do		set($2["weight-type"], ctor(`nlohmann::basic_json`, "uint"))	true
dom		do(`push`, param(#0), new(`std::map`))	true
do		do(`pdaaal::to_json_impl`, $2'', param(#1)._initial)	true
do		do(`pdaaal::to_json_impl`, $2'', param(#1)._final)	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, Wi, fut::vector, std::string, false>, PAutomaton<std::string, Wi, std::string, false, TI::Pair>, Wi, TI::Pair> &) | std::string, Wi, fut::vector, std::string, false, TI::Pair | void
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 30
let	$1	new(`std::initializer_list`)
let	$2	back(param(#0))
do		do(`push`, param(#0), call(`nlohmann::basic_json::object`, $1))	true
do		set(param(#0), call(`nlohmann::basic_json::array`, $1))	true
do		do(`push`, param(#0), param(#1)._pda)	true
do		set($2["state-names"], ctor(`nlohmann::basic_json`, true))	true
do		set($2["weight-type"], ctor(`nlohmann::basic_json`, "int"))	true
dom		do(`push`, param(#0), new(`std::map`))	true
do		do(`pdaaal::to_json_impl`, $2'', param(#1)._initial)	true
do		do(`pdaaal::to_json_impl`, $2'', param(#1)._final)	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Pair>, weight<std::vector<u32>, void>, TI::Pair> &) | std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false, TI::Pair | void
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 31
let	$1	new(`std::initializer_list`)
let	$2	call(`nlohmann::basic_json::array`, $1)
let	$3	back(param(#0))
let	$4	$3["weight-type"]
do		do(`push`, param(#0), call(`nlohmann::basic_json::object`, $1))	true
do		set(param(#0), $2)	true
do		do(`push`, $4, "uint")	true
do		do(`push`, param(#0), param(#1)._pda)	true
do		set($3["state-names"], ctor(`nlohmann::basic_json`, true))	true
do		set($4, $2)	true
dom		do(`push`, param(#0), new(`std::map`))	true
do		do(`pdaaal::to_json_impl`, $3'', param(#1)._initial)	true
do		do(`pdaaal::to_json_impl`, $3'', param(#1)._final)	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Pair>, weight<std::vector<int>, void>, TI::Pair> &) | std::string, weight<std::vector<int>, void>, fut::vector, std::string, false, TI::Pair | void
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 32
let	$1	new(`std::initializer_list`)
let	$2	call(`nlohmann::basic_json::array`, $1)
let	$3	back(param(#0))
let	$4	$3["weight-type"]
do		do(`push`, param(#0), call(`nlohmann::basic_json::object`, $1))	true
do		set(param(#0), $2)	true
do		do(`push`, $4, "int")	true
do		do(`push`, param(#0), param(#1)._pda)	true
do		set($3["state-names"], ctor(`nlohmann::basic_json`, true))	true
do		set($4, $2)	true
dom		do(`push`, param(#0), new(`std::map`))	true
do		do(`pdaaal::to_json_impl`, $3'', param(#1)._initial)	true
do		do(`pdaaal::to_json_impl`, $3'', param(#1)._final)	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, W0, fut::vector, u64, true>, PAutomaton<std::string, W0, u64, true, TI::Pair>, W0, TI::Pair> &) | std::string, W0, fut::vector, u64, true, TI::Pair | void
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 33
let	$1	new(`std::initializer_list`)
let	$2	back(param(#0))
do		do(`push`, param(#0), call(`nlohmann::basic_json::object`, $1))	true
do		set(param(#0), call(`nlohmann::basic_json::array`, $1))	true
do		do(`push`, param(#0), param(#1)._pda)	true
do		set($2["state-names"], ctor(`nlohmann::basic_json`, false))	true
do		set($2["weight-type"], ctor(`nlohmann::basic_json`, "none"))	true
dom		do(`push`, param(#0), new(`std::map`))	true
do		do(`pdaaal::to_json_impl`, $2'', param(#1)._initial)	true
do		do(`pdaaal::to_json_impl`, $2'', param(#1)._final)	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, Wu, fut::vector, u64, true>, PAutomaton<std::string, Wu, u64, true, TI::Pair>, Wu, TI::Pair> &) | std::string, Wu, fut::vector, u64, true, TI::Pair | void
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 34
let	$1	new(`std::initializer_list`)
let	$2	back(param(#0))
do		do(`push`, param(#0), call(`nlohmann::basic_json::object`, $1))	true
do		set(param(#0), call(`nlohmann::basic_json::array`, $1))	true
do		do(`push`, param(#0), param(#1)._pda)	true
do		set($2["state-names"], ctor(`nlohmann::basic_json`, false))	true
do		set($2["weight-type"], ctor(`nlohmann::basic_json`, "uint"))	true
dom		do(`push`, param(#0), new(`std::map`))	true
do		do(`pdaaal::to_json_impl`, $2'', param(#1)._initial)	true
do		do(`pdaaal::to_json_impl`, $2'', param(#1)._final)	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, Wi, fut::vector, u64, true>, PAutomaton<std::string, Wi, u64, true, TI::Pair>, Wi, TI::Pair> &) | std::string, Wi, fut::vector, u64, true, TI::Pair | void
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 35
let	$1	new(`std::initializer_list`)
let	$2	back(param(#0))
do		do(`push`, param(#0), call(`nlohmann::basic_json::object`, $1))	true
do		set(param(#0), call(`nlohmann::basic_json::array`, $1))	true
do		do(`push`, param(#0), param(#1)._pda)	true
do		set($2["state-names"], ctor(`nlohmann::basic_json`, false))	true
do		set($2["weight-type"], ctor(`nlohmann::basic_json`, "int"))	true
dom		do(`push`, param(#0), new(`std::map`))	true
do		do(`pdaaal::to_json_impl`, $2'', param(#1)._initial)	true
do		do(`pdaaal::to_json_impl`, $2'', param(#1)._final)	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<u32>, void>, u64, true, TI::Pair>, weight<std::vector<u32>, void>, TI::Pair> &) | std::string, weight<std::vector<u32>, void>, fut::vector, u64, true, TI::Pair | void
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 36
let	$1	new(`std::initializer_list`)
let	$2	call(`nlohmann::basic_json::array`, $1)
let	$3	back(param(#0))
let	$4	$3["weight-type"]
do		do(`push`, param(#0), call(`nlohmann::basic_json::object`, $1))	true
do		set(param(#0), $2)	true
do		do(`push`, $4, "uint")	true
do		do(`push`, param(#0), param(#1)._pda)	true
do		set($3["state-names"], ctor(`nlohmann::basic_json`, false))	true
do		set($4, $2)	true
dom		do(`push`, param(#0), new(`std::map`))	true
do		do(`pdaaal::to_json_impl`, $3'', param(#1)._initial)	true
do		do(`pdaaal::to_json_impl`, $3'', param(#1)._final)	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<int>, void>, u64, true, TI::Pair>, weight<std::vector<int>, void>, TI::Pair> &) | std::string, weight<std::vector<int>, void>, fut::vector, u64, true, TI::Pair | void
-- file: include/pdaaal/PAutomatonProduct.h
-- id: 37
let	$1	new(`std::initializer_list`)
let	$2	call(`nlohmann::basic_json::array`, $1)
let	$3	back(param(#0))
let	$4	$3["weight-type"]
do		do(`push`, param(#0), call(`nlohmann::basic_json::object`, $1))	true
do		set(param(#0), $2)	true
do		do(`push`, $4, "int")	true
do		do(`push`, param(#0), param(#1)._pda)	true
do		set($3["state-names"], ctor(`nlohmann::basic_json`, false))	true
do		set($4, $2)	true
dom		do(`push`, param(#0), new(`std::map`))	true
do		do(`pdaaal::to_json_impl`, $3'', param(#1)._initial)	true
do		do(`pdaaal::to_json_impl`, $3'', param(#1)._final)	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, W0, fut::vector, std::string, false>, PAutomaton<std::string, W0, std::string, false, TI::Single>, W0, TI::Single> &) | std::string, W0, fut::vector, std::string, false, TI::Single | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 28
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, Wu, fut::vector, std::string, false>, PAutomaton<std::string, Wu, std::string, false, TI::Single>, Wu, TI::Single> &) | std::string, Wu, fut::vector, std::string, false, TI::Single | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 29
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, Wi, fut::vector, std::string, false>, PAutomaton<std::string, Wi, std::string, false, TI::Single>, Wi, TI::Single> &) | std::string, Wi, fut::vector, std::string, false, TI::Single | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 30
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Single>, weight<std::vector<u32>, void>, TI::Single> &) | std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false, TI::Single | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 31
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Single>, weight<std::vector<int>, void>, TI::Single> &) | std::string, weight<std::vector<int>, void>, fut::vector, std::string, false, TI::Single | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 32
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, W0, fut::vector, u64, true>, PAutomaton<std::string, W0, u64, true, TI::Single>, W0, TI::Single> &) | std::string, W0, fut::vector, u64, true, TI::Single | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 33
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, Wu, fut::vector, u64, true>, PAutomaton<std::string, Wu, u64, true, TI::Single>, Wu, TI::Single> &) | std::string, Wu, fut::vector, u64, true, TI::Single | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 34
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, Wi, fut::vector, u64, true>, PAutomaton<std::string, Wi, u64, true, TI::Single>, Wi, TI::Single> &) | std::string, Wi, fut::vector, u64, true, TI::Single | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 35
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<u32>, void>, u64, true, TI::Single>, weight<std::vector<u32>, void>, TI::Single> &) | std::string, weight<std::vector<u32>, void>, fut::vector, u64, true, TI::Single | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 36
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<int>, void>, u64, true, TI::Single>, weight<std::vector<int>, void>, TI::Single> &) | std::string, weight<std::vector<int>, void>, fut::vector, u64, true, TI::Single | void
-- file: include/pdaaal/PAutomatonProduct.h
-- same: 37
== utils::flags::flag | utils::flags<3> | () | 0UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- id: 38
ret	0	true
== p::detail::variant_index |  | () | PDA<std::string, W0, fut::vector, std::string, false>, <PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, u64, true>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>> | u64
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 39
ret	0	true
== p::detail::variant_index |  | () | PDA<std::string, Wu, fut::vector, std::string, false>, <PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, u64, true>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>> | u64
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 40
ret	1	true
== p::detail::variant_index |  | () | PDA<std::string, Wi, fut::vector, std::string, false>, <PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, u64, true>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>> | u64
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 41
ret	2	true
== p::detail::variant_index |  | () | PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, <PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, u64, true>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>> | u64
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 42
ret	3	true
== p::detail::variant_index |  | () | PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, <PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, u64, true>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>> | u64
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 43
ret	4	true
== p::detail::variant_index |  | () | PDA<std::string, W0, fut::vector, u64, true>, <PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, u64, true>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>> | u64
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 44
ret	5	true
== p::detail::variant_index |  | () | PDA<std::string, Wu, fut::vector, u64, true>, <PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, u64, true>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>> | u64
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 45
ret	6	true
== p::detail::variant_index |  | () | PDA<std::string, Wi, fut::vector, u64, true>, <PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, u64, true>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>> | u64
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 46
ret	7	true
== p::detail::variant_index |  | () | PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, <PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, u64, true>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>> | u64
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 47
ret	8	true
== p::detail::variant_index |  | () | PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, <PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, u64, true>, PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>> | u64
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 48
ret	9	true
== p::operator<< |  | (std::basic_ostream<char, std::char_traits<char>> &, p::SolverInstanceSaxHelper::keys) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 49
do		out(`<<`, param(#0), "<none>")	eq(param(#1), enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::none`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))
do		out(`<<`, param(#0), "instance")	eq(param(#1), enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))
ret	param(#0)	true
== p::operator<< |  | (std::basic_ostream<char, std::char_traits<char>> &, p::SolverInstanceSaxHelper::context_type) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 50
do		out(`<<`, param(#0), "<initial>")	eq(enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::initial`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`), param(#1))
do		out(`<<`, param(#0), "instance array")	eq(param(#1), enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
ret	param(#0)	true
== p::SolverInstanceSaxHelper::get_key | p::SolverInstanceSaxHelper | (p::SolverInstanceSaxHelper::context_type, unsigned char) |  | p::SolverInstanceSaxHelper::keys
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 51
let	$1	eq(enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::initial`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`), param(#0))
let	$2	eq(param(#1), 1)
ret	enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`)	$1 & $2
ret	enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::none`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`)	!$1 | !$2
== p::SolverInstanceSaxHandler::SolverInstanceSaxHandler | p::SolverInstanceSaxHandler<TI::Pair> | (std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 52
let	$1	new(`std::stack`)
do		set(self._errors, addrof(param(#0)))	true
do		set(self._errored, false)	true
do		set(self.last_key, enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::none`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))	true
do		set(self._context_stack, $1)	true
do		set(self.pda_type_sax_handler, rec(`pdaaal::parsing::PdaTypeSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, $1, `last_key`, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::none`, `pdaaal::parsing::PdaTypeSaxHelper::keys`), `use_state_names`, false, `use_weight_array`, false, `weight_array_size`, nullopt, `weight_str`, ""]))	true
do		set(self.pda_sax_handler, nullopt)	true
do		set(self.pda_variant, nullopt)	true
do		set(self.automaton_sax_handler_1, nullopt)	true
do		set(self.automaton_sax_handler_2, nullopt)	true
== p::SolverInstanceSaxHandler::get_solver_instance | p::SolverInstanceSaxHandler<TI::Pair> | () |  | std::variant<SolverInstance<std::string, W0, std::string, false, TI::Pair>, SolverInstance<std::string, Wu, std::string, false, TI::Pair>, SolverInstance<std::string, Wi, std::string, false, TI::Pair>, SolverInstance<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Pair>, SolverInstance<std::string, weight<std::vector<int>, void>, std::string, false, TI::Pair>, SolverInstance<std::string, W0, u64, true, TI::Pair>, SolverInstance<std::string, Wu, u64, true, TI::Pair>, SolverInstance<std::string, Wi, u64, true, TI::Pair>, SolverInstance<std::string, weight<std::vector<u32>, void>, u64, true, TI::Pair>, SolverInstance<std::string, weight<std::vector<int>, void>, u64, true, TI::Pair>>
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 53
let	$1	val(self.automaton_sax_handler_1)
let	$2	val(self.automaton_sax_handler_2)
ret	call(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, funs(fun(pdaaal::SolverInstance{_pda: lp(#0, #0), _product: ctor(`pdaaal::PAutomatonProduct`, lp(#0, #0), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `3UL`)), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `3UL`)))}, [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `3UL`))), eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `3UL`)))]), fun(pdaaal::SolverInstance{_pda: lp(#0, #0), _product: ctor(`pdaaal::PAutomatonProduct`, lp(#0, #0), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `7UL`)), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `7UL`)))}, [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `7UL`))), eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `7UL`)))]), fun(pdaaal::SolverInstance{_pda: lp(#0, #0), _product: ctor(`pdaaal::PAutomatonProduct`, lp(#0, #0), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `1UL`)), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `1UL`)))}, [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `1UL`))), eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `1UL`)))]), fun(pdaaal::SolverInstance{_pda: lp(#0, #0), _product: ctor(`pdaaal::PAutomatonProduct`, lp(#0, #0), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `8UL`)), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `8UL`)))}, [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `8UL`))), eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `8UL`)))]), fun(pdaaal::SolverInstance{_pda: lp(#0, #0), _product: ctor(`pdaaal::PAutomatonProduct`, lp(#0, #0), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `6UL`)), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `6UL`)))}, [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `6UL`))), eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `6UL`)))]), fun(pdaaal::SolverInstance{_pda: lp(#0, #0), _product: ctor(`pdaaal::PAutomatonProduct`, lp(#0, #0), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `9UL`)), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `9UL`)))}, [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `9UL`))), eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `9UL`)))]), fun(pdaaal::SolverInstance{_pda: lp(#0, #0), _product: ctor(`pdaaal::PAutomatonProduct`, lp(#0, #0), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `2UL`)), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `2UL`)))}, [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `2UL`))), eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `2UL`)))]), fun(pdaaal::SolverInstance{_pda: lp(#0, #0), _product: ctor(`pdaaal::PAutomatonProduct`, lp(#0, #0), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `0UL`)), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `0UL`)))}, [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `0UL`))), eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `0UL`)))]), fun(pdaaal::SolverInstance{_pda: lp(#0, #0), _product: ctor(`pdaaal::PAutomatonProduct`, lp(#0, #0), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `4UL`)), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `4UL`)))}, [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `4UL`))), eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `4UL`)))]), fun(pdaaal::SolverInstance{_pda: lp(#0, #0), _product: ctor(`pdaaal::PAutomatonProduct`, lp(#0, #0), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `5UL`)), res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `5UL`)))}, [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($1, `5UL`))), eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, get($2, `5UL`)))])), val(self.pda_variant))	true
== p::SolverInstanceSaxHandler::callback | p::SolverInstanceSaxHandler<TI::Pair> | (p::SAXHandlerDispatch &) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 54
let	$1	self.pda_type_sax_handler
let	$2	get(top(self._context_stack)._v, `1UL`)
let	$3	fun(none, [eff(ctx([]), true, do(`pdaaal::parsing::SAXHandlerDispatch::set_dispatch`, param(#0), lp(#0, #0)))])
let	$4	res(`pdaaal::parsing::PdaTypeSaxHandler::get_pda_sax_handler`, $1)
let	$5	fun(res(`pdaaal::parsing::PdaSaxHandler::get_pda`, lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaSaxHandler::get_pda`, lp(#0, #0)))])
let	$6	self.pda_sax_handler
let	$7	LL(#0, #0)._context_stack
let	$8	ctor(`pdaaal::PAutomaton`, lp(#0, #0), new(`std::vector`), true)
let	$9	new(`std::unordered_map`)
let	$10	enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::keys`)
let	$11	addrof(lp(#0, #0))
let	$12	eff(ctx([]), true, init($7, new(`std::stack`)))
let	$13	eff(ctx([]), true, do(`push`, $7, gvar(`pdaaal::parsing::PAutomatonSaxHandler::initial_context`)))
let	$14	fun(rec(`pdaaal::parsing::PAutomatonSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self', `_context_stack`, $7', `automaton`, $8, `current_from_state`, 0, `current_label`, "", `current_to_state`, 0, `extra_state_map`, $9, `last_key`, $10, `pda`, $11]), [$12, $13])
let	$15	call(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $5, val($6))
let	$16	call(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $14, $15)
let	$17	self.pda_variant
let	$18	call(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $14, val($17))
do		do(`pdaaal::parsing::SAXHandlerDispatch::set_dispatch`, param(#0), $1)	eq($2, 0)
do		do(`pdaaal::parsing::PdaTypeSaxHandler::get_pda_sax_handler`, $1)	eq($2, 1)
do		do(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $3, $4)	eq($2, 1)
do		do(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $5, val($6))	eq($2, 2)
do		set($6, some($4))	eq($2, 1)
do		do(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $14, $15)	eq($2, 2)
do		do(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $3, $16)	eq($2, 2)
do		do(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, fun(rec(`pdaaal::parsing::PAutomatonSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, $7', `automaton`, $8, `current_from_state`, 0, `current_label`, "", `current_to_state`, 0, `extra_state_map`, $9, `last_key`, $10, `pda`, $11]), [$12, $13]), val($17))	eq($2, 3)
do		set($17, some($15))	eq($2, 2)
do		do(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $3, $18)	eq($2, 3)
do		do(`pdaaal::parsing::SAXHandlerDispatch::set_dispatch`, param(#0), self)	eq($2, 4)
do		set(self.automaton_sax_handler_1, some($16))	eq($2, 2)
do		set(self.automaton_sax_handler_2, some($18))	eq($2, 3)
do		out(`<<`, self._errors, "error: Solver instance should only contain four elements.")	!eq($2, 0) & !eq($2, 1) & !eq($2, 2) & !eq($2, 3) & !eq($2, 4)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!eq($2, 0) & !eq($2, 1) & !eq($2, 2) & !eq($2, 3) & !eq($2, 4)
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	eq($2, 0) | eq($2, 1) | eq($2, 2) | eq($2, 3) | eq($2, 4)
do		set(self._errored, true)	!eq($2, 0) & !eq($2, 1) & !eq($2, 2) & !eq($2, 3) & !eq($2, 4) & !self._errored
ret	{eq($2, 0) | eq($2, 1) | eq($2, 2) | eq($2, 3) | eq($2, 4)}	true
== p::JsonParserContext::JsonParserContext | p::JsonParserContext<p::PdaSaxHelper::context_type, 3> | (p::PdaSaxHelper::context_type, unsigned char, std::in_place_index_t<0>) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 55
do		set(self.type, param(#0))	true
do		set(self._v, ctor(`std::variant`, gvar(`std::in_place_index`), param(#1)))	true
== p::SolverInstanceSaxHandler::null | p::SolverInstanceSaxHandler<TI::Pair> | () |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 56
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "null value")	true
ret	false	true
== p::SolverInstanceSaxHandler::boolean | p::SolverInstanceSaxHandler<TI::Pair> | (bool) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 57
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "boolean", param(#0), "")	true
ret	false	true
== p::SolverInstanceSaxHandler::number_integer | p::SolverInstanceSaxHandler<TI::Pair> | (long) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 58
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "integer", param(#0), "")	true
ret	false	true
== p::SolverInstanceSaxHandler::number_unsigned | p::SolverInstanceSaxHandler<TI::Pair> | (u64) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 59
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "")	true
ret	false	true
== p::SolverInstanceSaxHandler::number_float | p::SolverInstanceSaxHandler<TI::Pair> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 60
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "float", param(#0), "")	true
ret	false	true
== p::SolverInstanceSaxHandler::string | p::SolverInstanceSaxHandler<TI::Pair> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 61
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "string", param(#0), "")	true
ret	false	true
== p::SolverInstanceSaxHandler::binary | p::SolverInstanceSaxHandler<TI::Pair> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 62
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "binary value")	true
ret	false	true
== p::SolverInstanceSaxHandler::start_object | p::SolverInstanceSaxHandler<TI::Pair> | (u64) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 63
let	$1	self._context_stack
do		do(`push`, $1, gvar(`pdaaal::parsing::SolverInstanceSaxHandler::initial_context`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "start of object")	!empty($1)
ret	empty($1)	true
== p::SolverInstanceSaxHandler::key | p::SolverInstanceSaxHandler<TI::Pair> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 64
let	$1	eq("instance", param(#0))
let	$2	self._context_stack
let	$3	eq(top($2).type, enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::initial`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected_key`, self, param(#0))	!$1 | !$3 | empty($2)
do		do(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self)	!empty($2) & $1 & $3
ret	{!empty($2) & $1 & $3 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self)}	true
== p::SolverInstanceSaxHandler::end_object | p::SolverInstanceSaxHandler<TI::Pair> | () |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 65
let	$1	self._context_stack
let	$2	eq(0, get(top($1)._v, `0UL`)._mask)
do		out(`<<`, self._errors, "error: Unexpected end of object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_missing_keys`, self)	!$2 & !empty($1)
do		do(`pop`, $1)	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
ret	{!empty($1) & $2}	true
== p::SolverInstanceSaxHandler::start_array | p::SolverInstanceSaxHandler<TI::Pair> | (u64) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 66
let	$1	self._context_stack
let	$2	eq(self.last_key, enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))
do		out(`<<`, self._errors, "error: Encountered start of array, but must start with an object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`push`, $1, gvar(`pdaaal::parsing::SolverInstanceSaxHandler::instance_context`))	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "start of array")	!$2 & !empty($1)
do		set(self._errored, true)	!self._errored & empty($1)
ret	false	true
== p::SolverInstanceSaxHandler::end_array | p::SolverInstanceSaxHandler<TI::Pair> | () |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 67
let	$1	self._context_stack
do		out(`<<`, self._errors, "error: Unexpected end of array.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pop`, $1)	!empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($1)
do		set(self._errored, true)	!self._errored & empty($1)
ret	{!empty($1)}	true
== p::SolverInstanceSaxHandler::SolverInstanceSaxHandler | p::SolverInstanceSaxHandler<TI::Single> | (std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 52
== p::SolverInstanceSaxHandler::get_solver_instance | p::SolverInstanceSaxHandler<TI::Single> | () |  | std::variant<SolverInstance<std::string, W0, std::string, false, TI::Single>, SolverInstance<std::string, Wu, std::string, false, TI::Single>, SolverInstance<std::string, Wi, std::string, false, TI::Single>, SolverInstance<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Single>, SolverInstance<std::string, weight<std::vector<int>, void>, std::string, false, TI::Single>, SolverInstance<std::string, W0, u64, true, TI::Single>, SolverInstance<std::string, Wu, u64, true, TI::Single>, SolverInstance<std::string, Wi, u64, true, TI::Single>, SolverInstance<std::string, weight<std::vector<u32>, void>, u64, true, TI::Single>, SolverInstance<std::string, weight<std::vector<int>, void>, u64, true, TI::Single>>
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 53
== p::SolverInstanceSaxHandler::callback | p::SolverInstanceSaxHandler<TI::Single> | (p::SAXHandlerDispatch &) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 54
== p::SolverInstanceSaxHandler::null | p::SolverInstanceSaxHandler<TI::Single> | () |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 56
== p::SolverInstanceSaxHandler::boolean | p::SolverInstanceSaxHandler<TI::Single> | (bool) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 57
== p::SolverInstanceSaxHandler::number_integer | p::SolverInstanceSaxHandler<TI::Single> | (long) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 58
== p::SolverInstanceSaxHandler::number_unsigned | p::SolverInstanceSaxHandler<TI::Single> | (u64) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 59
== p::SolverInstanceSaxHandler::number_float | p::SolverInstanceSaxHandler<TI::Single> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 60
== p::SolverInstanceSaxHandler::string | p::SolverInstanceSaxHandler<TI::Single> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 61
== p::SolverInstanceSaxHandler::binary | p::SolverInstanceSaxHandler<TI::Single> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 62
== p::SolverInstanceSaxHandler::start_object | p::SolverInstanceSaxHandler<TI::Single> | (u64) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 63
== p::SolverInstanceSaxHandler::key | p::SolverInstanceSaxHandler<TI::Single> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 64
== p::SolverInstanceSaxHandler::end_object | p::SolverInstanceSaxHandler<TI::Single> | () |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 65
== p::SolverInstanceSaxHandler::start_array | p::SolverInstanceSaxHandler<TI::Single> | (u64) |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 66
== p::SolverInstanceSaxHandler::end_array | p::SolverInstanceSaxHandler<TI::Single> | () |  | bool
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 67
== p::SolverInstanceJsonParser::parse | p::SolverInstanceJsonParser | (std::basic_istream<char, std::char_traits<char>> &, nlohmann::detail::input_format_t) | TI::Pair | std::variant<SolverInstance<std::string, W0, std::string, false, TI::Pair>, SolverInstance<std::string, Wu, std::string, false, TI::Pair>, SolverInstance<std::string, Wi, std::string, false, TI::Pair>, SolverInstance<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Pair>, SolverInstance<std::string, weight<std::vector<int>, void>, std::string, false, TI::Pair>, SolverInstance<std::string, W0, u64, true, TI::Pair>, SolverInstance<std::string, Wu, u64, true, TI::Pair>, SolverInstance<std::string, Wi, u64, true, TI::Pair>, SolverInstance<std::string, weight<std::vector<u32>, void>, u64, true, TI::Pair>, SolverInstance<std::string, weight<std::vector<int>, void>, u64, true, TI::Pair>>
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- id: 68
let	$1	new(`std::stack`)
let	$2	addrof(new(`std::basic_stringstream`))
let	$3	pdaaal::parsing::PdaTypeSaxHandler{_context_stack: $1, _errored: false, _errors: $2, last_key: enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::none`, `pdaaal::parsing::PdaTypeSaxHelper::keys`), use_state_names: false, use_weight_array: false, weight_array_size: nullopt, weight_str: ""}
let	$4	pdaaal::parsing::SolverInstanceSaxHandler{_context_stack: $1, _errored: false, _errors: $2, automaton_sax_handler_1: nullopt, automaton_sax_handler_2: nullopt, last_key: enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::none`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`), pda_sax_handler: nullopt, pda_type_sax_handler: $3, pda_variant: nullopt}
let	$5	call(`nlohmann::basic_json::sax_parse`, param(#0), addr(L(#0)), param(#1), true, false)
let	$6	L(#1).pda_type_sax_handler
let	$7	L(#2)._dispatch_binary
let	$8	new(`std::function`)
let	$9	L(#2)._dispatch_boolean
let	$10	L(#2)._dispatch_end_array
let	$11	L(#2)._dispatch_end_object
let	$12	L(#2)._dispatch_is_errored
let	$13	L(#2)._dispatch_key
let	$14	L(#2)._dispatch_null
let	$15	L(#2)._dispatch_number_float
let	$16	L(#2)._dispatch_number_integer
let	$17	L(#2)._dispatch_number_unsigned
let	$18	L(#2)._dispatch_parse_error
let	$19	L(#2)._dispatch_start_array
let	$20	L(#2)._dispatch_start_object
let	$21	L(#2)._dispatch_string
let	$22	get(top(L(#1)._context_stack)._v, `1UL`)
let	$23	fun(none, [eff(ctx([]), true, do(`pdaaal::parsing::SAXHandlerDispatch::set_dispatch`, lp(#0, #0), lp(#1, #0)))])
let	$24	LL(#1, #0)._context_stack
let	$25	ctor(`pdaaal::PAutomaton`, lp(#1, #0), new(`std::vector`), true)
let	$26	new(`std::unordered_map`)
let	$27	enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::keys`)
let	$28	addrof(lp(#1, #0))
let	$29	eff(ctx([]), true, init($24, $1))
let	$30	eff(ctx([]), true, do(`push`, $24, gvar(`pdaaal::parsing::PAutomatonSaxHandler::initial_context`)))
let	$31	fun(rec(`pdaaal::parsing::PAutomatonSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, L(#1)', `_context_stack`, $24', `automaton`, $25, `current_from_state`, 0, `current_label`, "", `current_to_state`, 0, `extra_state_map`, $26, `last_key`, $27, `pda`, $28]), [$29, $30])
let	$32	val(L(#1)'.pda_variant)'
let	$33	fun(res(`pdaaal::parsing::PdaSaxHandler::get_pda`, lp(#1, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaSaxHandler::get_pda`, lp(#1, #0)))])
let	$34	val(L(#1)'.pda_sax_handler)'
let	$35	call(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $33, $34)
let	$36	fun(rec(`pdaaal::parsing::PAutomatonSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, upd(L(#1)', `pda_variant`, some($35)), `_context_stack`, $24', `automaton`, $25, `current_from_state`, 0, `current_label`, "", `current_to_state`, 0, `extra_state_map`, $26, `last_key`, $27, `pda`, $28]), [$29, $30])
do		do(`pdaaal::parsing::SAXHandlerDispatch::set_dispatch`, L(#2), $4)	true
do		do(`nlohmann::basic_json::sax_parse`, param(#0), addr(L(#0)), param(#1), true, false)	true
do		throw(`std::runtime_error`)	!$5
do		do(`pdaaal::parsing::SolverInstanceSaxHandler::get_solver_instance`, L(#1))	$5
dom		init($6, $3)	true
dom		init(L(#1), $4)	true
dom		init(L(#1)._errors, $2)	true
dom		init($7, $8)	true
dom		init($9, $8)	true
dom		init($10, $8)	true
dom		init($11, $8)	true
dom		init($12, $8)	true
dom		init($13, $8)	true
dom		init($14, $8)	true
dom		init($15, $8)	true
dom		init($16, $8)	true
dom		init($17, $8)	true
dom		init($18, $8)	true
dom		init($19, $8)	true
dom		init($20, $8)	true
dom		init($21, $8)	true
dom		init(L(#0), pdaaal::parsing::SAXHandlerDispatch{_callback: fun({eq($22, 0) | eq($22, 1) | eq($22, 3) | eq($22, 4) | eq(2, $22)}, [eff(ctx([]), eq($22, 3), do(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $23, call(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $31, $32))), eff(ctx([]), eq(2, $22), do(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $36, $35)), eff(ctx([]), eq($22, 0), do(`pdaaal::parsing::SAXHandlerDispatch::set_dispatch`, lp(#0, #0), L(#1)'.pda_type_sax_handler)), eff(ctx([]), {!eq($22, 0) & !eq($22, 1) & !eq($22, 3) & !eq($22, 4) & !eq(2, $22)}, do(`operator<<`, L(#1)._errors, fnref(`std::endl`))), eff(ctx([]), eq($22, 1), do(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $23, res(`pdaaal::parsing::PdaTypeSaxHandler::get_pda_sax_handler`, $6))), eff(ctx([]), {!eq($22, 0) & !eq($22, 1) & !eq($22, 3) & !eq($22, 4) & !eq(2, $22)}, out(`<<`, L(#1)._errors, "error: Solver instance should only contain four elements.")), eff(ctx([]), eq($22, 3), do(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $31, $32)), eff(ctx([]), eq(2, $22), do(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $23, call(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $36, $35))), eff(ctx([]), {eq($22, 0) | eq($22, 1) | eq($22, 3) | eq($22, 4) | eq(2, $22)}, do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, L(#1))), eff(ctx([]), eq($22, 1), do(`pdaaal::parsing::PdaTypeSaxHandler::get_pda_sax_handler`, $6)), eff(ctx([]), eq(2, $22), do(`std::visit<pdaaal::parsing::SolverInstanceSaxHandler::>`, $33, $34)), eff(ctx([]), eq($22, 4), do(`pdaaal::parsing::SAXHandlerDispatch::set_dispatch`, lp(#0, #0), L(#1)'))]), _dispatch_binary: $7', _dispatch_boolean: $9', _dispatch_end_array: $10', _dispatch_end_object: $11', _dispatch_is_errored: $12', _dispatch_key: $13', _dispatch_null: $14', _dispatch_number_float: $15', _dispatch_number_integer: $16', _dispatch_number_unsigned: $17', _dispatch_parse_error: $18', _dispatch_start_array: $19', _dispatch_start_object: $20', _dispatch_string: $21'})	true
ret	res(`pdaaal::parsing::SolverInstanceSaxHandler::get_solver_instance`, L(#1))	true
== p::SolverInstanceJsonParser::parse | p::SolverInstanceJsonParser | (std::basic_istream<char, std::char_traits<char>> &, nlohmann::detail::input_format_t) | TI::Single | std::variant<SolverInstance<std::string, W0, std::string, false, TI::Single>, SolverInstance<std::string, Wu, std::string, false, TI::Single>, SolverInstance<std::string, Wi, std::string, false, TI::Single>, SolverInstance<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Single>, SolverInstance<std::string, weight<std::vector<int>, void>, std::string, false, TI::Single>, SolverInstance<std::string, W0, u64, true, TI::Single>, SolverInstance<std::string, Wu, u64, true, TI::Single>, SolverInstance<std::string, Wi, u64, true, TI::Single>, SolverInstance<std::string, weight<std::vector<u32>, void>, u64, true, TI::Single>, SolverInstance<std::string, weight<std::vector<int>, void>, u64, true, TI::Single>>
-- file: pdaaal-bin/parsing/SolverInstanceJsonParser.h
-- same: 68
== NfaBuilder::NfaBuilder | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 69
let	$1	new(`std::vector`)
do		set(self._label_function, param(#1)._label_mapping)	true
do		set(self._negated, false)	true
do		set(self._label_set, new(`std::unordered_set`))	true
do		set(self._nfa_stack, $1)	true
do		set(self._op_type_stack, $1)	true
== NfaBuilder::NfaBuilder | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 69
== NfaBuilder::NfaBuilder | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 69
== NfaBuilder::NfaBuilder | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 69
== NfaBuilder::NfaBuilder | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 69
== NfaBuilder::NfaBuilder | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 69
== NfaBuilder::NfaBuilder | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 69
== NfaBuilder::NfaBuilder | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 69
== NfaBuilder::NfaBuilder | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 69
== NfaBuilder::NfaBuilder | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 69
== NfaBuilder::NfaBuilder | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 69
== NfaBuilder::NfaBuilder | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 69
== NfaBuilder::success | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 70
let	$1	param(#1)._current_nfa
do		do(`pdaaal::NfaBuilder::get_nfa`, self)	true
do		do(`pdaaal::NFA::compile`, $1)	true
do		set($1, res(`pdaaal::NfaBuilder::get_nfa`, self))	true
== NfaBuilder::success | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 70
== NfaBuilder::success | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 70
== NfaBuilder::success | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 70
== NfaBuilder::success | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 70
== NfaBuilder::success | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 70
== NfaBuilder::success | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 70
== NfaBuilder::success | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 70
== NfaBuilder::success | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 70
== NfaBuilder::success | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 70
== NfaBuilder::success | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 70
== NfaBuilder::success | NfaBuilder<u32> | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> &, <> | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- same: 70
== NfaBuilder::open | NfaBuilder<u32> | () |  | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 71
do		do(`push`, self._op_type_stack, enum(`pdaaal::nfa_op_tag::BRACKET`, `pdaaal::nfa_op_tag`))	true
== NfaBuilder::close | NfaBuilder<u32> | () |  | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 72
let	$1	self._nfa_stack
let	$2	self._op_type_stack
let	$3	eq(back($2)', enum(`pdaaal::nfa_op_tag::BRACKET`, `pdaaal::nfa_op_tag`))
dom	loop(#0)	do(`pop`, $1)	!$3
do	loop(#0)	do(`pdaaal::NFA::or_extend`, back($1), back($1)')	eq(back($2)', enum(`pdaaal::nfa_op_tag::OR`, `pdaaal::nfa_op_tag`))
dom	loop(#0)	do(`pop`, $2)	!$3
do	loop(#0)	do(`pdaaal::NFA::concat`, back($1), back($1)')	eq(back($2)', enum(`pdaaal::nfa_op_tag::CONCAT`, `pdaaal::nfa_op_tag`))
do	loop(#0)	exit	$3
do		do(`pop`, $2)	true
== NfaBuilder::set_negation | NfaBuilder<u32> | () |  | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 73
do		set(self._negated, true)	true
== NfaBuilder::add_label | NfaBuilder<u32> | (const std::string &) |  | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 74
let	$1	self._label_function
do		invoke($1, param(#0))	true
do		do(`insert`, self._label_set, res_invoke($1, param(#0)))	true
== NfaBuilder::use_label_set | NfaBuilder<u32> | () |  | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 75
let	$1	new(`std::vector`)
let	$2	newobj(pdaaal::NFA::state_t{_accepting: false, _backedges: $1, _edges: $1})
let	$3	self._label_set
let	$4	newobj(pdaaal::NFA::state_t{_accepting: true, _backedges: $1, _edges: $1})
let	$5	self._nfa_stack
do		do(`push`, L(#3), $2)	!empty($3) | self._negated
do		do(`push`, L(#2), $2)	!empty($3) | self._negated
do		do(`push`, L(#3), $4)	!empty($3) | self._negated
do		do(`push`, L(#1), $4)	!empty($3) | self._negated
do		do(`push`, $4^._backedges, tuple{#0: $2, #1: 0})	!empty($3) | self._negated
do		do(`std::sort`, L(#0))	!empty($3) | self._negated
do		do(`push`, $2^._edges, pdaaal::NFA::edge_t{_destination: $4, _epsilon: false, _negated: self._negated, _symbols: L(#0)'})	!empty($3) | self._negated
do		do(`push`, $5, pdaaal::NFA{_accepting: L(#1)', _initial: L(#2)', _states: L(#3)''})	!empty($3) | self._negated
do		do(`push`, $5, pdaaal::NFA{_accepting: $1, _initial: $1, _states: $1})	!self._negated & empty($3)
do		do(`clear`, $3)	true
do		set(self._negated, false)	true
dom		init(L(#3), $1)	true
dom		init(L(#2), $1)	true
dom		init(L(#1), $1)	true
dom		init(L(#0), copyof($3))	true
== NfaBuilder::push_op | NfaBuilder<u32> | (nfa_op_tag) |  | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 76
do		do(`push`, self._op_type_stack, param(#0))	true
== NfaBuilder::get_nfa | NfaBuilder<u32> | () |  | NFA<u32>
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 77
let	$1	self._nfa_stack
let	$2	new(`std::vector`)
let	$3	pdaaal::NFA{_accepting: $2, _initial: $2, _states: $2}
do		do(`push`, $1, $3)	empty($1)
ret	$3	empty($1)
ret	back($1)	!empty($1)
== nfa_build_action::apply0 | nfa_build_action<nfa_expr<label_set<label, comment>, comment>> | (NfaBuilder<u32> &) | u32 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 78
let	$1	param(#0)._nfa_stack
let	$2	param(#0)._op_type_stack
let	$3	eq(enum(`pdaaal::nfa_op_tag::OR`, `pdaaal::nfa_op_tag`), back($2)')
do	loop(#0)	do(`pop`, $1)	!empty($2') & $3
do	loop(#0)	do(`pdaaal::NFA::or_extend`, back($1), back($1)')	!empty($2') & $3
do	loop(#0)	do(`pop`, $2)	!empty($2') & $3
do	loop(#0)	exit	!$3 | empty($2')
== nfa_build_action::apply0 | nfa_build_action<seq_expr<label_set<label, comment>, comment>> | (NfaBuilder<u32> &) | u32 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 79
let	$1	param(#0)._op_type_stack
let	$2	param(#0)._nfa_stack
let	$3	eq(enum(`pdaaal::nfa_op_tag::CONCAT`, `pdaaal::nfa_op_tag`), back($1)')
do		do(`pop`, $1)	true
do	loop(#0)	do(`pop`, $2)	!empty($1') & $3
do	loop(#0)	do(`pdaaal::NFA::concat`, back($2), back($2)')	!empty($1') & $3
do	loop(#0)	do(`pop`, $1)	!empty($1') & $3
do	loop(#0)	exit	!$3 | empty($1')
== nfa_build_action::apply0 | nfa_build_action<unary_expr<label_set<label, comment>, comment>> | (NfaBuilder<u32> &) | u32 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 80
do		do(`pdaaal::NfaBuilder::push_op`, param(#0), enum(`pdaaal::nfa_op_tag::CONCAT`, `pdaaal::nfa_op_tag`))	true
== nfa_build_action::apply0 | nfa_build_action<label_set<label, comment>> | (NfaBuilder<u32> &) | u32 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 81
do		do(`pdaaal::NfaBuilder::use_label_set`, param(#0))	true
== nfa_build_action::apply | nfa_build_action<label> | (const tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>> &, NfaBuilder<u32> &) | tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>>, u32 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 82
do		do(`pdaaal::NfaBuilder::add_label`, param(#1), call(`tao::pegtl::internal::action_input::string`, param(#0)))	true
== nfa_build_action::apply0 | nfa_build_action<wildcard> | (NfaBuilder<u32> &) | u32 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 83
let	$1	new(`std::vector`)
let	$2	newobj(pdaaal::NFA::state_t{_accepting: false, _backedges: $1, _edges: $1})
let	$3	newobj(pdaaal::NFA::state_t{_accepting: true, _backedges: $1, _edges: $1})
do		do(`push`, L(#0), $2)	true
do		do(`push`, L(#2), $2)	true
do		do(`push`, L(#0), $3)	true
do		do(`push`, L(#1), $3)	true
do		do(`push`, $3^._backedges, tuple{#0: $2, #1: 0})	true
do		do(`std::sort`, L(#3))	true
do		do(`push`, $2^._edges, pdaaal::NFA::edge_t{_destination: $3, _epsilon: false, _negated: true, _symbols: L(#3)'})	true
do		do(`push`, param(#0)._nfa_stack, pdaaal::NFA{_accepting: L(#1)', _initial: L(#2)', _states: L(#0)''})	true
dom		init(L(#0), $1)	true
dom		init(L(#2), $1)	true
dom		init(L(#1), $1)	true
dom		init(L(#3), copyof(new(`std::unordered_set`)))	true
== nfa_build_action::apply0 | nfa_build_action<bracket_open> | (NfaBuilder<u32> &) | u32 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 84
do		do(`pdaaal::NfaBuilder::open`, param(#0))	true
== nfa_build_action::apply0 | nfa_build_action<bracket_close> | (NfaBuilder<u32> &) | u32 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 85
do		do(`pdaaal::NfaBuilder::close`, param(#0))	true
== nfa_build_action::apply0 | nfa_build_action<negation> | (NfaBuilder<u32> &) | u32 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 86
do		do(`pdaaal::NfaBuilder::set_negation`, param(#0))	true
== nfa_build_action::apply0 | nfa_build_action<star_symbol> | (NfaBuilder<u32> &) | u32 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 87
do		do(`pdaaal::NFA::star_extend`, back(param(#0)._nfa_stack))	true
== nfa_build_action::apply0 | nfa_build_action<plus_symbol> | (NfaBuilder<u32> &) | u32 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 88
do		do(`pdaaal::NFA::plus_extend`, back(param(#0)._nfa_stack))	true
== nfa_build_action::apply0 | nfa_build_action<question_symbol> | (NfaBuilder<u32> &) | u32 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 89
do		do(`pdaaal::NFA::question_extend`, back(param(#0)._nfa_stack))	true
== nfa_build_action::apply0 | nfa_build_action<or_symbol> | (NfaBuilder<u32> &) | u32 | void
-- file: include/pdaaal/parsing/NfaParserGrammar.h
-- id: 90
do		do(`pdaaal::NfaBuilder::push_op`, param(#0), enum(`pdaaal::nfa_op_tag::OR`, `pdaaal::nfa_op_tag`))	true
== p::string_state::string_state | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 91
== p::string_state::string_state | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 91
== p::string_state::string_state | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 91
== p::string_state::string_state | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 91
== p::string_state::string_state | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 91
== p::string_state::string_state | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 91
== p::string_state::string_state | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 91
== p::string_state::string_state | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 91
== p::string_state::string_state | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 91
== p::string_state::string_state | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 91
== p::string_state::string_state | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 91
== p::string_state::string_state | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 91
== p::JsonParserContext::JsonParserContext | p::JsonParserContext<p::PdaSaxHelper::context_type, 3> | (p::PdaSaxHelper::context_type, u64, std::in_place_index_t<1>) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 55
== p::string_state::success | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 92
let	$1	param(#1)._state_mapping
let	$2	call(`pdaaal::PDA::exists_state`, param(#1)._pda, res_invoke($1, self))
do		invoke($1, self)	true
do		do(`push`, param(#1)._states, $2.#1)	$2.#0
do		throw(`tao::pegtl::parse_error`)	!$2.#0
== p::string_state::success | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 92
== p::string_state::success | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 92
== p::string_state::success | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 92
== p::string_state::success | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 92
== p::string_state::success | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 92
== p::string_state::success | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 92
== p::string_state::success | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 92
== p::string_state::success | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 92
== p::string_state::success | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 92
== p::string_state::success | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 92
== p::string_state::success | p::string_state | (const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, <p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> &> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 92
== p::PAutomatonBuilder::PAutomatonBuilder | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> | (PDA<std::string, W0, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 93
let	$1	new(`std::vector`)
let	$2	newobj(pdaaal::NFA::state_t{_accepting: true, _backedges: $1, _edges: $1})
do		do(`push`, L(#2), $2)	true
do		do(`push`, L(#1), $2)	true
do		do(`push`, L(#0), $2)	true
do		set(self._states, $1)	true
do		set(self._current_nfa, pdaaal::NFA{_accepting: L(#1)', _initial: L(#0)', _states: L(#2)'})	true
do		set(self._current_p_automaton, nullopt)	true
do		set(self._pda, addrof(param(#0)))	true
do		set(self._state_mapping, addrof(param(#1)))	true
do		set(self._label_mapping, fun(res(`pdaaal::PDA::insert_label`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::PDA::insert_label`, param(#0), lp(#0, #0)))]))	true
dom		init(L(#2), $1)	true
dom		init(L(#1), $1)	true
dom		init(L(#0), $1)	true
== p::PAutomatonBuilder::get_p_automaton | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> | () |  | PAutomaton<std::string, W0, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 94
ret	val(self._current_p_automaton)	true
== p::PAutomatonBuilder::add_state | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> | (const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 95
let	$1	self._state_mapping
let	$2	call(`pdaaal::PDA::exists_state`, self._pda, res_invoke($1, param(#0)))
do		invoke($1, param(#0))	true
do		do(`push`, self._states, $2.#1)	$2.#0
ret	$2.#0	true
== p::PAutomatonBuilder::accept_string | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> | (const std::string &, const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 96
let	$1	self._state_mapping
let	$2	call(`pdaaal::PDA::exists_state`, self._pda, res_invoke($1, param(#0)))
do		invoke($1, param(#0))	true
do		do(`push`, self._states, $2.#1)	$2.#0
do		throw(`tao::pegtl::parse_error`)	!$2.#0
== p::PAutomatonBuilder::get_label_map | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> | () const |  | const std::function<u32 (const std::string &)> &
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 97
ret	self._label_mapping	true
== p::PAutomatonBuilder::accept_nfa | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> | (NFA<u32> &&) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 98
let	$1	self._current_nfa
do		do(`pdaaal::NFA::compile`, $1)	true
do		set($1, param(#0))	true
== p::PAutomatonBuilder::finish_atom | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> | () |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 99
let	$1	self._current_p_automaton
let	$2	ctor(`pdaaal::PAutomaton`, self._pda, self._current_nfa, self._states'')
do		do(`std::sort`, self._states)	true
do		do(`std::unique`, self._states)	true
do		do(`erase`, self._states, res(`std::unique`, self._states), end(self._states))	true
do		do(`pdaaal::internal::PAutomaton::or_extend`, val($1), $2)	has($1)
do		do(`clear`, self._states)	true
do		set($1, some($2))	!has($1)
== p::PAutomatonBuilder::PAutomatonBuilder | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> | (PDA<std::string, W0, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 93
== p::PAutomatonBuilder::get_p_automaton | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> | () |  | PAutomaton<std::string, W0, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 94
== p::PAutomatonBuilder::add_state | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> | (const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 95
== p::PAutomatonBuilder::accept_string | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> | (const std::string &, const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 96
== p::PAutomatonBuilder::get_label_map | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> | () const |  | const std::function<u32 (const std::string &)> &
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 97
== p::PAutomatonBuilder::accept_nfa | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> | (NFA<u32> &&) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 98
== p::PAutomatonBuilder::finish_atom | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> | () |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 99
== utils::flags::fill | utils::flags<3> | () | 0UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- id: 100
ret	0	true
== p::PAutomatonBuilder::PAutomatonBuilder | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> | (PDA<std::string, Wu, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 93
== p::PAutomatonBuilder::get_p_automaton | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> | () |  | PAutomaton<std::string, Wu, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 94
== p::PAutomatonBuilder::add_state | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> | (const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 95
== p::PAutomatonBuilder::accept_string | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> | (const std::string &, const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 96
== p::PAutomatonBuilder::get_label_map | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> | () const |  | const std::function<u32 (const std::string &)> &
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 97
== p::PAutomatonBuilder::accept_nfa | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> | (NFA<u32> &&) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 98
== p::PAutomatonBuilder::finish_atom | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> | () |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 99
== p::PAutomatonBuilder::PAutomatonBuilder | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> | (PDA<std::string, Wu, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 93
== p::PAutomatonBuilder::get_p_automaton | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> | () |  | PAutomaton<std::string, Wu, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 94
== p::PAutomatonBuilder::add_state | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> | (const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 95
== p::PAutomatonBuilder::accept_string | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> | (const std::string &, const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 96
== p::PAutomatonBuilder::get_label_map | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> | () const |  | const std::function<u32 (const std::string &)> &
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 97
== p::PAutomatonBuilder::accept_nfa | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> | (NFA<u32> &&) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 98
== p::PAutomatonBuilder::finish_atom | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> | () |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 99
== p::PAutomatonBuilder::PAutomatonBuilder | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> | (PDA<std::string, Wi, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 93
== p::PAutomatonBuilder::get_p_automaton | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> | () |  | PAutomaton<std::string, Wi, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 94
== p::PAutomatonBuilder::add_state | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> | (const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 95
== p::PAutomatonBuilder::accept_string | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> | (const std::string &, const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 96
== p::PAutomatonBuilder::get_label_map | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> | () const |  | const std::function<u32 (const std::string &)> &
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 97
== p::PAutomatonBuilder::accept_nfa | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> | (NFA<u32> &&) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 98
== p::PAutomatonBuilder::finish_atom | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> | () |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 99
== p::PAutomatonBuilder::PAutomatonBuilder | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> | (PDA<std::string, Wi, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 93
== p::PAutomatonBuilder::get_p_automaton | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> | () |  | PAutomaton<std::string, Wi, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 94
== p::PAutomatonBuilder::add_state | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> | (const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 95
== p::PAutomatonBuilder::accept_string | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> | (const std::string &, const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 96
== p::PAutomatonBuilder::get_label_map | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> | () const |  | const std::function<u32 (const std::string &)> &
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 97
== p::PAutomatonBuilder::accept_nfa | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> | (NFA<u32> &&) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 98
== p::PAutomatonBuilder::finish_atom | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> | () |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 99
== p::PAutomatonBuilder::PAutomatonBuilder | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> | (PDA<std::string, W0, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 93
== p::PAutomatonBuilder::get_p_automaton | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> | () |  | PAutomaton<std::string, W0, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 94
== p::PAutomatonBuilder::add_state | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> | (const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 95
== p::PAutomatonBuilder::accept_string | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> | (const std::string &, const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 96
== p::PAutomatonBuilder::get_label_map | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> | () const |  | const std::function<u32 (const std::string &)> &
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 97
== p::PAutomatonBuilder::accept_nfa | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> | (NFA<u32> &&) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 98
== p::PAutomatonBuilder::finish_atom | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> | () |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 99
== p::PAutomatonBuilder::PAutomatonBuilder | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> | (PDA<std::string, W0, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 93
== p::PAutomatonBuilder::get_p_automaton | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> | () |  | PAutomaton<std::string, W0, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 94
== p::PAutomatonBuilder::add_state | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> | (const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 95
== p::PAutomatonBuilder::accept_string | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> | (const std::string &, const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 96
== p::PAutomatonBuilder::get_label_map | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> | () const |  | const std::function<u32 (const std::string &)> &
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 97
== p::PAutomatonBuilder::accept_nfa | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> | (NFA<u32> &&) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 98
== p::PAutomatonBuilder::finish_atom | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> | () |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 99
== p::PAutomatonBuilder::PAutomatonBuilder | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> | (PDA<std::string, Wu, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 93
== p::PAutomatonBuilder::get_p_automaton | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> | () |  | PAutomaton<std::string, Wu, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 94
== p::PAutomatonBuilder::add_state | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> | (const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 95
== p::PAutomatonBuilder::accept_string | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> | (const std::string &, const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 96
== p::PAutomatonBuilder::get_label_map | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> | () const |  | const std::function<u32 (const std::string &)> &
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 97
== p::PAutomatonBuilder::accept_nfa | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> | (NFA<u32> &&) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 98
== p::PAutomatonBuilder::finish_atom | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> | () |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 99
== p::PAutomatonBuilder::PAutomatonBuilder | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> | (PDA<std::string, Wu, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 93
== p::PAutomatonBuilder::get_p_automaton | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> | () |  | PAutomaton<std::string, Wu, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 94
== p::PAutomatonBuilder::add_state | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> | (const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 95
== p::PAutomatonBuilder::accept_string | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> | (const std::string &, const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 96
== p::PAutomatonBuilder::get_label_map | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> | () const |  | const std::function<u32 (const std::string &)> &
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 97
== p::PAutomatonBuilder::accept_nfa | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> | (NFA<u32> &&) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 98
== p::PAutomatonBuilder::finish_atom | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> | () |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 99
== p::PAutomatonBuilder::PAutomatonBuilder | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> | (PDA<std::string, Wi, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 93
== p::PAutomatonBuilder::get_p_automaton | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> | () |  | PAutomaton<std::string, Wi, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 94
== p::PAutomatonBuilder::add_state | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> | (const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 95
== p::PAutomatonBuilder::accept_string | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> | (const std::string &, const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 96
== p::PAutomatonBuilder::get_label_map | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> | () const |  | const std::function<u32 (const std::string &)> &
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 97
== p::PAutomatonBuilder::accept_nfa | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> | (NFA<u32> &&) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 98
== p::PAutomatonBuilder::finish_atom | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> | () |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 99
== p::PAutomatonBuilder::PAutomatonBuilder | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> | (PDA<std::string, Wi, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 93
== p::PAutomatonBuilder::get_p_automaton | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> | () |  | PAutomaton<std::string, Wi, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 94
== p::PAutomatonBuilder::add_state | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> | (const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 95
== p::PAutomatonBuilder::accept_string | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> | (const std::string &, const tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &) | tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 96
== p::PAutomatonBuilder::get_label_map | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> | () const |  | const std::function<u32 (const std::string &)> &
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 97
== p::PAutomatonBuilder::accept_nfa | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> | (NFA<u32> &&) |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 98
== p::PAutomatonBuilder::finish_atom | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> | () |  | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 99
== p::make_PAutomatonBuilder |  | (PDA<std::string, W0, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) | TI::Pair, std::string, W0, std::string, false | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 101
let	$1	new(`std::vector`)
let	$2	newobj(pdaaal::NFA::state_t{_accepting: true, _backedges: $1, _edges: $1})
do		do(`push`, L(#2), $2)	true
do		do(`push`, L(#1), $2)	true
do		do(`push`, L(#0), $2)	true
dom		init(L(#2), $1)	true
dom		init(L(#1), $1)	true
dom		init(L(#0), $1)	true
ret	pdaaal::parsing::PAutomatonBuilder{_current_nfa: pdaaal::NFA{_accepting: L(#1)', _initial: L(#0)', _states: L(#2)'}, _current_p_automaton: nullopt, _label_mapping: fun(undef, []), _pda: addrof(param(#0)), _state_mapping: addrof(param(#1)), _states: $1}	true
== p::make_PAutomatonBuilder |  | (PDA<std::string, W0, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) | TI::Pair, std::string, W0, u64, true | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 101
== p::make_PAutomatonBuilder |  | (PDA<std::string, Wu, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) | TI::Pair, std::string, Wu, std::string, false | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 101
== p::JsonParserContext::is_object | p::JsonParserContext<p::PdaSaxHelper::context_type, 3> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 102
ret	eq(index(self._v), 0)	true
== p::make_PAutomatonBuilder |  | (PDA<std::string, Wu, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) | TI::Pair, std::string, Wu, u64, true | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 101
== p::make_PAutomatonBuilder |  | (PDA<std::string, Wi, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) | TI::Pair, std::string, Wi, std::string, false | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 101
== p::make_PAutomatonBuilder |  | (PDA<std::string, Wi, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) | TI::Pair, std::string, Wi, u64, true | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 101
== p::make_PAutomatonBuilder |  | (PDA<std::string, W0, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) | TI::Single, std::string, W0, std::string, false | p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 101
== p::make_PAutomatonBuilder |  | (PDA<std::string, W0, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) | TI::Single, std::string, W0, u64, true | p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 101
== p::make_PAutomatonBuilder |  | (PDA<std::string, Wu, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) | TI::Single, std::string, Wu, std::string, false | p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 101
== p::make_PAutomatonBuilder |  | (PDA<std::string, Wu, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) | TI::Single, std::string, Wu, u64, true | p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 101
== p::make_PAutomatonBuilder |  | (PDA<std::string, Wi, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) | TI::Single, std::string, Wi, std::string, false | p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 101
== p::make_PAutomatonBuilder |  | (PDA<std::string, Wi, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) | TI::Single, std::string, Wi, u64, true | p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 101
== p::p_automaton_build_action::apply0 | p::p_automaton_build_action<p::p_automaton_atom<p::p_automaton_state>> | (p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> &) | std::string, W0, std::string, false, TI::Pair | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 103
let	$1	param(#0)._states
let	$2	param(#0)._current_p_automaton
let	$3	ctor(`pdaaal::PAutomaton`, param(#0)._pda, param(#0)._current_nfa, $1'')
do		do(`std::sort`, $1)	true
do		do(`std::unique`, $1)	true
do		do(`erase`, $1, res(`std::unique`, $1), end($1))	true
do		do(`pdaaal::internal::PAutomaton::or_extend`, val($2), $3)	has($2)
do		do(`clear`, $1)	true
do		set($2, some($3))	!has($2)
== p::p_automaton_build_action::apply0 | p::p_automaton_build_action<p::p_automaton_atom<p::p_automaton_state>> | (p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> &) | std::string, W0, u64, true, TI::Pair | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 103
== p::p_automaton_build_action::apply0 | p::p_automaton_build_action<p::p_automaton_atom<p::p_automaton_state>> | (p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> &) | std::string, Wu, std::string, false, TI::Pair | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 103
== p::p_automaton_build_action::apply0 | p::p_automaton_build_action<p::p_automaton_atom<p::p_automaton_state>> | (p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> &) | std::string, Wu, u64, true, TI::Pair | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 103
== p::p_automaton_build_action::apply0 | p::p_automaton_build_action<p::p_automaton_atom<p::p_automaton_state>> | (p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> &) | std::string, Wi, std::string, false, TI::Pair | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 103
== p::p_automaton_build_action::apply0 | p::p_automaton_build_action<p::p_automaton_atom<p::p_automaton_state>> | (p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> &) | std::string, Wi, u64, true, TI::Pair | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 103
== p::p_automaton_build_action::apply0 | p::p_automaton_build_action<p::p_automaton_atom<p::p_automaton_state>> | (p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> &) | std::string, W0, std::string, false, TI::Single | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 103
== p::p_automaton_build_action::apply0 | p::p_automaton_build_action<p::p_automaton_atom<p::p_automaton_state>> | (p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> &) | std::string, W0, u64, true, TI::Single | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 103
== p::p_automaton_build_action::apply0 | p::p_automaton_build_action<p::p_automaton_atom<p::p_automaton_state>> | (p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> &) | std::string, Wu, std::string, false, TI::Single | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 103
== p::p_automaton_build_action::apply0 | p::p_automaton_build_action<p::p_automaton_atom<p::p_automaton_state>> | (p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> &) | std::string, Wu, u64, true, TI::Single | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 103
== p::p_automaton_build_action::apply0 | p::p_automaton_build_action<p::p_automaton_atom<p::p_automaton_state>> | (p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> &) | std::string, Wi, std::string, false, TI::Single | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 103
== p::p_automaton_build_action::apply0 | p::p_automaton_build_action<p::p_automaton_atom<p::p_automaton_state>> | (p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> &) | std::string, Wi, u64, true, TI::Single | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 103
== p::p_automaton_build_action::apply | p::p_automaton_build_action<p::p_automaton_state_1> | (const tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>> &, p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Pair> &) | tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>>, std::string, W0, std::string, false, TI::Pair | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 104
let	$1	param(#1)._state_mapping
let	$2	call(`tao::pegtl::internal::action_input::string`, param(#0))
let	$3	call(`pdaaal::PDA::exists_state`, param(#1)._pda, res_invoke($1, $2))
do		invoke($1, $2)	true
do		do(`push`, param(#1)._states, $3.#1)	$3.#0
do		throw(`tao::pegtl::parse_error`)	!$3.#0
== p::p_automaton_build_action::apply | p::p_automaton_build_action<p::p_automaton_state_1> | (const tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>> &, p::PAutomatonBuilder<std::string, W0, u64, true, TI::Pair> &) | tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>>, std::string, W0, u64, true, TI::Pair | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 104
== p::p_automaton_build_action::apply | p::p_automaton_build_action<p::p_automaton_state_1> | (const tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>> &, p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Pair> &) | tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>>, std::string, Wu, std::string, false, TI::Pair | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 104
== p::p_automaton_build_action::apply | p::p_automaton_build_action<p::p_automaton_state_1> | (const tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>> &, p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Pair> &) | tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>>, std::string, Wu, u64, true, TI::Pair | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 104
== p::p_automaton_build_action::apply | p::p_automaton_build_action<p::p_automaton_state_1> | (const tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>> &, p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Pair> &) | tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>>, std::string, Wi, std::string, false, TI::Pair | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 104
== p::p_automaton_build_action::apply | p::p_automaton_build_action<p::p_automaton_state_1> | (const tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>> &, p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Pair> &) | tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>>, std::string, Wi, u64, true, TI::Pair | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 104
== p::p_automaton_build_action::apply | p::p_automaton_build_action<p::p_automaton_state_1> | (const tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>> &, p::PAutomatonBuilder<std::string, W0, std::string, false, TI::Single> &) | tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>>, std::string, W0, std::string, false, TI::Single | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 104
== p::p_automaton_build_action::apply | p::p_automaton_build_action<p::p_automaton_state_1> | (const tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>> &, p::PAutomatonBuilder<std::string, W0, u64, true, TI::Single> &) | tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>>, std::string, W0, u64, true, TI::Single | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 104
== p::p_automaton_build_action::apply | p::p_automaton_build_action<p::p_automaton_state_1> | (const tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>> &, p::PAutomatonBuilder<std::string, Wu, std::string, false, TI::Single> &) | tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>>, std::string, Wu, std::string, false, TI::Single | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 104
== p::p_automaton_build_action::apply | p::p_automaton_build_action<p::p_automaton_state_1> | (const tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>> &, p::PAutomatonBuilder<std::string, Wu, u64, true, TI::Single> &) | tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>>, std::string, Wu, u64, true, TI::Single | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 104
== p::p_automaton_build_action::apply | p::p_automaton_build_action<p::p_automaton_state_1> | (const tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>> &, p::PAutomatonBuilder<std::string, Wi, std::string, false, TI::Single> &) | tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>>, std::string, Wi, std::string, false, TI::Single | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 104
== p::p_automaton_build_action::apply | p::p_automaton_build_action<p::p_automaton_state_1> | (const tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>> &, p::PAutomatonBuilder<std::string, Wi, u64, true, TI::Single> &) | tao::pegtl::internal::action_input<tao::pegtl::memory_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf, std::string>>, std::string, Wi, u64, true, TI::Single | void
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 104
== p::PAutomatonParser::parse_file | p::PAutomatonParser | (const std::string &, PDA<std::string, W0, fut::vector, std::string, false> &) | TI::Pair, PDA<std::string, W0, fut::vector, std::string, false> | PAutomaton<std::string, W0, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 105
let	$1	ctor(`tao::pegtl::file_input`, ctor(`std::filesystem::path`, param(#0), enum(`std::filesystem::path::auto_format`, `std::filesystem::path::format`)))
do		do(`pdaaal::parsing::PAutomatonParser::parse`, $1, param(#1))	true
dom		init(L(#0), $1)	true
ret	res(`pdaaal::parsing::PAutomatonParser::parse`, $1, param(#1))	true
== p::PAutomatonParser::parse_file | p::PAutomatonParser | (const std::string &, PDA<std::string, W0, fut::vector, u64, true> &) | TI::Pair, PDA<std::string, W0, fut::vector, u64, true> | PAutomaton<std::string, W0, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 105
== p::PAutomatonParser::parse_file | p::PAutomatonParser | (const std::string &, PDA<std::string, Wu, fut::vector, std::string, false> &) | TI::Pair, PDA<std::string, Wu, fut::vector, std::string, false> | PAutomaton<std::string, Wu, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 105
== p::PAutomatonParser::parse_file | p::PAutomatonParser | (const std::string &, PDA<std::string, Wu, fut::vector, u64, true> &) | TI::Pair, PDA<std::string, Wu, fut::vector, u64, true> | PAutomaton<std::string, Wu, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 105
== p::JsonParserContext::is_array | p::JsonParserContext<p::PdaSaxHelper::context_type, 3> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 106
ret	eq(index(self._v), 1)	true
== p::PAutomatonParser::parse_file | p::PAutomatonParser | (const std::string &, PDA<std::string, Wi, fut::vector, std::string, false> &) | TI::Pair, PDA<std::string, Wi, fut::vector, std::string, false> | PAutomaton<std::string, Wi, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 105
== p::PAutomatonParser::parse_file | p::PAutomatonParser | (const std::string &, PDA<std::string, Wi, fut::vector, u64, true> &) | TI::Pair, PDA<std::string, Wi, fut::vector, u64, true> | PAutomaton<std::string, Wi, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 105
== p::PAutomatonParser::parse_file | p::PAutomatonParser | (const std::string &, PDA<std::string, W0, fut::vector, std::string, false> &) | TI::Single, PDA<std::string, W0, fut::vector, std::string, false> | PAutomaton<std::string, W0, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 105
== p::PAutomatonParser::parse_file | p::PAutomatonParser | (const std::string &, PDA<std::string, W0, fut::vector, u64, true> &) | TI::Single, PDA<std::string, W0, fut::vector, u64, true> | PAutomaton<std::string, W0, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 105
== p::PAutomatonParser::parse_file | p::PAutomatonParser | (const std::string &, PDA<std::string, Wu, fut::vector, std::string, false> &) | TI::Single, PDA<std::string, Wu, fut::vector, std::string, false> | PAutomaton<std::string, Wu, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 105
== p::PAutomatonParser::parse_file | p::PAutomatonParser | (const std::string &, PDA<std::string, Wu, fut::vector, u64, true> &) | TI::Single, PDA<std::string, Wu, fut::vector, u64, true> | PAutomaton<std::string, Wu, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 105
== p::PAutomatonParser::parse_file | p::PAutomatonParser | (const std::string &, PDA<std::string, Wi, fut::vector, std::string, false> &) | TI::Single, PDA<std::string, Wi, fut::vector, std::string, false> | PAutomaton<std::string, Wi, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 105
== p::PAutomatonParser::parse_file | p::PAutomatonParser | (const std::string &, PDA<std::string, Wi, fut::vector, u64, true> &) | TI::Single, PDA<std::string, Wi, fut::vector, u64, true> | PAutomaton<std::string, Wi, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 105
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, W0, fut::vector, std::string, false> &) | TI::Pair, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, W0 | PAutomaton<std::string, W0, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 107
let	$1	fun(lp(#0, #0), [])
do		do(`pdaaal::parsing::PAutomatonParser::parse`, param(#0), param(#1), $1)	true
ret	res(`pdaaal::parsing::PAutomatonParser::parse`, param(#0), param(#1), $1)	true
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wu, fut::vector, std::string, false> &) | TI::Pair, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, Wu | PAutomaton<std::string, Wu, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 107
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wi, fut::vector, std::string, false> &) | TI::Pair, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, Wi | PAutomaton<std::string, Wi, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 107
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, W0, fut::vector, std::string, false> &) | TI::Single, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, W0 | PAutomaton<std::string, W0, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 107
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wu, fut::vector, std::string, false> &) | TI::Single, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, Wu | PAutomaton<std::string, Wu, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 107
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wi, fut::vector, std::string, false> &) | TI::Single, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, Wi | PAutomaton<std::string, Wi, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 107
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, W0, fut::vector, u64, true> &) | TI::Pair, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, W0, true | PAutomaton<std::string, W0, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 108
let	$1	fun(call(`std::stoul`, lp(#0, #0), 0, 10), [])
do		do(`pdaaal::parsing::PAutomatonParser::parse`, param(#0), param(#1), $1)	true
ret	res(`pdaaal::parsing::PAutomatonParser::parse`, param(#0), param(#1), $1)	true
== p::JsonParserContext::got_flag | p::JsonParserContext<p::PdaSaxHelper::context_type, 3> | (unsigned char) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 109
let	$1	get(self._v, `0UL`)._mask
do		set($1, band(bnot(param(#0)), $1))	true
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wu, fut::vector, u64, true> &) | TI::Pair, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, Wu, true | PAutomaton<std::string, Wu, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 108
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wi, fut::vector, u64, true> &) | TI::Pair, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, Wi, true | PAutomaton<std::string, Wi, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 108
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, W0, fut::vector, u64, true> &) | TI::Single, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, W0, true | PAutomaton<std::string, W0, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 108
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wu, fut::vector, u64, true> &) | TI::Single, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, Wu, true | PAutomaton<std::string, Wu, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 108
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wi, fut::vector, u64, true> &) | TI::Single, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, Wi, true | PAutomaton<std::string, Wi, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 108
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, W0, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) | TI::Pair, std::string, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, PDA<std::string, W0, fut::vector, std::string, false> | PAutomaton<std::string, W0, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- id: 110
let	$1	res(`pdaaal::parsing::make_PAutomatonBuilder`, param(#1), param(#2))
let	$2	exc(`tao::pegtl::parse_error`)
let	$3	caught(`tao::pegtl::parse_error`)
let	$4	call(`tao::pegtl::parse_error::positions`, $2)[0]
do		do(`pdaaal::parsing::make_PAutomatonBuilder`, param(#1), param(#2))	true
do		do(`tao::pegtl::parse`, param(#0), $1)	true
do		out(`<<`, L(#0), call(`tao::pegtl::parse_error::what`, $2))	$3
dom		do(`operator<<`, L(#0), fnref(`std::endl`))	$3
do		out(`<<`, L(#0), call(`tao::pegtl::memory_input::line_at`, param(#0)', $4))	$3
do		out(`<<`, L(#0), call(`std::setw`, cast(#32, $4.column)))	$3
do		out(`<<`, L(#0), "^")	$3
do		throw(`std::runtime_error`)	$3
dom		init(L(#1), $1)	true
dom		init(L(#0), new(`std::basic_stringstream`))	true
ret	val(L(#1)'._current_p_automaton)'	true
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, W0, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) | TI::Pair, u64, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, PDA<std::string, W0, fut::vector, u64, true> | PAutomaton<std::string, W0, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 110
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wu, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) | TI::Pair, std::string, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, PDA<std::string, Wu, fut::vector, std::string, false> | PAutomaton<std::string, Wu, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 110
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wu, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) | TI::Pair, u64, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, PDA<std::string, Wu, fut::vector, u64, true> | PAutomaton<std::string, Wu, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 110
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wi, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) | TI::Pair, std::string, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, PDA<std::string, Wi, fut::vector, std::string, false> | PAutomaton<std::string, Wi, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 110
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wi, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) | TI::Pair, u64, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, PDA<std::string, Wi, fut::vector, u64, true> | PAutomaton<std::string, Wi, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 110
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, W0, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) | TI::Single, std::string, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, PDA<std::string, W0, fut::vector, std::string, false> | PAutomaton<std::string, W0, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 110
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, W0, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) | TI::Single, u64, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, PDA<std::string, W0, fut::vector, u64, true> | PAutomaton<std::string, W0, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 110
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wu, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) | TI::Single, std::string, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, PDA<std::string, Wu, fut::vector, std::string, false> | PAutomaton<std::string, Wu, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 110
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wu, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) | TI::Single, u64, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, PDA<std::string, Wu, fut::vector, u64, true> | PAutomaton<std::string, Wu, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 110
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wi, fut::vector, std::string, false> &, const std::function<std::string (const std::string &)> &) | TI::Single, std::string, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, PDA<std::string, Wi, fut::vector, std::string, false> | PAutomaton<std::string, Wi, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 110
== p::PAutomatonParser::parse | p::PAutomatonParser | (tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf> &, PDA<std::string, Wi, fut::vector, u64, true> &, const std::function<u64 (const std::string &)> &) | TI::Single, u64, tao::pegtl::file_input<tao::pegtl::tracking_mode::eager, tao::pegtl::eol::lf_crlf>, PDA<std::string, Wi, fut::vector, u64, true> | PAutomaton<std::string, Wi, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonParser.h
-- same: 110
== stopwatch::started | stopwatch | () const |  | std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<long, std::ratio<1, 1000000000>>>
-- file: pdaaal-bin/utils/stopwatch.h
-- id: 111
ret	self._start	true
== stopwatch::stopped | stopwatch | () const |  | std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<long, std::ratio<1, 1000000000>>>
-- file: pdaaal-bin/utils/stopwatch.h
-- id: 112
ret	self._stop	true
== stopwatch::running | stopwatch | () const |  | bool
-- file: pdaaal-bin/utils/stopwatch.h
-- id: 113
ret	self._running	true
== stopwatch::stopwatch | stopwatch | (bool) |  | void
-- file: pdaaal-bin/utils/stopwatch.h
-- id: 114
let	$1	call(`std::chrono::system_clock::now`)
do		set(self._running, true)	param(#0)
do		set(self._running, false)	!param(#0)
do		set(self._start, $1)	true
do		set(self._stop, $1)	true
== stopwatch::start | stopwatch | () |  | void
-- file: pdaaal-bin/utils/stopwatch.h
-- id: 115
do		set(self._running, true)	true
do		set(self._start, lin(#0, mul(#-1, self._stop), call(`std::chrono::system_clock::now`), self._start))	!self._running
== stopwatch::stop | stopwatch | () |  | void
-- file: pdaaal-bin/utils/stopwatch.h
-- id: 116
do		set(self._stop, call(`std::chrono::system_clock::now`))	self._running
do		set(self._running, false)	true
== stopwatch::duration | stopwatch | () const |  | double
-- file: pdaaal-bin/utils/stopwatch.h
-- id: 117
ret	count(call(`std::chrono::duration_cast`, lin(#0, self._stop, mul(#-1, self._start))))	true
== stopwatch::operator<< | stopwatch | (std::basic_ostream<char, std::char_traits<char>> &) const |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: pdaaal-bin/utils/stopwatch.h
-- id: 118
do		do(`operator<<`, param(#0), call(`stopwatch::duration`, self))	true
do		out(`<<`, param(#0), " s")	true
ret	param(#0)	true
== p::Parsing::Parsing | p::Parsing | (const std::string &) |  | void
-- file: pdaaal-bin/parsing/Parsing.h
-- id: 119
let	$1	self.input_options
let	$2	res(`boost::program_options::options_description::add_options`, $1)
let	$3	self.input_file
let	$4	call(`boost::program_options::value`, addr($3))
let	$5	"Input file. To read from std input specify '--input -'."
let	$6	res_invoke($2, "input", $4, $5)
let	$7	call(`boost::program_options::bool_switch`, addr(self.msgpack))
let	$8	"Use the binary MessagePack input format"
let	$9	res_invoke($6, "msgpack", $7, $8)
let	$10	call(`boost::program_options::value`, addr(self.pda_file))
let	$11	"PDA JSON file input."
let	$12	res_invoke($9, "pda,p", $10, $11)
let	$13	self.input_format
let	$14	call(`boost::program_options::value`, addr($13))
let	$15	"Input format. pdaaal|moped (default=pdaaal)."
let	$16	res_invoke($12, "format", $14, $15)
let	$17	self.weight_type
let	$18	call(`boost::program_options::value`, addr($17))
let	$19	"Weight type. none|uint|int (default=none)."
let	$20	res_invoke($16, "weight", $18, $19)
let	$21	self.use_state_names
let	$22	call(`boost::program_options::bool_switch`, addr($21))
let	$23	"Enable named states (instead of index)."
let	$24	res_invoke($20, "state-names", $22, $23)
let	$25	"initial-automaton,i"
let	$26	self.initial_pa_file
let	$27	call(`boost::program_options::value`, addr($26))
let	$28	"Initial PAutomaton file input."
let	$29	res_invoke($24, $25, $27, $28)
let	$30	"final-automaton,f"
let	$31	self.final_pa_file
let	$32	call(`boost::program_options::value`, addr($31))
let	$33	"Final PAutomaton file input."
let	$34	self.json_automata
let	$35	gvar(`boost::program_options::options_description::m_default_line_length`)
let	$36	call(`std::chrono::system_clock::now`)
do		do(`add_options`, $1)	true
do		invoke($2, "input", $4, $5)	true
do		invoke($6, "msgpack", $7, $8)	true
do		invoke($9, "pda,p", $10, $11)	true
do		invoke($12, "format", $14, $15)	true
do		invoke($16, "weight", $18, $19)	true
do		invoke($20, "state-names", $22, $23)	true
do		invoke($24, $25, $27, $28)	true
do		invoke($29, $30, $32, $33)	true
do		invoke(res_invoke($29, $30, $32, $33), "json-automata", call(`boost::program_options::bool_switch`, addr($34)), "Parse P-automata files using JSON format.")	true
do		set($1, ctor(`boost::program_options::options_description`, param(#0), $35, opdiv($35, 2)))	true
do		set($3, "")	true
do		set($13, "pdaaal")	true
do		set($17, "none")	true
do		set($21, false)	true
do		set(self.msgpack, false)	true
do		set(self.pda_file, "")	true
do		set($26, "")	true
do		set($31, "")	true
do		set($34, false)	true
do		set(self.parsing_stopwatch, stopwatch{_running: false, _start: $36, _stop: $36})	true
== p::Parsing::options | p::Parsing | () const |  | const boost::program_options::options_description &
-- file: pdaaal-bin/parsing/Parsing.h
-- id: 120
ret	self.input_options	true
== p::Parsing::duration | p::Parsing | () const |  | double
-- file: pdaaal-bin/parsing/Parsing.h
-- id: 121
ret	call(`stopwatch::duration`, self.parsing_stopwatch)	true
== p::Parsing::parse_instance | p::Parsing | () | TI::Pair | std::variant<SolverInstance<std::string, W0, std::string, false, TI::Pair>, SolverInstance<std::string, Wu, std::string, false, TI::Pair>, SolverInstance<std::string, Wi, std::string, false, TI::Pair>, SolverInstance<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Pair>, SolverInstance<std::string, weight<std::vector<int>, void>, std::string, false, TI::Pair>, SolverInstance<std::string, W0, u64, true, TI::Pair>, SolverInstance<std::string, Wu, u64, true, TI::Pair>, SolverInstance<std::string, Wi, u64, true, TI::Pair>, SolverInstance<std::string, weight<std::vector<u32>, void>, u64, true, TI::Pair>, SolverInstance<std::string, weight<std::vector<int>, void>, u64, true, TI::Pair>>
-- file: pdaaal-bin/parsing/Parsing.h
-- id: 122
let	$1	self.parsing_stopwatch
let	$2	empty(self.pda_file)
let	$3	self.initial_pa_file
let	$4	self.final_pa_file
let	$5	self.input_file
let	$6	gvar(`std::cin`)
let	$7	res(`std::basic_ifstream::is_open`, L(#1))
let	$8	self.json_automata
do		do(`stopwatch::start`, $1)	!$2 & !empty($3) & !empty($4) & empty($5)
do		do(`pdaaal::parsing::Parsing::parse_pda`, self, false)	!$2 & !empty($3) & !empty($4) & empty($5)
do		do(`stopwatch::stop`, $1)	!$2 & !empty($3) & !empty($4) & empty($5)
do		do(`pdaaal::parsing::Parsing::parse_instance_stream`, self, $6)	!empty($5) & eq($5, "-") | $2 & empty($5) | empty($3) & empty($5) | empty($4) & empty($5)
do		do(`is_open`, L(#1))	!empty($5) & !eq($5, "-")
do		out(`<<`, L(#0), "error: Could not open file: ")	!$7 & !empty($5) & !eq($5, "-")
do		out(`<<`, L(#0), $5)	!$7 & !empty($5) & !eq($5, "-")
do		do(`operator<<`, L(#0), fnref(`std::endl`))	!$7 & !empty($5) & !eq($5, "-")
do		throw(`std::runtime_error`)	!$7 & !empty($5) & !eq($5, "-")
do		do(`pdaaal::parsing::Parsing::parse_instance_stream`, self, L(#1)')	!empty($5) & !eq($5, "-") & $7
dom		init(L(#1), ctor(`std::basic_ifstream`, $5, enum(`std::_S_in`, `std::_Ios_Openmode`)))	true
dom		init(L(#0), new(`std::basic_stringstream`))	true
ret	call(`std::visit<pdaaal::parsing::Parsing::>`, fun(ite([$8, pdaaal::SolverInstance{_pda: lp(#0, #0)'', _product: ctor(`pdaaal::PAutomatonProduct`, lp(#0, #0)'', res(`pdaaal::parsing::PAutomatonJsonParser::parse`, $3, lp(#0, #0)), res(`pdaaal::parsing::PAutomatonJsonParser::parse`, $4, lp(#0, #0)))}, {!$8}, pdaaal::SolverInstance{_pda: lp(#0, #0)'', _product: ctor(`pdaaal::PAutomatonProduct`, lp(#0, #0)'', res(`pdaaal::parsing::PAutomatonParser::parse_file`, $3, lp(#0, #0)), res(`pdaaal::parsing::PAutomatonParser::parse_file`, $4, lp(#0, #0)'))}]), [eff(ctx([]), $8, do(`pdaaal::parsing::PAutomatonJsonParser::parse`, $3, lp(#0, #0))), eff(ctx([]), {!$8}, do(`pdaaal::parsing::PAutomatonParser::parse_file`, $4, lp(#0, #0)')), eff(ctx([]), $8, do(`pdaaal::parsing::PAutomatonJsonParser::parse`, $4, lp(#0, #0))), eff(ctx([]), {!$8}, do(`pdaaal::parsing::PAutomatonParser::parse_file`, $3, lp(#0, #0)))]), res(`pdaaal::parsing::Parsing::parse_pda`, self, false))	!$2 & !empty($3) & !empty($4) & empty($5)
ret	res(`pdaaal::parsing::Parsing::parse_instance_stream`, self, $6)	!empty($5) & eq($5, "-") | $2 & empty($5) | empty($3) & empty($5) | empty($4) & empty($5)
ret	res(`pdaaal::parsing::Parsing::parse_instance_stream`, self, L(#1)')	!empty($5) & !eq($5, "-") & $7
== p::Parsing::parse_instance | p::Parsing | () | TI::Single | std::variant<SolverInstance<std::string, W0, std::string, false, TI::Single>, SolverInstance<std::string, Wu, std::string, false, TI::Single>, SolverInstance<std::string, Wi, std::string, false, TI::Single>, SolverInstance<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Single>, SolverInstance<std::string, weight<std::vector<int>, void>, std::string, false, TI::Single>, SolverInstance<std::string, W0, u64, true, TI::Single>, SolverInstance<std::string, Wu, u64, true, TI::Single>, SolverInstance<std::string, Wi, u64, true, TI::Single>, SolverInstance<std::string, weight<std::vector<u32>, void>, u64, true, TI::Single>, SolverInstance<std::string, weight<std::vector<int>, void>, u64, true, TI::Single>>
-- file: pdaaal-bin/parsing/Parsing.h
-- same: 122
== p::Parsing::parse_instance_stream | p::Parsing | (std::basic_istream<char, std::char_traits<char>> &) | TI::Pair | std::variant<SolverInstance<std::string, W0, std::string, false, TI::Pair>, SolverInstance<std::string, Wu, std::string, false, TI::Pair>, SolverInstance<std::string, Wi, std::string, false, TI::Pair>, SolverInstance<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Pair>, SolverInstance<std::string, weight<std::vector<int>, void>, std::string, false, TI::Pair>, SolverInstance<std::string, W0, u64, true, TI::Pair>, SolverInstance<std::string, Wu, u64, true, TI::Pair>, SolverInstance<std::string, Wi, u64, true, TI::Pair>, SolverInstance<std::string, weight<std::vector<u32>, void>, u64, true, TI::Pair>, SolverInstance<std::string, weight<std::vector<int>, void>, u64, true, TI::Pair>>
-- file: pdaaal-bin/parsing/Parsing.h
-- id: 123
let	$1	self.parsing_stopwatch
let	$2	enum(`nlohmann::detail::input_format_t::msgpack`, `nlohmann::detail::input_format_t`)
let	$3	enum(`nlohmann::detail::input_format_t::json`, `nlohmann::detail::input_format_t`)
do		do(`stopwatch::start`, $1)	true
do		do(`pdaaal::parsing::SolverInstanceJsonParser::parse`, param(#0), $2)	self.msgpack
do		do(`pdaaal::parsing::SolverInstanceJsonParser::parse`, param(#0), $3)	!self.msgpack
do		do(`stopwatch::stop`, $1)	true
ret	res(`pdaaal::parsing::SolverInstanceJsonParser::parse`, param(#0), $2)	self.msgpack
ret	res(`pdaaal::parsing::SolverInstanceJsonParser::parse`, param(#0), $3)	!self.msgpack
== p::Parsing::parse_instance_stream | p::Parsing | (std::basic_istream<char, std::char_traits<char>> &) | TI::Single | std::variant<SolverInstance<std::string, W0, std::string, false, TI::Single>, SolverInstance<std::string, Wu, std::string, false, TI::Single>, SolverInstance<std::string, Wi, std::string, false, TI::Single>, SolverInstance<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Single>, SolverInstance<std::string, weight<std::vector<int>, void>, std::string, false, TI::Single>, SolverInstance<std::string, W0, u64, true, TI::Single>, SolverInstance<std::string, Wu, u64, true, TI::Single>, SolverInstance<std::string, Wi, u64, true, TI::Single>, SolverInstance<std::string, weight<std::vector<u32>, void>, u64, true, TI::Single>, SolverInstance<std::string, weight<std::vector<int>, void>, u64, true, TI::Single>>
-- file: pdaaal-bin/parsing/Parsing.h
-- same: 123
== json_stream::json_stream | json_stream | (u64, std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/utils/json_stream.h
-- id: 124
do		set(self._started, false)	true
do		set(self._indent, 0)	true
do		set(self._indent_size, param(#0))	true
do		set(self._out, addrof(param(#1)))	true
== json_stream::~ | json_stream | () |  | void
-- file: pdaaal-bin/utils/json_stream.h
-- id: 125
do		do(`json_stream::close`, self)	true
== json_stream::begin_object | json_stream | (const std::string &) |  | void
-- file: pdaaal-bin/utils/json_stream.h
-- id: 126
let	$1	lin(#1, self._indent)
let	$2	self._indent_size
do		out(`<<`, self._out, "{")	!self._started
dom		do(`operator<<`, self._out, fnref(`std::endl`))	true
do		out(`<<`, self._out, ",")	self._started
do		out(`<<`, self._out, call(`std::setw`, cast(#32, times($1, $2))))	!self._started
do		out(`<<`, self._out, call(`std::setw`, cast(#32, times(self._indent, $2))))	self._started
do		out(`<<`, self._out, "")	true
do		out(`<<`, self._out, call(`nlohmann::basic_json::dump`, ctor(`nlohmann::basic_json`, param(#0)), -1, 32, false, enum(`nlohmann::detail::error_handler_t::strict`, `nlohmann::detail::error_handler_t`)))	true
do		out(`<<`, self._out, " : ")	true
do		set(self._started, false)	true
do		set(self._indent, $1)	!self._started
== json_stream::end_object | json_stream | () |  | void
-- file: pdaaal-bin/utils/json_stream.h
-- id: 127
let	$1	lin(#-1, self._indent)
do		out(`<<`, self._out, "{}")	!self._started
do		do(`operator<<`, self._out, fnref(`std::endl`))	self._started
do		out(`<<`, self._out, call(`std::setw`, cast(#32, times($1, self._indent_size))))	self._started
do		out(`<<`, self._out, "")	self._started
do		out(`<<`, self._out, "}")	self._started
do		set(self._started, true)	true
do		set(self._indent, $1)	self._started
== json_stream::entry | json_stream | (const std::string &, const nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &) |  | void
-- file: pdaaal-bin/utils/json_stream.h
-- id: 128
let	$1	lin(#1, self._indent)
let	$2	self._indent_size
let	$3	enum(`nlohmann::detail::error_handler_t::strict`, `nlohmann::detail::error_handler_t`)
do		out(`<<`, self._out, "{")	!self._started
dom		do(`operator<<`, self._out, fnref(`std::endl`))	true
do		out(`<<`, self._out, ",")	self._started
do		out(`<<`, self._out, call(`std::setw`, cast(#32, times($1, $2))))	!self._started
do		out(`<<`, self._out, call(`std::setw`, cast(#32, times(self._indent, $2))))	self._started
do		out(`<<`, self._out, "")	true
do		out(`<<`, self._out, call(`nlohmann::basic_json::dump`, ctor(`nlohmann::basic_json`, param(#0)), -1, 32, false, $3))	true
do		out(`<<`, self._out, " : ")	true
do		out(`<<`, self._out, call(`nlohmann::basic_json::dump`, param(#1), -1, 32, false, $3))	true
do		set(self._started, true)	true
do		set(self._indent, $1)	!self._started
== json_stream::entry_object | json_stream | (const std::string &, const nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &) |  | void
-- file: pdaaal-bin/utils/json_stream.h
-- id: 129
let	$1	call(`nlohmann::basic_json::is_object`, param(#1))
do		do(`json_stream::entry`, self, param(#0), param(#1))	!$1
do		do(`json_stream::begin_object`, self, param(#0))	$1
do	foreach(param(#1))	do(`json_stream::entry`, self, call(`nlohmann::detail::iter_impl::key`, lin(#0, begin(param(#1)), ix(param(#1), #0))), param(#1)@0)	$1
do		do(`json_stream::end_object`, self)	$1
== json_stream::close | json_stream | () |  | void
-- file: pdaaal-bin/utils/json_stream.h
-- id: 130
let	$1	eq(0, self._indent')
do	loop(#0)	do(`json_stream::end_object`, self)	!$1
do	loop(#0)	exit	$1
do		set(self._started, false)	true
== p::JsonParserContext::needs_flag | p::JsonParserContext<p::PdaSaxHelper::context_type, 3> | (unsigned char) const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 131
ret	eq(param(#0), band(param(#0), get(self._v, `0UL`)._mask))	true
== p::JsonParserContext::has_missing_flags | p::JsonParserContext<p::PdaSaxHelper::context_type, 3> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 132
ret	{!eq(get(self._v, `0UL`)._mask, 0)}	true
== utils::flags::fill | utils::flags<3> | () | 1UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- id: 133
ret	1	true
== p::JsonParserContext::get_missing_flags | p::JsonParserContext<p::PdaSaxHelper::context_type, 3> | () const |  | std::vector<unsigned char>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 134
ret	call(`pdaaal::utils::flags::split_to_single_flags`, get(self._v, `0UL`)._mask)	true
== p::JsonParserContext::get_index | p::JsonParserContext<p::PdaSaxHelper::context_type, 3> | () const |  | u64
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 135
ret	get(self._v, `1UL`)	true
== p::JsonParserContext::increment_index | p::JsonParserContext<p::PdaSaxHelper::context_type, 3> | () |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 136
let	$1	get(self._v, `1UL`)
do		set($1, lin(#1, $1))	true
== utils::flags::fill | utils::flags<3> | () | 3UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- id: 137
ret	7	true
== p::JsonParserContext::JsonParserContext | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2> | (p::PdaTypeSaxHelper::context_type, unsigned char, std::in_place_index_t<0>) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 55
== p::JsonParserContext::JsonParserContext | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2> | (p::PdaTypeSaxHelper::context_type, u64, std::in_place_index_t<1>) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 55
== utils::flags::fill | utils::flags<3> | () | 2UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- id: 138
ret	3	true
== p::JsonParserContext::is_object | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 102
== p::JsonParserContext::is_array | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 106
== p::JsonParserContext::got_flag | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2> | (unsigned char) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 109
== p::JsonParserContext::needs_flag | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2> | (unsigned char) const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 131
== p::JsonParserContext::has_missing_flags | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 132
== p::JsonParserContext::get_missing_flags | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2> | () const |  | std::vector<unsigned char>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 134
== p::JsonParserContext::get_index | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2> | () const |  | u64
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 135
== p::JsonParserContext::increment_index | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2> | () |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 136
== utils::flags::split_to_single_flags | utils::flags<3> | (unsigned char) |  | std::vector<unsigned char>
-- file: include/pdaaal/utils/flags.h
-- id: 139
let	$1	cast(#8, opshl(1, range(0, 3)@0))
do	foreach(range(0, 3))	do(`push`, L(#0), $1)	eq(band(param(#0), $1), $1)
dom		init(L(#0), new(`std::vector`))	true
ret	L(#0)'	true
== operator>> |  | (std::basic_istream<char, std::char_traits<char>> &, Trace_Type &) |  | std::basic_istream<char, std::char_traits<char>> &
-- file: pdaaal-bin/Verifier.h
-- id: 140
let	$1	eq(L(#0)', "0")
let	$2	eq(L(#0)', "3")
let	$3	eq(L(#0)', "1")
let	$4	eq(L(#0)', "2")
let	$5	eq(L(#0)', "4")
do		in(`>>`, param(#0), L(#0))	true
do		do(`setstate`, param(#0), enum(`std::_S_failbit`, `std::_Ios_Iostate`))	!$1 & !$2 & !$3 & !$4 & !$5
do		set(param(#1), enum(`pdaaal::Trace_Type::ShortestFixedPoint`, `pdaaal::Trace_Type`))	$5
do		set(param(#1), enum(`pdaaal::Trace_Type::Longest`, `pdaaal::Trace_Type`))	$2
do		set(param(#1), enum(`pdaaal::Trace_Type::Shortest`, `pdaaal::Trace_Type`))	$4
do		set(param(#1), enum(`pdaaal::Trace_Type::Any`, `pdaaal::Trace_Type`))	$3
do		set(param(#1), enum(`pdaaal::Trace_Type::None`, `pdaaal::Trace_Type`))	$1
dom		init(L(#0), "")	true
ret	param(#0)	true
== operator<< |  | (std::basic_ostream<char, std::char_traits<char>> &, const Trace_Type &) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: pdaaal-bin/Verifier.h
-- id: 141
do		out(`<<`, param(#0), "0")	eq(param(#1), enum(`pdaaal::Trace_Type::None`, `pdaaal::Trace_Type`))
do		out(`<<`, param(#0), "1")	eq(param(#1), enum(`pdaaal::Trace_Type::Any`, `pdaaal::Trace_Type`))
do		out(`<<`, param(#0), "2")	eq(param(#1), enum(`pdaaal::Trace_Type::Shortest`, `pdaaal::Trace_Type`))
do		out(`<<`, param(#0), "3")	eq(param(#1), enum(`pdaaal::Trace_Type::Longest`, `pdaaal::Trace_Type`))
do		out(`<<`, param(#0), "4")	eq(enum(`pdaaal::Trace_Type::ShortestFixedPoint`, `pdaaal::Trace_Type`), param(#1))
ret	param(#0)	true
== Verifier::Verifier | Verifier | (const std::string &) |  | void
-- file: pdaaal-bin/Verifier.h
-- id: 142
let	$1	self.verification_options
let	$2	res(`boost::program_options::options_description::add_options`, $1)
let	$3	call(`boost::program_options::value`, addr(self.engine))
let	$4	"Engine. 0=no verification, 1=post*, 2=pre*, 3=dual*"
let	$5	self.trace_type
let	$6	call(`boost::program_options::value`, addr($5))^
let	$7	enum(`pdaaal::Trace_Type::None`, `const pdaaal::Trace_Type`)
let	$8	gvar(`boost::program_options::options_description::m_default_line_length`)
do		do(`add_options`, $1)	true
do		invoke($2, "engine,e", $3, $4)	true
do		do(`default_value`, $6, $7)	true
do		invoke(res_invoke($2, "engine,e", $3, $4), "trace,t", res(`boost::program_options::typed_value::default_value`, $6, $7), "Trace type. 0=no trace, 1=any trace, 2=shortest trace, 3=longest trace, 4=fixed-point shortest trace")	true
do		set($1, ctor(`boost::program_options::options_description`, param(#0), $8, opdiv($8, 2)))	true
do		set(self.engine, 0)	true
do		set($5, enum(`pdaaal::Trace_Type::None`, `pdaaal::Trace_Type`))	true
== Verifier::options | Verifier | () const |  | const boost::program_options::options_description &
-- file: pdaaal-bin/Verifier.h
-- id: 143
ret	self.verification_options	true
== Verifier::needs_trace_info_pair | Verifier | () const |  | bool
-- file: pdaaal-bin/Verifier.h
-- id: 144
let	$1	self.trace_type
ret	{eq(enum(`pdaaal::Trace_Type::Longest`, `pdaaal::Trace_Type`), $1) | eq(enum(`pdaaal::Trace_Type::ShortestFixedPoint`, `pdaaal::Trace_Type`), $1)}	true
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, W0, fut::vector, std::string, false>, PAutomaton<std::string, W0, std::string, false, TI::Pair>, W0, TI::Pair> &, json_stream &) | TI::Pair, PAutomatonProduct<PDA<std::string, W0, fut::vector, std::string, false>, PAutomaton<std::string, W0, std::string, false, TI::Pair>, W0, TI::Pair> | void
-- file: pdaaal-bin/Verifier.h
-- id: 145
let	$1	eq(self.engine, 0)
let	$2	eq(2, self.engine)
let	$3	eq(self.engine, 3)
let	$4	eq(self.engine, 1)
do		do(`json_stream::entry`, param(#1), "engine", ctor(`nlohmann::basic_json`, list(list("", "post*", "pre*", "dual*"))[self.engine]))	!$1 & lt(self.engine, 4)
dom		throw(`std::runtime_error`)	!$1
do		out(`<<`, L(#0), "error: Unsupported option value --engine ")	!$1 & !$2 & !$3 & !$4
do		do(`operator<<`, L(#0), self.engine)	!$1 & !$2 & !$3 & !$4
do		do(`operator<<`, L(#0), fnref(`std::endl`))	!$1 & !$2 & !$3 & !$4
dom		init(L(#0), new(`std::basic_stringstream`))	true
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, Wu, fut::vector, std::string, false>, PAutomaton<std::string, Wu, std::string, false, TI::Pair>, Wu, TI::Pair> &, json_stream &) | TI::Pair, PAutomatonProduct<PDA<std::string, Wu, fut::vector, std::string, false>, PAutomaton<std::string, Wu, std::string, false, TI::Pair>, Wu, TI::Pair> | void
-- file: pdaaal-bin/Verifier.h
-- id: 146
let	$1	eq(self.engine, 0)
let	$2	eq(self.engine, 1)
let	$3	eq(2, self.engine)
let	$4	eq(self.engine, 3)
let	$5	res(`pdaaal::PAutomatonProduct::copy`, param(#0))
let	$6	res(`pdaaal::Solver::interleaving_fixed_point_accepts`, param(#0), $5)
let	$7	eq(enum(`pdaaal::Trace_Type::Longest`, `pdaaal::Trace_Type`), self.trace_type)
let	$8	res(`pdaaal::Solver::pre_star_fixed_point_accepts`, param(#0))
let	$9	call(`pdaaal::Solver::get_trace`, upd(upd(upd(upd($5, `_id_fast_lookup`, L(#9)'), `_id_map`, L(#10)'), `_product`, upd(upd(upd($5._product, `_accepting`, L(#6)'), `_initial`, L(#7)'), `_states`, L(#4)')), `_swap_initial_final`, L(#3)')).#1
let	$10	eq(4294967294, $9)
let	$11	call(`pdaaal::Solver::get_trace`, param(#0)').#1
let	$12	eq(4294967294, $11)
let	$13	res(`pdaaal::Solver::post_star_fixed_point_accepts`, param(#0))
let	$14	L(#0)._running'
let	$15	call(`std::chrono::system_clock::now`)
let	$16	ctor(`nlohmann::basic_json`, 0)
do		do(`json_stream::entry`, param(#1), "engine", ctor(`nlohmann::basic_json`, list(list("", "post*", "pre*", "dual*"))[self.engine]))	!$1 & lt(self.engine, 4)
dom		do(`pdaaal::Solver::post_star_fixed_point_accepts`, param(#0))	$2
dom		do(`stopwatch::stop`, L(#0))	$2 | $3 | $4
dom		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, "infinity"))	!$6.#1 & $12 & $4 & $6.#0 & $7 | $10 & $4 & $6.#0 & $6.#1 & $7 | $12 & $13 & $2 & $7 | $12 & $3 & $7 & $8
dom		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, $11))	!$12 & !$6.#1 & $4 & $6.#0 | !$12 & $13 & $2 | !$12 & $3 & $8 | !$6.#1 & !$7 & $4 & $6.#0 | !$7 & $13 & $2 | !$7 & $3 & $8
dom		do(`pdaaal::Solver::pre_star_fixed_point_accepts`, param(#0))	$3
do		do(`pdaaal::PAutomatonProduct::copy`, param(#0))	$4
dom		do(`pdaaal::Solver::interleaving_fixed_point_accepts`, param(#0), $5)	$4
dom		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, $9))	!$10 & $4 & $6.#0 & $6.#1 | !$7 & $4 & $6.#0 & $6.#1
do		out(`<<`, L(#1), "error: Unsupported option value --engine ")	!$1 & !$2 & !$3 & !$4
do		do(`operator<<`, L(#1), self.engine)	!$1 & !$2 & !$3 & !$4
do		do(`operator<<`, L(#1), fnref(`std::endl`))	!$1 & !$2 & !$3 & !$4
do		throw(`std::runtime_error`)	!$1 & !$2 & !$3 & !$4
do		do(`json_stream::entry`, param(#1), "rtime", ctor(`nlohmann::basic_json`, call(`stopwatch::duration`, stopwatch{_running: $14', _start: $15, _stop: L(#0)._stop''})))	$13 & $2 | $3 & $8 | $4 & $6.#0
do		do(`json_stream::entry`, param(#1), "rtime", ctor(`nlohmann::basic_json`, call(`stopwatch::duration`, stopwatch{_running: $14, _start: $15, _stop: L(#0)._stop'})))	!$13 & $2 | !$6.#0 & $4 | !$8 & $3
do		do(`json_stream::entry`, param(#1), "result", ctor(`nlohmann::basic_json`, {$13 & $2 | $3 & $8 | $4 & $6.#0}))	$2 | $3 | $4
do	foreach(L(#5))	do(`push`, L(#8), L(#2)'')	$2 | $3 | $4
do	foreach(L(#5))	set(L(#2)["state"], ctor(`nlohmann::basic_json`, L(#5)@0._pdastate))	$2 | $3 | $4
do	foreach(L(#5))	set(L(#2)["stack"], ctor(`nlohmann::basic_json`, L(#5)@0._stack))	$2 | $3 | $4
do		do(`json_stream::entry`, param(#1), "trace", L(#8)')	$2 | $3 | $4
dom		init(L(#0)._running, true)	true
dom		init(L(#0)._stop, $15)	true
dom		init(L(#9), $5._id_fast_lookup)	true
dom		init(L(#10), $5._id_map)	true
dom		init(L(#6), $5._product._accepting)	true
dom		init(L(#7), $5._product._initial)	true
dom		init(L(#4), $5._product._states)	true
dom		init(L(#3), $5._swap_initial_final)	true
dom		init(L(#1), new(`std::basic_stringstream`))	true
dom		init(L(#8), $16)	true
dom	foreach(L(#5))	init(L(#2), $16)	true
dom		init(L(#5), new(`std::vector`))	true
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, Wi, fut::vector, std::string, false>, PAutomaton<std::string, Wi, std::string, false, TI::Pair>, Wi, TI::Pair> &, json_stream &) | TI::Pair, PAutomatonProduct<PDA<std::string, Wi, fut::vector, std::string, false>, PAutomaton<std::string, Wi, std::string, false, TI::Pair>, Wi, TI::Pair> | void
-- file: pdaaal-bin/Verifier.h
-- id: 147
let	$1	eq(self.engine, 0)
let	$2	eq(self.engine, 1)
let	$3	eq(2, self.engine)
let	$4	eq(self.engine, 3)
let	$5	res(`pdaaal::PAutomatonProduct::copy`, param(#0))
let	$6	res(`pdaaal::Solver::interleaving_fixed_point_accepts`, param(#0), $5)
let	$7	eq(enum(`pdaaal::Trace_Type::Longest`, `pdaaal::Trace_Type`), self.trace_type)
let	$8	res(`pdaaal::Solver::pre_star_fixed_point_accepts`, param(#0))
let	$9	call(`pdaaal::Solver::get_trace`, param(#0)').#1
let	$10	eq($9, 2147483647)
let	$11	call(`pdaaal::Solver::get_trace`, upd(upd(upd(upd($5, `_id_fast_lookup`, L(#6)'), `_id_map`, L(#5)'), `_product`, upd(upd(upd($5._product, `_accepting`, L(#10)'), `_initial`, L(#4)'), `_states`, L(#3)')), `_swap_initial_final`, L(#8)')).#1
let	$12	eq($11, 2147483647)
let	$13	res(`pdaaal::Solver::post_star_fixed_point_accepts`, param(#0))
let	$14	eq($9, -2147483648)
let	$15	eq($11, -2147483648)
let	$16	L(#0)._running'
let	$17	call(`std::chrono::system_clock::now`)
let	$18	ctor(`nlohmann::basic_json`, 0)
do		do(`json_stream::entry`, param(#1), "engine", ctor(`nlohmann::basic_json`, list(list("", "post*", "pre*", "dual*"))[self.engine]))	!$1 & lt(self.engine, 4)
dom		do(`pdaaal::Solver::post_star_fixed_point_accepts`, param(#0))	$2
dom		do(`stopwatch::stop`, L(#0))	$2 | $3 | $4
dom		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, "infinity"))	!$6.#1 & $10 & $4 & $6.#0 & $7 | $10 & $13 & $2 & $7 | $10 & $3 & $7 & $8 | $12 & $4 & $6.#0 & $6.#1 & $7
dom		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, $9))	!$10 & !$14 & !$6.#1 & $4 & $6.#0 | !$10 & !$14 & $13 & $2 | !$10 & !$14 & $3 & $8 | !$14 & !$6.#1 & !$7 & $4 & $6.#0 | !$14 & !$7 & $13 & $2 | !$14 & !$7 & $3 & $8 | !$6.#1 & $14 & $4 & $6.#0 & $7 | $13 & $14 & $2 & $7 | $14 & $3 & $7 & $8
dom		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, "negative infinity"))	!$6.#1 & !$7 & $14 & $4 & $6.#0 | !$7 & $13 & $14 & $2 | !$7 & $14 & $3 & $8 | !$7 & $15 & $4 & $6.#0 & $6.#1
dom		do(`pdaaal::Solver::pre_star_fixed_point_accepts`, param(#0))	$3
do		do(`pdaaal::PAutomatonProduct::copy`, param(#0))	$4
dom		do(`pdaaal::Solver::interleaving_fixed_point_accepts`, param(#0), $5)	$4
dom		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, $11))	!$12 & !$15 & $4 & $6.#0 & $6.#1 | !$15 & !$7 & $4 & $6.#0 & $6.#1 | $15 & $4 & $6.#0 & $6.#1 & $7
do		out(`<<`, L(#1), "error: Unsupported option value --engine ")	!$1 & !$2 & !$3 & !$4
do		do(`operator<<`, L(#1), self.engine)	!$1 & !$2 & !$3 & !$4
do		do(`operator<<`, L(#1), fnref(`std::endl`))	!$1 & !$2 & !$3 & !$4
do		throw(`std::runtime_error`)	!$1 & !$2 & !$3 & !$4
do		do(`json_stream::entry`, param(#1), "rtime", ctor(`nlohmann::basic_json`, call(`stopwatch::duration`, stopwatch{_running: $16', _start: $17, _stop: L(#0)._stop''})))	$13 & $2 | $3 & $8 | $4 & $6.#0
do		do(`json_stream::entry`, param(#1), "rtime", ctor(`nlohmann::basic_json`, call(`stopwatch::duration`, stopwatch{_running: $16, _start: $17, _stop: L(#0)._stop'})))	!$13 & $2 | !$6.#0 & $4 | !$8 & $3
do		do(`json_stream::entry`, param(#1), "result", ctor(`nlohmann::basic_json`, {$13 & $2 | $3 & $8 | $4 & $6.#0}))	$2 | $3 | $4
do	foreach(L(#7))	do(`push`, L(#9), L(#2)'')	$2 | $3 | $4
do	foreach(L(#7))	set(L(#2)["state"], ctor(`nlohmann::basic_json`, L(#7)@0._pdastate))	$2 | $3 | $4
do	foreach(L(#7))	set(L(#2)["stack"], ctor(`nlohmann::basic_json`, L(#7)@0._stack))	$2 | $3 | $4
do		do(`json_stream::entry`, param(#1), "trace", L(#9)')	$2 | $3 | $4
dom		init(L(#0)._running, true)	true
dom		init(L(#0)._stop, $17)	true
dom		init(L(#6), $5._id_fast_lookup)	true
dom		init(L(#5), $5._id_map)	true
dom		init(L(#10), $5._product._accepting)	true
dom		init(L(#4), $5._product._initial)	true
dom		init(L(#3), $5._product._states)	true
dom		init(L(#8), $5._swap_initial_final)	true
dom		init(L(#1), new(`std::basic_stringstream`))	true
dom		init(L(#9), $18)	true
dom	foreach(L(#7))	init(L(#2), $18)	true
dom		init(L(#7), new(`std::vector`))	true
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Pair>, weight<std::vector<u32>, void>, TI::Pair> &, json_stream &) | TI::Pair, PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Pair>, weight<std::vector<u32>, void>, TI::Pair> | void
-- file: pdaaal-bin/Verifier.h
-- id: 148
let	$1	eq(self.engine, 0)
let	$2	eq(self.engine, 1)
let	$3	eq(2, self.engine)
let	$4	eq(self.engine, 3)
let	$5	res(`pdaaal::PAutomatonProduct::copy`, param(#0))
let	$6	res(`pdaaal::Solver::interleaving_fixed_point_accepts`, param(#0), $5)
let	$7	eq(enum(`pdaaal::Trace_Type::Longest`, `pdaaal::Trace_Type`), self.trace_type)
let	$8	list(4294967294)
let	$9	call(`pdaaal::Solver::get_trace`, upd(upd(upd(upd($5, `_id_fast_lookup`, L(#4)'), `_id_map`, L(#5)'), `_product`, upd(upd(upd($5._product, `_accepting`, L(#2)'), `_initial`, L(#9)'), `_states`, L(#10)')), `_swap_initial_final`, L(#6)')).#1
let	$10	res(`pdaaal::Solver::pre_star_fixed_point_accepts`, param(#0))
let	$11	call(`pdaaal::Solver::get_trace`, param(#0)').#1
let	$12	res(`pdaaal::Solver::post_star_fixed_point_accepts`, param(#0))
let	$13	L(#0)._running'
let	$14	call(`std::chrono::system_clock::now`)
let	$15	ctor(`nlohmann::basic_json`, 0)
do		do(`json_stream::entry`, param(#1), "engine", ctor(`nlohmann::basic_json`, list(list("", "post*", "pre*", "dual*"))[self.engine]))	!$1 & lt(self.engine, 4)
dom		do(`pdaaal::Solver::post_star_fixed_point_accepts`, param(#0))	$2
dom		do(`stopwatch::stop`, L(#0))	$2 | $3 | $4
dom		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, "infinity"))	!$6.#1 & $4 & $6.#0 & $7 & eq($8, $11) | $10 & $3 & $7 & eq($8, $11) | $12 & $2 & $7 & eq($8, $11) | $4 & $6.#0 & $6.#1 & $7 & eq($8, $9)
dom		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, $11))	!$6.#1 & !$7 & $4 & $6.#0 | !$6.#1 & !eq($8, $11) & $4 & $6.#0 | !$7 & $10 & $3 | !$7 & $12 & $2 | !eq($8, $11) & $10 & $3 | !eq($8, $11) & $12 & $2
dom		do(`pdaaal::Solver::pre_star_fixed_point_accepts`, param(#0))	$3
do		do(`pdaaal::PAutomatonProduct::copy`, param(#0))	$4
dom		do(`pdaaal::Solver::interleaving_fixed_point_accepts`, param(#0), $5)	$4
dom		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, $9))	!$7 & $4 & $6.#0 & $6.#1 | !eq($8, $9) & $4 & $6.#0 & $6.#1
do		out(`<<`, L(#1), "error: Unsupported option value --engine ")	!$1 & !$2 & !$3 & !$4
do		do(`operator<<`, L(#1), self.engine)	!$1 & !$2 & !$3 & !$4
do		do(`operator<<`, L(#1), fnref(`std::endl`))	!$1 & !$2 & !$3 & !$4
do		throw(`std::runtime_error`)	!$1 & !$2 & !$3 & !$4
do		do(`json_stream::entry`, param(#1), "rtime", ctor(`nlohmann::basic_json`, call(`stopwatch::duration`, stopwatch{_running: $13', _start: $14, _stop: L(#0)._stop''})))	$10 & $3 | $12 & $2 | $4 & $6.#0
do		do(`json_stream::entry`, param(#1), "rtime", ctor(`nlohmann::basic_json`, call(`stopwatch::duration`, stopwatch{_running: $13, _start: $14, _stop: L(#0)._stop'})))	!$10 & $3 | !$12 & $2 | !$6.#0 & $4
do		do(`json_stream::entry`, param(#1), "result", ctor(`nlohmann::basic_json`, {$10 & $3 | $12 & $2 | $4 & $6.#0}))	$2 | $3 | $4
do	foreach(L(#7))	do(`push`, L(#8), L(#3)'')	$2 | $3 | $4
do	foreach(L(#7))	set(L(#3)["state"], ctor(`nlohmann::basic_json`, L(#7)@0._pdastate))	$2 | $3 | $4
do	foreach(L(#7))	set(L(#3)["stack"], ctor(`nlohmann::basic_json`, L(#7)@0._stack))	$2 | $3 | $4
do		do(`json_stream::entry`, param(#1), "trace", L(#8)')	$2 | $3 | $4
dom		init(L(#0)._running, true)	true
dom		init(L(#0)._stop, $14)	true
dom		init(L(#4), $5._id_fast_lookup)	true
dom		init(L(#5), $5._id_map)	true
dom		init(L(#2), $5._product._accepting)	true
dom		init(L(#9), $5._product._initial)	true
dom		init(L(#10), $5._product._states)	true
dom		init(L(#6), $5._swap_initial_final)	true
dom		init(L(#1), new(`std::basic_stringstream`))	true
dom		init(L(#8), $15)	true
dom	foreach(L(#7))	init(L(#3), $15)	true
dom		init(L(#7), new(`std::vector`))	true
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Pair>, weight<std::vector<int>, void>, TI::Pair> &, json_stream &) | TI::Pair, PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Pair>, weight<std::vector<int>, void>, TI::Pair> | void
-- file: pdaaal-bin/Verifier.h
-- id: 149
let	$1	eq(self.engine, 0)
let	$2	eq(self.engine, 1)
let	$3	eq(2, self.engine)
let	$4	eq(self.engine, 3)
let	$5	res(`pdaaal::PAutomatonProduct::copy`, param(#0))
let	$6	res(`pdaaal::Solver::interleaving_fixed_point_accepts`, param(#0), $5)
let	$7	eq(enum(`pdaaal::Trace_Type::Longest`, `pdaaal::Trace_Type`), self.trace_type)
let	$8	res(`pdaaal::Solver::pre_star_fixed_point_accepts`, param(#0))
let	$9	list(2147483647)
let	$10	call(`pdaaal::Solver::get_trace`, upd(upd(upd(upd($5, `_id_fast_lookup`, L(#5)'), `_id_map`, L(#4)'), `_product`, upd(upd(upd($5._product, `_accepting`, L(#8)'), `_initial`, L(#10)'), `_states`, L(#2)')), `_swap_initial_final`, L(#7)')).#1
let	$11	call(`pdaaal::Solver::get_trace`, param(#0)').#1
let	$12	res(`pdaaal::Solver::post_star_fixed_point_accepts`, param(#0))
let	$13	list(-2147483648)
let	$14	L(#0)._running'
let	$15	call(`std::chrono::system_clock::now`)
let	$16	ctor(`nlohmann::basic_json`, 0)
do		do(`json_stream::entry`, param(#1), "engine", ctor(`nlohmann::basic_json`, list(list("", "post*", "pre*", "dual*"))[self.engine]))	!$1 & lt(self.engine, 4)
dom		do(`pdaaal::Solver::post_star_fixed_point_accepts`, param(#0))	$2
dom		do(`stopwatch::stop`, L(#0))	$2 | $3 | $4
dom		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, "infinity"))	!$6.#1 & $4 & $6.#0 & $7 & eq($11, $9) | $12 & $2 & $7 & eq($11, $9) | $3 & $7 & $8 & eq($11, $9) | $4 & $6.#0 & $6.#1 & $7 & eq($9, $10)
dom		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, $11))	!$6.#1 & !$7 & !eq($13, $11) & $4 & $6.#0 | !$6.#1 & !eq($11, $9) & $4 & $6.#0 & $7 | !$7 & !eq($13, $11) & $12 & $2 | !$7 & !eq($13, $11) & $3 & $8 | !eq($11, $9) & $12 & $2 & $7 | !eq($11, $9) & $3 & $7 & $8
dom		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, "negative infinity"))	!$6.#1 & !$7 & $4 & $6.#0 & eq($13, $11) | !$7 & $12 & $2 & eq($13, $11) | !$7 & $3 & $8 & eq($13, $11) | !$7 & $4 & $6.#0 & $6.#1 & eq($13, $10)
dom		do(`pdaaal::Solver::pre_star_fixed_point_accepts`, param(#0))	$3
do		do(`pdaaal::PAutomatonProduct::copy`, param(#0))	$4
dom		do(`pdaaal::Solver::interleaving_fixed_point_accepts`, param(#0), $5)	$4
dom		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, $10))	!$7 & !eq($13, $10) & $4 & $6.#0 & $6.#1 | !eq($9, $10) & $4 & $6.#0 & $6.#1 & $7
do		out(`<<`, L(#1), "error: Unsupported option value --engine ")	!$1 & !$2 & !$3 & !$4
do		do(`operator<<`, L(#1), self.engine)	!$1 & !$2 & !$3 & !$4
do		do(`operator<<`, L(#1), fnref(`std::endl`))	!$1 & !$2 & !$3 & !$4
do		throw(`std::runtime_error`)	!$1 & !$2 & !$3 & !$4
do		do(`json_stream::entry`, param(#1), "rtime", ctor(`nlohmann::basic_json`, call(`stopwatch::duration`, stopwatch{_running: $14', _start: $15, _stop: L(#0)._stop''})))	$12 & $2 | $3 & $8 | $4 & $6.#0
do		do(`json_stream::entry`, param(#1), "rtime", ctor(`nlohmann::basic_json`, call(`stopwatch::duration`, stopwatch{_running: $14, _start: $15, _stop: L(#0)._stop'})))	!$12 & $2 | !$6.#0 & $4 | !$8 & $3
do		do(`json_stream::entry`, param(#1), "result", ctor(`nlohmann::basic_json`, {$12 & $2 | $3 & $8 | $4 & $6.#0}))	$2 | $3 | $4
do	foreach(L(#6))	do(`push`, L(#9), L(#3)'')	$2 | $3 | $4
do	foreach(L(#6))	set(L(#3)["state"], ctor(`nlohmann::basic_json`, L(#6)@0._pdastate))	$2 | $3 | $4
do	foreach(L(#6))	set(L(#3)["stack"], ctor(`nlohmann::basic_json`, L(#6)@0._stack))	$2 | $3 | $4
do		do(`json_stream::entry`, param(#1), "trace", L(#9)')	$2 | $3 | $4
dom		init(L(#0)._running, true)	true
dom		init(L(#0)._stop, $15)	true
dom		init(L(#5), $5._id_fast_lookup)	true
dom		init(L(#4), $5._id_map)	true
dom		init(L(#8), $5._product._accepting)	true
dom		init(L(#10), $5._product._initial)	true
dom		init(L(#2), $5._product._states)	true
dom		init(L(#7), $5._swap_initial_final)	true
dom		init(L(#1), new(`std::basic_stringstream`))	true
dom		init(L(#9), $16)	true
dom	foreach(L(#6))	init(L(#3), $16)	true
dom		init(L(#6), new(`std::vector`))	true
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, W0, fut::vector, u64, true>, PAutomaton<std::string, W0, u64, true, TI::Pair>, W0, TI::Pair> &, json_stream &) | TI::Pair, PAutomatonProduct<PDA<std::string, W0, fut::vector, u64, true>, PAutomaton<std::string, W0, u64, true, TI::Pair>, W0, TI::Pair> | void
-- file: pdaaal-bin/Verifier.h
-- same: 145
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, Wu, fut::vector, u64, true>, PAutomaton<std::string, Wu, u64, true, TI::Pair>, Wu, TI::Pair> &, json_stream &) | TI::Pair, PAutomatonProduct<PDA<std::string, Wu, fut::vector, u64, true>, PAutomaton<std::string, Wu, u64, true, TI::Pair>, Wu, TI::Pair> | void
-- file: pdaaal-bin/Verifier.h
-- same: 146
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, Wi, fut::vector, u64, true>, PAutomaton<std::string, Wi, u64, true, TI::Pair>, Wi, TI::Pair> &, json_stream &) | TI::Pair, PAutomatonProduct<PDA<std::string, Wi, fut::vector, u64, true>, PAutomaton<std::string, Wi, u64, true, TI::Pair>, Wi, TI::Pair> | void
-- file: pdaaal-bin/Verifier.h
-- same: 147
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<u32>, void>, u64, true, TI::Pair>, weight<std::vector<u32>, void>, TI::Pair> &, json_stream &) | TI::Pair, PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<u32>, void>, u64, true, TI::Pair>, weight<std::vector<u32>, void>, TI::Pair> | void
-- file: pdaaal-bin/Verifier.h
-- same: 148
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<int>, void>, u64, true, TI::Pair>, weight<std::vector<int>, void>, TI::Pair> &, json_stream &) | TI::Pair, PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<int>, void>, u64, true, TI::Pair>, weight<std::vector<int>, void>, TI::Pair> | void
-- file: pdaaal-bin/Verifier.h
-- same: 149
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, W0, fut::vector, std::string, false>, PAutomaton<std::string, W0, std::string, false, TI::Single>, W0, TI::Single> &, json_stream &) | TI::Single, PAutomatonProduct<PDA<std::string, W0, fut::vector, std::string, false>, PAutomaton<std::string, W0, std::string, false, TI::Single>, W0, TI::Single> | void
-- file: pdaaal-bin/Verifier.h
-- id: 150
let	$1	eq(self.engine, 0)
let	$2	self.trace_type
let	$3	eq($2, enum(`pdaaal::Trace_Type::Any`, `pdaaal::Trace_Type`))
let	$4	eq(enum(`pdaaal::Trace_Type::None`, `pdaaal::Trace_Type`), $2)
let	$5	eq(self.engine, 1)
let	$6	eq(2, self.engine)
let	$7	eq(self.engine, 3)
let	$8	call(`std::chrono::system_clock::now`)
let	$9	ctor(`nlohmann::basic_json`, 0)
do		do(`json_stream::entry`, param(#1), "engine", ctor(`nlohmann::basic_json`, list(list("", "post*", "pre*", "dual*"))[self.engine]))	!$1 & lt(self.engine, 4)
dom		do(`pdaaal::Solver::post_star_accepts`, param(#0))	$3 & $5 | $4 & $5
dom		throw(`std::runtime_error`)	!$1 & !$5 & !$6 & !$7 | $5 & eq(enum(`pdaaal::Trace_Type::Shortest`, `pdaaal::Trace_Type`), $2) | $6 & eq(enum(`pdaaal::Trace_Type::Shortest`, `pdaaal::Trace_Type`), $2) | $7 & eq(enum(`pdaaal::Trace_Type::Shortest`, `pdaaal::Trace_Type`), $2)
dom		throw(`std::logic_error`)	$5 & eq(enum(`pdaaal::Trace_Type::Longest`, `pdaaal::Trace_Type`), $2) | $5 & eq(enum(`pdaaal::Trace_Type::ShortestFixedPoint`, `pdaaal::Trace_Type`), $2) | $6 & eq(enum(`pdaaal::Trace_Type::Longest`, `pdaaal::Trace_Type`), $2) | $6 & eq(enum(`pdaaal::Trace_Type::ShortestFixedPoint`, `pdaaal::Trace_Type`), $2) | $7 & eq(enum(`pdaaal::Trace_Type::Longest`, `pdaaal::Trace_Type`), $2) | $7 & eq(enum(`pdaaal::Trace_Type::ShortestFixedPoint`, `pdaaal::Trace_Type`), $2)
dom		do(`pdaaal::Solver::pre_star_accepts`, param(#0))	$3 & $6 | $4 & $6
dom		do(`pdaaal::Solver::dual_search_accepts`, param(#0))	$3 & $7 | $4 & $7
do		out(`<<`, L(#0), "error: Unsupported option value --engine ")	!$1 & !$5 & !$6 & !$7
do		do(`operator<<`, L(#0), self.engine)	!$1 & !$5 & !$6 & !$7
do		do(`operator<<`, L(#0), fnref(`std::endl`))	!$1 & !$5 & !$6 & !$7
do		do(`stopwatch::stop`, L(#2))	$3 & $5 | $3 & $6 | $3 & $7 | $4 & $5 | $4 & $6 | $4 & $7
do		do(`json_stream::entry`, param(#1), "rtime", ctor(`nlohmann::basic_json`, call(`stopwatch::duration`, stopwatch{_running: L(#2)._running', _start: $8, _stop: L(#2)._stop'})))	$3 & $5 | $3 & $6 | $3 & $7 | $4 & $5 | $4 & $6 | $4 & $7
do		do(`json_stream::entry`, param(#1), "result", ctor(`nlohmann::basic_json`, {$3 & $5 & res(`pdaaal::Solver::post_star_accepts`, param(#0)) | $3 & $6 & res(`pdaaal::Solver::pre_star_accepts`, param(#0)) | $3 & $7 & res(`pdaaal::Solver::dual_search_accepts`, param(#0)) | $4 & $5 & res(`pdaaal::Solver::post_star_accepts`, param(#0)) | $4 & $6 & res(`pdaaal::Solver::pre_star_accepts`, param(#0)) | $4 & $7 & res(`pdaaal::Solver::dual_search_accepts`, param(#0))}))	$3 & $5 | $3 & $6 | $3 & $7 | $4 & $5 | $4 & $6 | $4 & $7
do	foreach(L(#4))	do(`push`, L(#3), L(#1)'')	$3 & $5 | $3 & $6 | $3 & $7 | $4 & $5 | $4 & $6 | $4 & $7
do	foreach(L(#4))	set(L(#1)["state"], ctor(`nlohmann::basic_json`, L(#4)@0._pdastate))	$3 & $5 | $3 & $6 | $3 & $7 | $4 & $5 | $4 & $6 | $4 & $7
do	foreach(L(#4))	set(L(#1)["stack"], ctor(`nlohmann::basic_json`, L(#4)@0._stack))	$3 & $5 | $3 & $6 | $3 & $7 | $4 & $5 | $4 & $6 | $4 & $7
do		do(`json_stream::entry`, param(#1), "trace", L(#3)')	$3 & $5 | $3 & $6 | $3 & $7 | $4 & $5 | $4 & $6 | $4 & $7
dom		init(L(#0), new(`std::basic_stringstream`))	true
dom		init(L(#2)._running, true)	true
dom		init(L(#2)._stop, $8)	true
dom		init(L(#3), $9)	true
dom	foreach(L(#4))	init(L(#1), $9)	true
dom		init(L(#4), new(`std::vector`))	true
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, Wu, fut::vector, std::string, false>, PAutomaton<std::string, Wu, std::string, false, TI::Single>, Wu, TI::Single> &, json_stream &) | TI::Single, PAutomatonProduct<PDA<std::string, Wu, fut::vector, std::string, false>, PAutomaton<std::string, Wu, std::string, false, TI::Single>, Wu, TI::Single> | void
-- file: pdaaal-bin/Verifier.h
-- id: 151
let	$1	eq(self.engine, 0)
let	$2	self.trace_type
let	$3	eq($2, enum(`pdaaal::Trace_Type::Any`, `pdaaal::Trace_Type`))
let	$4	eq(enum(`pdaaal::Trace_Type::Shortest`, `pdaaal::Trace_Type`), $2)
let	$5	eq(enum(`pdaaal::Trace_Type::None`, `pdaaal::Trace_Type`), $2)
let	$6	eq(self.engine, 1)
let	$7	eq(enum(`pdaaal::Trace_Type::Longest`, `pdaaal::Trace_Type`), $2)
let	$8	eq(2, self.engine)
let	$9	eq(enum(`pdaaal::Trace_Type::ShortestFixedPoint`, `pdaaal::Trace_Type`), $2)
let	$10	eq(self.engine, 3)
let	$11	res(`pdaaal::Solver::post_star_accepts`, param(#0))
let	$12	res(`pdaaal::Solver::pre_star_accepts`, param(#0))
let	$13	res(`pdaaal::Solver::dual_search_accepts`, param(#0))
let	$14	L(#4)._running'
let	$15	call(`std::chrono::system_clock::now`)
let	$16	ctor(`nlohmann::basic_json`, 0)
do		do(`json_stream::entry`, param(#1), "engine", ctor(`nlohmann::basic_json`, list(list("", "post*", "pre*", "dual*"))[self.engine]))	!$1 & lt(self.engine, 4)
dom		do(`pdaaal::Solver::post_star_accepts`, param(#0))	$3 & $6 | $4 & $6 | $5 & $6
dom		do(`stopwatch::stop`, L(#4))	!$7 & !$9 & $10 | !$7 & !$9 & $6 | !$7 & !$9 & $8
dom		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, call(`pdaaal::Solver::get_trace`, param(#0)').#1))	$11 & $4 & $6 | $12 & $4 & $8
dom		throw(`std::logic_error`)	$10 & $7 | $10 & $9 | $6 & $7 | $6 & $9 | $7 & $8 | $8 & $9
dom		do(`pdaaal::Solver::pre_star_accepts`, param(#0))	$3 & $8 | $4 & $8 | $5 & $8
dom		do(`pdaaal::Solver::dual_search_accepts`, param(#0))	$10 & $3 | $10 & $4 | $10 & $5
do		do(`json_stream::entry`, param(#1), "weight", ctor(`nlohmann::basic_json`, call(`pdaaal::Solver::get_trace_dual_search`, param(#0)').#1))	$10 & $13 & $4
do		out(`<<`, L(#0), "error: Unsupported option value --engine ")	!$1 & !$10 & !$6 & !$8
do		do(`operator<<`, L(#0), self.engine)	!$1 & !$10 & !$6 & !$8
do		do(`operator<<`, L(#0), fnref(`std::endl`))	!$1 & !$10 & !$6 & !$8
do		throw(`std::runtime_error`)	!$1 & !$10 & !$6 & !$8
do		do(`json_stream::entry`, param(#1), "rtime", ctor(`nlohmann::basic_json`, call(`stopwatch::duration`, stopwatch{_running: $14', _start: $15, _stop: L(#4)._stop''})))	$10 & $13 & $4 | $11 & $4 & $6 | $12 & $4 & $8
do		do(`json_stream::entry`, param(#1), "rtime", ctor(`nlohmann::basic_json`, call(`stopwatch::duration`, stopwatch{_running: $14, _start: $15, _stop: L(#4)._stop'})))	!$11 & $4 & $6 | !$12 & $4 & $8 | !$13 & $10 & $4 | !$4 & !$7 & !$9 & $10 | !$4 & !$7 & !$9 & $6 | !$4 & !$7 & !$9 & $8
do		do(`json_stream::entry`, param(#1), "result", ctor(`nlohmann::basic_json`, {$10 & $13 & $3 | $10 & $13 & $4 | $10 & $13 & $5 | $11 & $3 & $6 | $11 & $4 & $6 | $11 & $5 & $6 | $12 & $3 & $8 | $12 & $4 & $8 | $12 & $5 & $8}))	!$7 & !$9 & $10 | !$7 & !$9 & $6 | !$7 & !$9 & $8
do	foreach(L(#2))	do(`push`, L(#3), L(#1)'')	!$7 & !$9 & $10 | !$7 & !$9 & $6 | !$7 & !$9 & $8
do	foreach(L(#2))	set(L(#1)["state"], ctor(`nlohmann::basic_json`, L(#2)@0._pdastate))	!$7 & !$9 & $10 | !$7 & !$9 & $6 | !$7 & !$9 & $8
do	foreach(L(#2))	set(L(#1)["stack"], ctor(`nlohmann::basic_json`, L(#2)@0._stack))	!$7 & !$9 & $10 | !$7 & !$9 & $6 | !$7 & !$9 & $8
do		do(`json_stream::entry`, param(#1), "trace", L(#3)')	!$7 & !$9 & $10 | !$7 & !$9 & $6 | !$7 & !$9 & $8
dom		init(L(#4)._running, true)	true
dom		init(L(#4)._stop, $15)	true
dom		init(L(#0), new(`std::basic_stringstream`))	true
dom		init(L(#3), $16)	true
dom	foreach(L(#2))	init(L(#1), $16)	true
dom		init(L(#2), new(`std::vector`))	true
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, Wi, fut::vector, std::string, false>, PAutomaton<std::string, Wi, std::string, false, TI::Single>, Wi, TI::Single> &, json_stream &) | TI::Single, PAutomatonProduct<PDA<std::string, Wi, fut::vector, std::string, false>, PAutomaton<std::string, Wi, std::string, false, TI::Single>, Wi, TI::Single> | void
-- file: pdaaal-bin/Verifier.h
-- same: 151
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Single>, weight<std::vector<u32>, void>, TI::Single> &, json_stream &) | TI::Single, PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Single>, weight<std::vector<u32>, void>, TI::Single> | void
-- file: pdaaal-bin/Verifier.h
-- same: 151
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Single>, weight<std::vector<int>, void>, TI::Single> &, json_stream &) | TI::Single, PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Single>, weight<std::vector<int>, void>, TI::Single> | void
-- file: pdaaal-bin/Verifier.h
-- same: 151
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, W0, fut::vector, u64, true>, PAutomaton<std::string, W0, u64, true, TI::Single>, W0, TI::Single> &, json_stream &) | TI::Single, PAutomatonProduct<PDA<std::string, W0, fut::vector, u64, true>, PAutomaton<std::string, W0, u64, true, TI::Single>, W0, TI::Single> | void
-- file: pdaaal-bin/Verifier.h
-- same: 150
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, Wu, fut::vector, u64, true>, PAutomaton<std::string, Wu, u64, true, TI::Single>, Wu, TI::Single> &, json_stream &) | TI::Single, PAutomatonProduct<PDA<std::string, Wu, fut::vector, u64, true>, PAutomaton<std::string, Wu, u64, true, TI::Single>, Wu, TI::Single> | void
-- file: pdaaal-bin/Verifier.h
-- same: 151
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, Wi, fut::vector, u64, true>, PAutomaton<std::string, Wi, u64, true, TI::Single>, Wi, TI::Single> &, json_stream &) | TI::Single, PAutomatonProduct<PDA<std::string, Wi, fut::vector, u64, true>, PAutomaton<std::string, Wi, u64, true, TI::Single>, Wi, TI::Single> | void
-- file: pdaaal-bin/Verifier.h
-- same: 151
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<u32>, void>, u64, true, TI::Single>, weight<std::vector<u32>, void>, TI::Single> &, json_stream &) | TI::Single, PAutomatonProduct<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<u32>, void>, u64, true, TI::Single>, weight<std::vector<u32>, void>, TI::Single> | void
-- file: pdaaal-bin/Verifier.h
-- same: 151
== Verifier::verify | Verifier | (PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<int>, void>, u64, true, TI::Single>, weight<std::vector<int>, void>, TI::Single> &, json_stream &) | TI::Single, PAutomatonProduct<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, PAutomaton<std::string, weight<std::vector<int>, void>, u64, true, TI::Single>, weight<std::vector<int>, void>, TI::Single> | void
-- file: pdaaal-bin/Verifier.h
-- same: 151
== main_output::main_output | main_output | (const std::string &) |  | void
-- file: pdaaal-bin/main.cpp
-- id: 152
let	$1	self.output_options
let	$2	res(`boost::program_options::options_description::add_options`, $1)
let	$3	call(`boost::program_options::bool_switch`, addr(self.silent))
let	$4	"Disables non-essential output."
let	$5	res_invoke($2, "silent,s", $3, $4)
let	$6	"print-pda-json"
let	$7	self.pda_json_output
let	$8	call(`boost::program_options::value`, addr($7))
let	$9	"Print PDA in JSON format to terminal."
let	$10	self.solver_instance_output
let	$11	gvar(`boost::program_options::options_description::m_default_line_length`)
do		do(`add_options`, $1)	true
do		invoke($2, "silent,s", $3, $4)	true
do		invoke($5, $6, $8, $9)	true
do		invoke(res_invoke($5, $6, $8, $9), "print-solver-instance", call(`boost::program_options::value`, addr($10)), "Print SolverInstance in JSON format to file.")	true
do		set(self.silent, false)	true
do		set($1, ctor(`boost::program_options::options_description`, param(#0), $11, opdiv($11, 2)))	true
do		set($10, "")	true
do		set($7, "")	true
== main_output::options | main_output | () const |  | const boost::program_options::options_description &
-- file: pdaaal-bin/main.cpp
-- id: 153
ret	self.output_options	true
== main_output::do_output | main_output | (SolverInstance<std::string, W0, std::string, false, TI::Pair> &) | SolverInstance<std::string, W0, std::string, false, TI::Pair> & | void
-- file: pdaaal-bin/main.cpp
-- id: 154
let	$1	self.pda_json_output
let	$2	gvar(`std::cerr`)
let	$3	res(`std::basic_ofstream::is_open`, L(#0))
let	$4	self.solver_instance_output
let	$5	res(`std::basic_ofstream::is_open`, L(#2))
let	$6	fnref(`std::endl`)
let	$7	param(#0)._product
let	$8	enum(`nlohmann::detail::error_handler_t::strict`, `nlohmann::detail::error_handler_t`)
let	$9	enum(`std::_S_out`, `std::_Ios_Openmode`)
do		do(`is_open`, L(#0))	!empty($1)
do		out(`<<`, $2, "Could not open --print-pda-json \"")	!$3 & !empty($1)
do		out(`<<`, $2, $1)	!$3 & !empty($1)
dom		out(`<<`, $2, "\" for writing")	!$3 & !empty($1) | !$5 & !empty($4)
dom		do(`operator<<`, $2, $6)	!$3 & !empty($1) | !$5 & !empty($4)
dom		do(`exit`, -1)	!$3 & !empty($1) | !$5 & !empty($4)
do		out(`<<`, L(#0), call(`nlohmann::basic_json::dump`, call(`pdaaal::PDA::to_json`, $7._pda), -1, 32, false, $8))	!empty($1)
do		do(`operator<<`, L(#0), $6)	!empty($1)
do		do(`is_open`, L(#2))	!empty($4)
do		out(`<<`, $2, "Could not open --print-solver-instance \"")	!$5 & !empty($4)
do		out(`<<`, $2, $4)	!$5 & !empty($4)
do		out(`<<`, L(#2), call(`nlohmann::basic_json::dump`, L(#1)', -1, 32, false, $8))	!empty($4)
do		do(`operator<<`, L(#2), $6)	!empty($4)
do		set(L(#1)["instance"], ctor(`nlohmann::basic_json`, $7))	!empty($4)
dom		init(L(#0), ctor(`std::basic_ofstream`, $1, $9))	true
dom		init(L(#2), ctor(`std::basic_ofstream`, $4, $9))	true
dom		init(L(#1), ctor(`nlohmann::basic_json`, 0))	true
== main_output::do_output | main_output | (SolverInstance<std::string, Wu, std::string, false, TI::Pair> &) | SolverInstance<std::string, Wu, std::string, false, TI::Pair> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, Wi, std::string, false, TI::Pair> &) | SolverInstance<std::string, Wi, std::string, false, TI::Pair> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Pair> &) | SolverInstance<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Pair> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, weight<std::vector<int>, void>, std::string, false, TI::Pair> &) | SolverInstance<std::string, weight<std::vector<int>, void>, std::string, false, TI::Pair> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, W0, u64, true, TI::Pair> &) | SolverInstance<std::string, W0, u64, true, TI::Pair> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, Wu, u64, true, TI::Pair> &) | SolverInstance<std::string, Wu, u64, true, TI::Pair> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, Wi, u64, true, TI::Pair> &) | SolverInstance<std::string, Wi, u64, true, TI::Pair> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, weight<std::vector<u32>, void>, u64, true, TI::Pair> &) | SolverInstance<std::string, weight<std::vector<u32>, void>, u64, true, TI::Pair> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, weight<std::vector<int>, void>, u64, true, TI::Pair> &) | SolverInstance<std::string, weight<std::vector<int>, void>, u64, true, TI::Pair> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, W0, std::string, false, TI::Single> &) | SolverInstance<std::string, W0, std::string, false, TI::Single> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, Wu, std::string, false, TI::Single> &) | SolverInstance<std::string, Wu, std::string, false, TI::Single> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, Wi, std::string, false, TI::Single> &) | SolverInstance<std::string, Wi, std::string, false, TI::Single> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Single> &) | SolverInstance<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Single> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, weight<std::vector<int>, void>, std::string, false, TI::Single> &) | SolverInstance<std::string, weight<std::vector<int>, void>, std::string, false, TI::Single> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, W0, u64, true, TI::Single> &) | SolverInstance<std::string, W0, u64, true, TI::Single> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, Wu, u64, true, TI::Single> &) | SolverInstance<std::string, Wu, u64, true, TI::Single> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, Wi, u64, true, TI::Single> &) | SolverInstance<std::string, Wi, u64, true, TI::Single> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, weight<std::vector<u32>, void>, u64, true, TI::Single> &) | SolverInstance<std::string, weight<std::vector<u32>, void>, u64, true, TI::Single> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== main_output::do_output | main_output | (SolverInstance<std::string, weight<std::vector<int>, void>, u64, true, TI::Single> &) | SolverInstance<std::string, weight<std::vector<int>, void>, u64, true, TI::Single> & | void
-- file: pdaaal-bin/main.cpp
-- same: 154
== run |  | (p::Parsing &, Verifier &, main_output &) | TI::Pair | void
-- file: pdaaal-bin/main.cpp
-- id: 155
let	$1	param(#2).silent
let	$2	param(#2).pda_json_output
let	$3	res(`std::basic_ofstream::is_open`, LL(#0, #1))
let	$4	gvar(`std::cerr`)
let	$5	param(#2).solver_instance_output
let	$6	fnref(`std::endl`)
let	$7	lp(#0, #0)._product
let	$8	addrof(gvar(`std::cout`))
let	$9	res(`std::basic_ofstream::is_open`, LL(#0, #2))
let	$10	enum(`std::_S_out`, `std::_Ios_Openmode`)
let	$11	enum(`nlohmann::detail::error_handler_t::strict`, `nlohmann::detail::error_handler_t`)
let	$12	res(`pdaaal::parsing::Parsing::parse_instance`, param(#0))
do		do(`pdaaal::parsing::Parsing::parse_instance`, param(#0))	true
do		do(`json_stream::entry`, L(#0), "parsing-duration", ctor(`nlohmann::basic_json`, call(`stopwatch::duration`, param(#0).parsing_stopwatch')))	!$1
do		do(`std::visit<lambda>`, fun(none, [eff(ctx([]), {!$3 & !empty($2)}, out(`<<`, $4, "Could not open --print-pda-json \"")), eff(ctx([]), {!empty($5)}, do(`operator<<`, LL(#0, #2), $6)), eff(ctx([]), $1, do(`pdaaal::Verifier::verify`, param(#1), $7, json_stream{_indent: 0, _indent_size: 4, _out: $8, _started: false})), eff(ctx([]), {!$3 & !empty($2) | !$9 & !empty($5)}, do(`exit`, -1)), eff(ctx([]), true, init(LL(#0, #1), ctor(`std::basic_ofstream`, $2, $10))), eff(ctx([]), true, init(LL(#0, #0), ctor(`nlohmann::basic_json`, 0))), eff(ctx([]), {!empty($5)}, set(LL(#0, #0)["instance"], ctor(`nlohmann::basic_json`, $7))), eff(ctx([]), true, init(LL(#0, #2), ctor(`std::basic_ofstream`, $5, $10))), eff(ctx([]), {!empty($5)}, out(`<<`, LL(#0, #2), call(`nlohmann::basic_json::dump`, LL(#0, #0)', -1, 32, false, $11))), eff(ctx([]), {!$9 & !empty($5)}, out(`<<`, $4, "Could not open --print-solver-instance \"")), eff(ctx([]), {!empty($2)}, do(`is_open`, LL(#0, #1))), eff(ctx([]), {!$3 & !empty($2) | !$9 & !empty($5)}, out(`<<`, $4, "\" for writing")), eff(ctx([]), {!$1}, do(`pdaaal::Verifier::verify`, param(#1), $7, json_stream{_indent: L(#0)._indent', _indent_size: 4, _out: L(#0)._out', _started: L(#0)._started'})), eff(ctx([]), {!$3 & !empty($2) | !$9 & !empty($5)}, do(`operator<<`, $4, $6)), eff(ctx([]), {!empty($2)}, out(`<<`, LL(#0, #1), call(`nlohmann::basic_json::dump`, call(`pdaaal::PDA::to_json`, $7._pda), -1, 32, false, $11))), eff(ctx([]), {!$9 & !empty($5)}, out(`<<`, $4, $5)), eff(ctx([]), {!empty($2)}, do(`operator<<`, LL(#0, #1), $6)), eff(ctx([]), {!empty($5)}, do(`is_open`, LL(#0, #2))), eff(ctx([]), {!$3 & !empty($2)}, out(`<<`, $4, $2))]), $12)	true
dom		init(L(#0)._indent, 0)	true
dom		init(L(#0)._out, $8)	true
dom		init(L(#0)._started, false)	true
dom		init(L(#1), $12)	true
== run |  | (p::Parsing &, Verifier &, main_output &) | TI::Single | void
-- file: pdaaal-bin/main.cpp
-- same: 155
== main |  | (int, const char **) |  | int
-- file: pdaaal-bin/main.cpp
-- id: 156
let	$1	res(`boost::program_options::options_description::add_options`, L(#12))
let	$2	"produce help message"
let	$3	res(`boost::program_options::options_description::add_options`, L(#14))
let	$4	call(`boost::program_options::value`, addr(L(#22)))
let	$5	"Input file. To read from std input specify '--input -'."
let	$6	res_invoke($3, "input", $4, $5)
let	$7	call(`boost::program_options::bool_switch`, addr(L(#15)))
let	$8	"Use the binary MessagePack input format"
let	$9	res_invoke($6, "msgpack", $7, $8)
let	$10	call(`boost::program_options::value`, addr(L(#10)))
let	$11	"PDA JSON file input."
let	$12	res_invoke($9, "pda,p", $10, $11)
let	$13	call(`boost::program_options::value`, addr(L(#6)))
let	$14	"Input format. pdaaal|moped (default=pdaaal)."
let	$15	res_invoke($12, "format", $13, $14)
let	$16	call(`boost::program_options::value`, addr(L(#18)))
let	$17	"Weight type. none|uint|int (default=none)."
let	$18	res_invoke($15, "weight", $16, $17)
let	$19	call(`boost::program_options::bool_switch`, addr(L(#19)))
let	$20	"Enable named states (instead of index)."
let	$21	res_invoke($18, "state-names", $19, $20)
let	$22	"initial-automaton,i"
let	$23	call(`boost::program_options::value`, addr(L(#23)))
let	$24	"Initial PAutomaton file input."
let	$25	res_invoke($21, $22, $23, $24)
let	$26	"final-automaton,f"
let	$27	call(`boost::program_options::value`, addr(L(#11)))
let	$28	"Final PAutomaton file input."
let	$29	res(`boost::program_options::options_description::add_options`, L(#2))
let	$30	call(`boost::program_options::value`, addr(L(#3)))
let	$31	"Engine. 0=no verification, 1=post*, 2=pre*, 3=dual*"
let	$32	call(`boost::program_options::value`, addr(L(#4)))^
let	$33	enum(`pdaaal::Trace_Type::None`, `const pdaaal::Trace_Type`)
let	$34	res(`boost::program_options::options_description::add_options`, L(#1))
let	$35	call(`boost::program_options::bool_switch`, addr(L(#13)))
let	$36	"Disables non-essential output."
let	$37	res_invoke($34, "silent,s", $35, $36)
let	$38	"print-pda-json"
let	$39	call(`boost::program_options::value`, addr(L(#0)))
let	$40	"Print PDA in JSON format to terminal."
let	$41	new(`boost::program_options::variables_map`)
let	$42	gvar(`std::cout`)
let	$43	contains(L(#8)'', "help")
let	$44	contains(L(#8)'', "version")
let	$45	"parsing-duration"
let	$46	L(#21).parsing_stopwatch
let	$47	ctor(`nlohmann::basic_json`, call(`stopwatch::duration`, stopwatch{_running: $46._running', _start: $46._start', _stop: $46._stop'}))
let	$48	pdaaal::Verifier{engine: 0, trace_type: enum(`pdaaal::Trace_Type::None`, `pdaaal::Trace_Type`), verification_options: L(#2)'}
let	$49	call(`pdaaal::Verifier::needs_trace_info_pair`, $48)
let	$50	lp(#0, #0)._product
let	$51	res(`pdaaal::parsing::Parsing::parse_instance`, L(#21))
let	$52	L(#16)._started
let	$53	gvar(`boost::program_options::options_description::m_default_line_length`)
let	$54	call(`std::chrono::system_clock::now`)
do		do(`add_options`, L(#12))	true
do		invoke($1, "help,h", $2)	true
do		invoke(res_invoke($1, "help,h", $2), "version,v", "print version")	true
do		do(`add_options`, L(#14))	true
do		invoke($3, "input", $4, $5)	true
do		invoke($6, "msgpack", $7, $8)	true
do		invoke($9, "pda,p", $10, $11)	true
do		invoke($12, "format", $13, $14)	true
do		invoke($15, "weight", $16, $17)	true
do		invoke($18, "state-names", $19, $20)	true
do		invoke($21, $22, $23, $24)	true
do		invoke($25, $26, $27, $28)	true
do		invoke(res_invoke($25, $26, $27, $28), "json-automata", call(`boost::program_options::bool_switch`, addr(L(#7))), "Parse P-automata files using JSON format.")	true
do		do(`add_options`, L(#2))	true
do		invoke($29, "engine,e", $30, $31)	true
do		do(`default_value`, $32, $33)	true
do		invoke(res_invoke($29, "engine,e", $30, $31), "trace,t", res(`boost::program_options::typed_value::default_value`, $32, $33), "Trace type. 0=no trace, 1=any trace, 2=shortest trace, 3=longest trace, 4=fixed-point shortest trace")	true
do		do(`add_options`, L(#1))	true
do		invoke($34, "silent,s", $35, $36)	true
do		invoke($37, $38, $39, $40)	true
do		invoke(res_invoke($37, $38, $39, $40), "print-solver-instance", call(`boost::program_options::value`, addr(L(#9))), "Print SolverInstance in JSON format to file.")	true
do		do(`add`, L(#12), L(#14)')	true
do		do(`add`, L(#12), L(#2)')	true
do		do(`add`, L(#12), L(#1)')	true
do		do(`boost::program_options::store`, call(`boost::program_options::parse_command_line`, param(#0), param(#1), L(#12)'', 0, new(`boost::function1`)), $41, false)	true
do		do(`boost::program_options::notify`, L(#8)')	true
do		out(`<<`, $42, L(#12)'')	$43
dom		do(`operator<<`, $42, fnref(`std::endl`))	$43 | $44
do		out(`<<`, $42, "PDAAAL v0 - git hash: x")	!$43 & $44
do		out(`<<`, $42, "Copyright (C) 2021  Morten K. Schou, Peter G. Jensen, Dan Kristiansen, Bernhard C. Schrenk")	!$43 & $44
do		out(`<<`, $42, "License GPLv3+: GNU GPL version 3 or later <https://gnu.org/licenses/gpl.html>.")	!$43 & $44
do		out(`<<`, $42, "This is free software: you are free to change and redistribute it.")	!$43 & $44
do		out(`<<`, $42, "There is NO WARRANTY, to the extent permitted by law.")	!$43 & $44
dom		do(`pdaaal::parsing::Parsing::parse_instance`, L(#21))	!$43 & !$44
do		do(`json_stream::entry`, L(#5), $45, $47)	!$43 & !$44 & $49
do		do(`std::visit<lambda>`, fun(none, [eff(ctx([]), true, do(`pdaaal::Verifier::verify`, $48, $50, json_stream{_indent: L(#5)._indent', _indent_size: 4, _out: L(#5)._out', _started: L(#5)._started'}))]), $51)	!$43 & !$44 & $49
do		do(`json_stream::entry`, L(#16), $45, $47)	!$43 & !$44 & !$49
do		do(`std::visit<lambda>`, fun(none, [eff(ctx([]), true, do(`pdaaal::Verifier::verify`, $48, $50, json_stream{_indent: L(#16)._indent', _indent_size: 4, _out: L(#16)._out', _started: $52'}))]), $51)	!$43 & !$44 & !$49
dom		init(L(#12), ctor(`boost::program_options::options_description`, $53, opdiv($53, 2)))	true
dom		init(L(#14), ctor(`boost::program_options::options_description`, "Input Options", $53, opdiv($53, 2)))	true
dom		init(L(#2), ctor(`boost::program_options::options_description`, "Verification Options", $53, opdiv($53, 2)))	true
dom		init(L(#1), ctor(`boost::program_options::options_description`, "Output Options", $53, opdiv($53, 2)))	true
dom		init(L(#8), $41)	true
dom		init($46._running, false)	true
dom		init($46._start, $54)	true
dom		init($46._stop, $54)	true
dom		init(L(#5)._indent, 0)	true
dom		init(L(#5)._out, addrof($42))	true
dom		init(L(#5)._started, false)	true
dom		init(L(#17), $51)	true
dom		init(L(#16)._indent, 0)	true
dom		init(L(#16)._out, addrof($42))	true
dom		init($52, false)	true
dom		init(L(#20), $51)	true
ret	1	$43 | $44
ret	0	!$43 & !$44
== p::parsing_options_t::parsing_options_t | p::parsing_options_t | (std::basic_ostream<char, std::char_traits<char>> &, p::input_format, p::weight_type, bool) |  | void
-- file: pdaaal-bin/parsing/Parsing.cpp
-- id: 157
let	$1	self.use_state_names
do		set(self.warnings, addrof(param(#0)))	true
do		set(self.format, param(#1))	true
do		set(self.weight, param(#2))	true
do		set($1, true)	param(#3)
do		set($1, false)	!param(#3)
== p::parse_stream_json_w |  | (std::basic_istream<char, std::char_traits<char>> &, const p::parsing_options_t &) | Wu | std::variant<PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, u64, true>>
-- file: pdaaal-bin/parsing/Parsing.cpp
-- id: 158
let	$1	param(#1).warnings
let	$2	enum(`nlohmann::detail::input_format_t::json`, `nlohmann::detail::input_format_t`)
dom		do(`pdaaal::parsing::PdaJsonParser::parse`, param(#0), $1, $2)	true
ret	res(`pdaaal::parsing::PdaJsonParser::parse`, param(#0), $1, $2)	true
== p::parse_stream_json_w |  | (std::basic_istream<char, std::char_traits<char>> &, const p::parsing_options_t &) | Wi | std::variant<PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, u64, true>>
-- file: pdaaal-bin/parsing/Parsing.cpp
-- same: 158
== p::parse_stream_json_w |  | (std::basic_istream<char, std::char_traits<char>> &, const p::parsing_options_t &) | W0 | std::variant<PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, u64, true>>
-- file: pdaaal-bin/parsing/Parsing.cpp
-- same: 158
== p::parse_stream_json |  | (std::basic_istream<char, std::char_traits<char>> &, const p::parsing_options_t &) |  | std::variant<PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, u64, true>>
-- file: pdaaal-bin/parsing/Parsing.cpp
-- id: 159
dom		do(`pdaaal::parsing::parse_stream_json_w`, param(#0), param(#1))	true
ret	res(`pdaaal::parsing::parse_stream_json_w`, param(#0), param(#1))	true
== p::parse_stream |  | (std::basic_istream<char, std::char_traits<char>> &, const p::parsing_options_t &) |  | std::variant<PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, u64, true>>
-- file: pdaaal-bin/parsing/Parsing.cpp
-- id: 160
let	$1	eq(param(#1).format, enum(`pdaaal::parsing::input_format::PDAAAL`, `pdaaal::parsing::input_format`))
do		do(`pdaaal::parsing::parse_stream_json`, param(#0), param(#1))	$1
do		throw(`std::logic_error`)	!$1
ret	res(`pdaaal::parsing::parse_stream_json`, param(#0), param(#1))	true
== p::parse_file |  | (const std::string &, const p::parsing_options_t &) |  | std::variant<PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, u64, true>>
-- file: pdaaal-bin/parsing/Parsing.cpp
-- id: 161
let	$1	res(`std::basic_ifstream::is_open`, L(#1))
do		do(`is_open`, L(#1))	true
do		out(`<<`, L(#0), "error: Could not open file: ")	!$1
do		out(`<<`, L(#0), param(#0))	!$1
do		do(`operator<<`, L(#0), fnref(`std::endl`))	!$1
do		throw(`std::runtime_error`)	!$1
do		do(`pdaaal::parsing::parse_stream`, L(#1)', param(#1))	$1
dom		init(L(#1), ctor(`std::basic_ifstream`, param(#0), enum(`std::_S_in`, `std::_Ios_Openmode`)))	true
dom		init(L(#0), new(`std::basic_stringstream`))	true
ret	res(`pdaaal::parsing::parse_stream`, L(#1)', param(#1))	true
== p::get_format |  | (const std::string &) |  | p::input_format
-- file: pdaaal-bin/parsing/Parsing.cpp
-- id: 162
let	$1	ix(param(#0), #0)
let	$2	call(`tolower`, param(#0)@0)
let	$3	exists(param(#0), {!eq($2, "pdaaal"[$1]) & !eq(param(#0)@0, "pdaaal"[$1])})
let	$4	size(param(#0))
let	$5	eq(size("pdaaal"), $4)
let	$6	exists(param(#0), {!eq($2, "moped"[$1]) & !eq(param(#0)@0, "moped"[$1])})
let	$7	eq($4, size("moped"))
do		out(`<<`, L(#0), "error: Unrecognized input format: ")	!$5 & !$7 | !$5 & $6 | !$7 & $3 | $3 & $6
do		out(`<<`, L(#0), param(#0))	!$5 & !$7 | !$5 & $6 | !$7 & $3 | $3 & $6
do		do(`operator<<`, L(#0), fnref(`std::endl`))	!$5 & !$7 | !$5 & $6 | !$7 & $3 | $3 & $6
do		throw(`std::runtime_error`)	!$5 & !$7 | !$5 & $6 | !$7 & $3 | $3 & $6
dom		init(L(#0), new(`std::basic_stringstream`))	true
ret	enum(`pdaaal::parsing::input_format::PDAAAL`, `pdaaal::parsing::input_format`)	!$3 & $5
ret	enum(`pdaaal::parsing::input_format::MOPED`, `pdaaal::parsing::input_format`)	!$5 & !$6 & $7 | !$6 & $3 & $7
== p::get_weight_type |  | (const std::string &) |  | p::weight_type
-- file: pdaaal-bin/parsing/Parsing.cpp
-- id: 163
let	$1	size(param(#0))
let	$2	eq($1, size("int"))
let	$3	eq($1, size("uint"))
let	$4	call(`tolower`, param(#0)@0)
let	$5	ix(param(#0), #0)
let	$6	exists(param(#0), {!eq($4, "uint"[$5]) & !eq(param(#0)@0, "uint"[$5])})
let	$7	exists(param(#0), {!eq($4, "none"[$5]) & !eq(param(#0)@0, "none"[$5])})
let	$8	eq(size("none"), $1)
let	$9	exists(param(#0), {!eq($4, "int"[$5]) & !eq(param(#0)@0, "int"[$5])})
do		out(`<<`, L(#0), "error: Unrecognized weight type: ")	!$2 & !$3 & !$8 | !$2 & !$3 & $7 | !$2 & !$8 & $6 | !$2 & $6 & $7 | !$3 & !$8 & $9 | !$3 & $7 & $9 | !$8 & $6 & $9 | $6 & $7 & $9
do		out(`<<`, L(#0), param(#0))	!$2 & !$3 & !$8 | !$2 & !$3 & $7 | !$2 & !$8 & $6 | !$2 & $6 & $7 | !$3 & !$8 & $9 | !$3 & $7 & $9 | !$8 & $6 & $9 | $6 & $7 & $9
do		do(`operator<<`, L(#0), fnref(`std::endl`))	!$2 & !$3 & !$8 | !$2 & !$3 & $7 | !$2 & !$8 & $6 | !$2 & $6 & $7 | !$3 & !$8 & $9 | !$3 & $7 & $9 | !$8 & $6 & $9 | $6 & $7 & $9
do		throw(`std::runtime_error`)	!$2 & !$3 & !$8 | !$2 & !$3 & $7 | !$2 & !$8 & $6 | !$2 & $6 & $7 | !$3 & !$8 & $9 | !$3 & $7 & $9 | !$8 & $6 & $9 | $6 & $7 & $9
dom		init(L(#0), new(`std::basic_stringstream`))	true
ret	enum(`pdaaal::parsing::weight_type::NONE`, `pdaaal::parsing::weight_type`)	!$7 & $8
ret	enum(`pdaaal::parsing::weight_type::UINT`, `pdaaal::parsing::weight_type`)	!$6 & !$8 & $3 | !$6 & $3 & $7
ret	enum(`pdaaal::parsing::weight_type::INT`, `pdaaal::parsing::weight_type`)	!$3 & !$8 & !$9 & $2 | !$3 & !$9 & $2 & $7 | !$8 & !$9 & $2 & $6 | !$9 & $2 & $6 & $7
== p::Parsing::parse_pda | p::Parsing | (bool) |  | std::variant<PDA<std::string, W0, fut::vector, std::string, false>, PDA<std::string, W0, fut::vector, u64, true>, PDA<std::string, Wu, fut::vector, std::string, false>, PDA<std::string, Wu, fut::vector, u64, true>, PDA<std::string, Wi, fut::vector, std::string, false>, PDA<std::string, Wi, fut::vector, u64, true>>
-- file: pdaaal-bin/parsing/Parsing.cpp
-- id: 164
let	$1	self.parsing_stopwatch
let	$2	gvar(`std::cin`)
let	$3	call(`pdaaal::parsing::get_format`, self.input_format)
let	$4	self.use_state_names
let	$5	call(`pdaaal::parsing::get_weight_type`, self.weight_type)
let	$6	pdaaal::parsing::parsing_options_t{format: $3, use_state_names: $4, warnings: addrof(new(`std::basic_stringstream`)), weight: $5}
let	$7	empty(self.pda_file)
let	$8	eq("-", self.pda_file)
let	$9	pdaaal::parsing::parsing_options_t{format: $3, use_state_names: $4, warnings: addrof(gvar(`std::cerr`)), weight: $5}
do		do(`stopwatch::start`, $1)	true
do		do(`pdaaal::parsing::parse_stream`, $2, $6)	$7 & param(#0) | $8 & param(#0)
do		do(`pdaaal::parsing::parse_stream`, $2, $9)	!param(#0) & $7 | !param(#0) & $8
do		do(`stopwatch::stop`, $1)	true
ret	res(`pdaaal::parsing::parse_stream`, $2, $6)	$7 & param(#0) | $8 & param(#0)
ret	res(`pdaaal::parsing::parse_stream`, $2, $9)	!param(#0) & $7 | !param(#0) & $8
ret	call(`pdaaal::parsing::parse_file`, self.pda_file, $6)	!$7 & !$8 & param(#0)
ret	call(`pdaaal::parsing::parse_file`, self.pda_file, $9)	!$7 & !$8 & !param(#0)
== p::JsonParserContext::JsonParserContext | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3> | (p::PAutomatonSaxHelper::context_type, unsigned char, std::in_place_index_t<0>) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 55
== p::JsonParserContext::JsonParserContext | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3> | (p::PAutomatonSaxHelper::context_type, u64, std::in_place_index_t<1>) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 55
== p::JsonParserContext::is_object | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 102
== p::JsonParserContext::is_array | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 106
== p::JsonParserContext::got_flag | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3> | (unsigned char) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 109
== p::JsonParserContext::needs_flag | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3> | (unsigned char) const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 131
== p::JsonParserContext::has_missing_flags | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 132
== p::JsonParserContext::get_missing_flags | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3> | () const |  | std::vector<unsigned char>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 134
== p::JsonParserContext::get_index | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3> | () const |  | u64
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 135
== p::JsonParserContext::increment_index | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3> | () |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 136
== p::JsonParserContext::JsonParserContext | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1> | (p::SolverInstanceSaxHelper::context_type, unsigned char, std::in_place_index_t<0>) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 55
== p::JsonParserContext::JsonParserContext | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1> | (p::SolverInstanceSaxHelper::context_type, u64, std::in_place_index_t<1>) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 55
== PDA::exists_state | PDA<std::string, W0, fut::vector, std::string, false> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PDA.h
-- id: 165
ret	call(`pdaaal::utils::ptrie_set::exists`, self._state_map, param(#0))	true
== p::JsonParserContext::is_object | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 102
== p::JsonParserContext::is_array | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 106
== PDA::exists_state | PDA<std::string, W0, fut::vector, u64, true> | (const u64 &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PDA.h
-- id: 166
ret	tuple{#0: lt(param(#0), size(self._states)), #1: param(#0)}	true
== PDA::to_json | PDA<std::string, W0, fut::vector, u64, true> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PDA.h
-- id: 167
do		set(L(#0)["pda"], ctor(`nlohmann::basic_json`, self))	true
dom		init(L(#0), ctor(`nlohmann::basic_json`, 0))	true
ret	L(#0)'	true
== p::JsonParserContext::got_flag | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1> | (unsigned char) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 109
== PDA::add_rule_detail | PDA<std::string, W0, fut::hash, std::string, false> | (u64, i::pda_rule_t<W0, void>, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/PDA.h
-- id: 168
do		do(`pdaaal::internal::PDA::add_untyped_rule_impl`, self, param(#0), param(#1), true, param(#3))	param(#2)
do		do(`pdaaal::internal::PDA::add_untyped_rule_impl`, self, param(#0), param(#1), false, param(#3))	!param(#2)
== p::JsonParserContext::needs_flag | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1> | (unsigned char) const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 131
== PDA::add_rule_detail | PDA<std::string, W0, fut::hash, u64, true> | (u64, i::pda_rule_t<W0, void>, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/PDA.h
-- same: 168
== p::JsonParserContext::has_missing_flags | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 132
== p::JsonParserContext::get_missing_flags | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1> | () const |  | std::vector<unsigned char>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 134
== p::JsonParserContext::get_index | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1> | () const |  | u64
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 135
== PDA::exists_state | PDA<std::string, Wu, fut::vector, std::string, false> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PDA.h
-- same: 165
== PDA::to_json | PDA<std::string, Wu, fut::vector, std::string, false> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PDA.h
-- same: 167
== p::JsonParserContext::increment_index | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1> | () |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 136
== PDA::exists_state | PDA<std::string, Wu, fut::vector, u64, true> | (const u64 &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PDA.h
-- same: 166
== PDA::to_json | PDA<std::string, Wu, fut::vector, u64, true> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PDA.h
-- same: 167
== PDA::insert_state | PDA<std::string, Wu, fut::hash, std::string, false> | (const std::string &) |  | u64
-- file: include/pdaaal/PDA.h
-- id: 169
let	$1	self._state_map
let	$2	fresh(`pdaaal::utils::ptrie_set::insert`, $1, param(#0))
do		do(`pdaaal::utils::ptrie_set::insert`, $1, param(#0))	true
do		do(`pdaaal::internal::PDA::add_state`, self, $2)	true
ret	$2	true
== PDA::add_rule_detail | PDA<std::string, Wu, fut::hash, std::string, false> | (u64, i::pda_rule_t<Wu, void>, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/PDA.h
-- same: 168
== PDA::add_rule_detail | PDA<std::string, Wu, fut::hash, u64, true> | (u64, i::pda_rule_t<Wu, void>, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/PDA.h
-- same: 168
== PDA::exists_state | PDA<std::string, Wi, fut::vector, std::string, false> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PDA.h
-- same: 165
== PDA::to_json | PDA<std::string, Wi, fut::vector, std::string, false> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PDA.h
-- same: 167
== p::make_context_object |  | () | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>, p::PdaSaxHelper::context_type::unknown, 0UL | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 170
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== p::make_context_object |  | () | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>, p::PdaSaxHelper::context_type::initial, 1UL | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 171
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 1), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== PDA::exists_state | PDA<std::string, Wi, fut::vector, u64, true> | (const u64 &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PDA.h
-- same: 166
== PDA::to_json | PDA<std::string, Wi, fut::vector, u64, true> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PDA.h
-- same: 167
== p::make_context_object |  | () | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>, p::PdaSaxHelper::context_type::pda, 1UL | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 172
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 1), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::pda`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== p::make_context_object |  | () | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>, p::PdaSaxHelper::context_type::states_object, 0UL | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 173
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::states_object`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== PDA::insert_state | PDA<std::string, Wi, fut::hash, std::string, false> | (const std::string &) |  | u64
-- file: include/pdaaal/PDA.h
-- same: 169
== PDA::add_rule_detail | PDA<std::string, Wi, fut::hash, std::string, false> | (u64, i::pda_rule_t<Wi, void>, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/PDA.h
-- same: 168
== p::make_context_object |  | () | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>, p::PdaSaxHelper::context_type::state, 0UL | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 174
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== PDA::add_rule_detail | PDA<std::string, Wi, fut::hash, u64, true> | (u64, i::pda_rule_t<Wi, void>, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/PDA.h
-- same: 168
== p::make_context_object |  | () | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2>, p::PdaTypeSaxHelper::context_type::initial, 2UL | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 175
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 3), type: enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::initial`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`)}	true
== p::make_context_object |  | () | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>, p::PAutomatonSaxHelper::context_type::initial, 1UL | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 176
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 1), type: enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`)}	true
== p::make_context_object |  | () | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1>, p::SolverInstanceSaxHelper::context_type::initial, 1UL | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 177
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 1), type: enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::initial`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`)}	true
== PDA::exists_state | PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PDA.h
-- same: 165
== p::make_context_object |  | () | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>, p::PAutomatonSaxHelper::context_type::p_automaton, 3UL | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 178
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 7), type: enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`)}	true
== PDA::to_json | PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PDA.h
-- same: 167
== p::make_context_object |  | () | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>, p::PdaSaxHelper::context_type::rule, 2UL | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 179
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 3), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== p::make_context_object |  | () | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>, p::PdaSaxHelper::context_type::rule, 3UL | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 180
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 7), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== PDA::exists_state | PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true> | (const u64 &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PDA.h
-- same: 166
== p::make_context_object |  | () | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>, p::PAutomatonSaxHelper::context_type::p_automaton, 2UL | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 181
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 3), type: enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`)}	true
== PDA::to_json | PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PDA.h
-- same: 167
== p::make_context_array |  | () | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>, p::PdaSaxHelper::context_type::state_array | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 182
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::state_array`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== PDA::insert_state | PDA<std::string, weight<std::vector<u32>, void>, fut::hash, std::string, false> | (const std::string &) |  | u64
-- file: include/pdaaal/PDA.h
-- same: 169
== PDA::add_rule_detail | PDA<std::string, weight<std::vector<u32>, void>, fut::hash, std::string, false> | (u64, i::pda_rule_t<weight<std::vector<u32>, void>, void>, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/PDA.h
-- same: 168
== p::make_context_array |  | () | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>, p::PdaSaxHelper::context_type::rule_array | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 183
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule_array`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== p::make_context_array |  | () | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>, p::PdaSaxHelper::context_type::weight_array | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 184
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== PDA::add_rule_detail | PDA<std::string, weight<std::vector<u32>, void>, fut::hash, u64, true> | (u64, i::pda_rule_t<weight<std::vector<u32>, void>, void>, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/PDA.h
-- same: 168
== p::make_context_array |  | () | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2>, p::PdaTypeSaxHelper::context_type::weight_array | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 185
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`)}	true
== p::make_context_array |  | () | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>, p::PAutomatonSaxHelper::context_type::initial_array | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 186
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`)}	true
== p::make_context_array |  | () | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>, p::PAutomatonSaxHelper::context_type::accepting_array | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 187
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::accepting_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`)}	true
== PDA::exists_state | PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PDA.h
-- same: 165
== PDA::to_json | PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PDA.h
-- same: 167
== p::make_context_array |  | () | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>, p::PAutomatonSaxHelper::context_type::edges_array | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 188
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edges_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`)}	true
== p::make_context_array |  | () | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>, p::PAutomatonSaxHelper::context_type::edge_context | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 189
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`)}	true
== p::make_context_array |  | () | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1>, p::SolverInstanceSaxHelper::context_type::instance | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 190
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`)}	true
== PDA::exists_state | PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true> | (const u64 &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PDA.h
-- same: 166
== PDA::to_json | PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true> | () const |  | nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void>
-- file: include/pdaaal/PDA.h
-- same: 167
== p::SAXHandlerContextStack::SAXHandlerContextStack | p::SAXHandlerContextStack<p::PdaSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 191
do		set(self._errors, addrof(param(#0)))	true
do		set(self._errored, false)	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`))	true
do		set(self._context_stack, new(`std::stack`))	true
== PDA::insert_state | PDA<std::string, weight<std::vector<int>, void>, fut::hash, std::string, false> | (const std::string &) |  | u64
-- file: include/pdaaal/PDA.h
-- same: 169
== PDA::add_rule_detail | PDA<std::string, weight<std::vector<int>, void>, fut::hash, std::string, false> | (u64, i::pda_rule_t<weight<std::vector<int>, void>, void>, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/PDA.h
-- same: 168
== p::SAXHandlerContextStack::SAXHandlerContextStack | p::SAXHandlerContextStack<p::PdaSaxHelper> | (const p::SAXHandlerBase &) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 192
do		set(fld(self, `<base:pdaaal::parsing::SAXHandlerBase>`), param(#0))	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`))	true
do		set(self._context_stack, new(`std::stack`))	true
== PDA::add_rule_detail | PDA<std::string, weight<std::vector<int>, void>, fut::hash, u64, true> | (u64, i::pda_rule_t<weight<std::vector<int>, void>, void>, bool, const std::vector<u32> &) |  | void
-- file: include/pdaaal/PDA.h
-- same: 168
== p::SAXHandlerContextStack::context_object | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::unknown, 0UL | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 193
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== details::pda_rule_to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const std::string &, const i::pda_rule_t<Wu, void> &, const PDA<std::string, Wu, fut::vector, std::string, false> &) | std::string, Wu, fut::vector, std::string, false | void
-- file: include/pdaaal/PDA.h
-- id: 194
let	$1	param(#0)[param(#2)]
let	$2	contains(param(#0), param(#2))
let	$3	call(`nlohmann::basic_json::is_array`, $1)
let	$4	param(#3)._operation
let	$5	param(#1)["swap"]
let	$6	ctor(`nlohmann::basic_json`, call(`pdaaal::PDA::get_symbol`, param(#4), param(#3)._op_label))
do		do(`push`, $1, $1)	!$3 & $2
do		do(`push`, $1, param(#1))	$2
do		set(param(#1)["pop"], ctor(`nlohmann::basic_json`, ""))	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $4)
do		set($5, ctor(`nlohmann::basic_json`, param(#2)))	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $4)
do		set($5, $6)	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $4)
do		set(param(#1)["push"], $6)	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $4)
do		set(param(#1)["weight"], ctor(`nlohmann::basic_json`, param(#3)._weight))	true
do		set($1, param(#1))	!$2
do		set($1, call(`nlohmann::basic_json::array`, new(`std::initializer_list`)))	!$3 & $2
== p::SAXHandlerContextStack::context_object | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::initial, 1UL | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 195
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 1), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== details::pda_rule_to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const std::string &, const i::pda_rule_t<Wi, void> &, const PDA<std::string, Wi, fut::vector, std::string, false> &) | std::string, Wi, fut::vector, std::string, false | void
-- file: include/pdaaal/PDA.h
-- same: 194
== details::pda_rule_to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const std::string &, const i::pda_rule_t<weight<std::vector<u32>, void>, void> &, const PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false> &) | std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false | void
-- file: include/pdaaal/PDA.h
-- same: 194
== p::SAXHandlerContextStack::context_object | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::pda, 1UL | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 196
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 1), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::pda`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== details::pda_rule_to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const std::string &, const i::pda_rule_t<weight<std::vector<int>, void>, void> &, const PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false> &) | std::string, weight<std::vector<int>, void>, fut::vector, std::string, false | void
-- file: include/pdaaal/PDA.h
-- same: 194
== details::pda_rule_to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const std::string &, const i::pda_rule_t<W0, void> &, const PDA<std::string, W0, fut::vector, u64, true> &) | std::string, W0, fut::vector, u64, true | void
-- file: include/pdaaal/PDA.h
-- id: 197
let	$1	param(#0)[param(#2)]
let	$2	contains(param(#0), param(#2))
let	$3	call(`nlohmann::basic_json::is_array`, $1)
let	$4	param(#3)._operation
let	$5	param(#1)["swap"]
let	$6	ctor(`nlohmann::basic_json`, call(`pdaaal::PDA::get_symbol`, param(#4), param(#3)._op_label))
do		do(`push`, $1, $1)	!$3 & $2
do		do(`push`, $1, param(#1))	$2
do		set(param(#1)["pop"], ctor(`nlohmann::basic_json`, ""))	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $4)
do		set($5, ctor(`nlohmann::basic_json`, param(#2)))	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $4)
do		set($5, $6)	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $4)
do		set(param(#1)["push"], $6)	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $4)
do		set($1, param(#1))	!$2
do		set($1, call(`nlohmann::basic_json::array`, new(`std::initializer_list`)))	!$3 & $2
== p::SAXHandlerContextStack::context_object | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::states_object, 0UL | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 198
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::states_object`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== details::pda_rule_to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const std::string &, const i::pda_rule_t<Wu, void> &, const PDA<std::string, Wu, fut::vector, u64, true> &) | std::string, Wu, fut::vector, u64, true | void
-- file: include/pdaaal/PDA.h
-- same: 194
== p::SAXHandlerContextStack::context_object | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::state, 0UL | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 199
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== details::pda_rule_to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const std::string &, const i::pda_rule_t<Wi, void> &, const PDA<std::string, Wi, fut::vector, u64, true> &) | std::string, Wi, fut::vector, u64, true | void
-- file: include/pdaaal/PDA.h
-- same: 194
== details::pda_rule_to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const std::string &, const i::pda_rule_t<weight<std::vector<u32>, void>, void> &, const PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true> &) | std::string, weight<std::vector<u32>, void>, fut::vector, u64, true | void
-- file: include/pdaaal/PDA.h
-- same: 194
== p::SAXHandlerContextStack::context_object | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::rule, 2UL | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 200
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 3), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== details::pda_rule_to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const std::string &, const i::pda_rule_t<weight<std::vector<int>, void>, void> &, const PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true> &) | std::string, weight<std::vector<int>, void>, fut::vector, u64, true | void
-- file: include/pdaaal/PDA.h
-- same: 194
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, W0, fut::vector, u64, true> &) | std::string, W0, fut::vector | void
-- file: include/pdaaal/PDA.h
-- id: 201
let	$1	new(`std::initializer_list`)
let	$2	call(`nlohmann::basic_json::object`, $1)
let	$3	param(#1)._states
let	$4	foreach($3@0._rules)
let	$5	call(`nlohmann::basic_json::is_array`, L(#2)["*"]')
let	$6	contains(L(#2)', "*")
let	$7	$3@0._rules@0.#1
let	$8	$3@0._rules@0.#0
let	$9	ctor(`nlohmann::basic_json`, $8._to)
let	$10	ctor(`nlohmann::basic_json`, "")
let	$11	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $8._operation)
let	$12	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $8._operation)
let	$13	ctor(`nlohmann::basic_json`, call(`pdaaal::PDA::get_symbol`, param(#1), $8._op_label))
let	$14	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $8._operation)
let	$15	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $8._operation)
let	$16	call(`nlohmann::basic_json::array`, $1)
let	$17	foreach($7._labels)
let	$18	call(`pdaaal::PDA::get_symbol`, param(#1), $7._labels@0)
let	$19	contains(L(#2)', $18)
let	$20	call(`nlohmann::basic_json::is_array`, L(#2)[$18]')
do		set(param(#0), $2)	true
do	foreach($3) ; $4	do(`push`, L(#2)["*"], L(#2)["*"]')	!$5 & $6 & $7._wildcard
do	foreach($3) ; $4	do(`push`, L(#2)["*"], L(#1)'')	$6 & $7._wildcard
do	foreach($3) ; $4	set(L(#1)["to"], $9)	$7._wildcard
do	foreach($3) ; $4	set(L(#1)["pop"], $10)	$11 & $7._wildcard
do	foreach($3) ; $4	set(L(#1)["swap"], ctor(`nlohmann::basic_json`, "*"))	$12 & $7._wildcard
do	foreach($3) ; $4	set(L(#1)["swap"], $13)	$14 & $7._wildcard
do	foreach($3) ; $4	set(L(#1)["push"], $13)	$15 & $7._wildcard
do	foreach($3) ; $4	set(L(#2)["*"], L(#1)'')	!$6 & $7._wildcard
do	foreach($3) ; $4	set(L(#2)["*"], $16)	!$5 & $6 & $7._wildcard
do	foreach($3) ; $4 ; $17	do(`push`, L(#2)[$18], L(#2)[$18]')	!$20 & !$7._wildcard & $19
do	foreach($3) ; $4 ; $17	do(`push`, L(#2)[$18], L(#0)'')	!$7._wildcard & $19
do	foreach($3) ; $4 ; $17	set(L(#0)["to"], $9)	!$7._wildcard
do	foreach($3) ; $4 ; $17	set(L(#0)["pop"], $10)	!$7._wildcard & $11
do	foreach($3) ; $4 ; $17	set(L(#0)["swap"], ctor(`nlohmann::basic_json`, $18))	!$7._wildcard & $12
do	foreach($3) ; $4 ; $17	set(L(#0)["swap"], $13)	!$7._wildcard & $14
do	foreach($3) ; $4 ; $17	set(L(#0)["push"], $13)	!$7._wildcard & $15
do	foreach($3) ; $4 ; $17	set(L(#2)[$18], L(#0)'')	!$19 & !$7._wildcard
do	foreach($3) ; $4 ; $17	set(L(#2)[$18], $16)	!$20 & !$7._wildcard & $19
do	foreach($3)	do(`push`, L(#3), L(#2)')	true
do		set(param(#0)["states"], L(#3)')	true
dom		init(L(#3), $16)	true
dom	foreach($3)	init(L(#2), $2)	true
dom	foreach($3) ; $4	init(L(#1), $2)	true
dom	foreach($3) ; $4 ; $17	init(L(#0), $2)	true
== p::SAXHandlerContextStack::context_object | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::rule, 3UL | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 202
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 7), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, Wu, fut::vector, u64, true> &) | std::string, Wu, fut::vector | void
-- file: include/pdaaal/PDA.h
-- id: 203
let	$1	new(`std::initializer_list`)
let	$2	call(`nlohmann::basic_json::object`, $1)
let	$3	param(#1)._states
let	$4	foreach($3@0._rules)
let	$5	$3@0._rules@0.#1
let	$6	contains(L(#3)', "*")
let	$7	call(`nlohmann::basic_json::is_array`, L(#3)["*"]')
let	$8	$3@0._rules@0.#0
let	$9	ctor(`nlohmann::basic_json`, $8._to)
let	$10	ctor(`nlohmann::basic_json`, "")
let	$11	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $8._operation)
let	$12	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $8._operation)
let	$13	ctor(`nlohmann::basic_json`, call(`pdaaal::PDA::get_symbol`, param(#1), $8._op_label))
let	$14	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $8._operation)
let	$15	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $8._operation)
let	$16	ctor(`nlohmann::basic_json`, $8._weight)
let	$17	call(`nlohmann::basic_json::array`, $1)
let	$18	foreach($5._labels)
let	$19	call(`pdaaal::PDA::get_symbol`, param(#1), $5._labels@0)
let	$20	call(`nlohmann::basic_json::is_array`, L(#3)[$19]')
let	$21	contains(L(#3)', $19)
do		set(param(#0), $2)	true
do	foreach($3) ; $4	do(`push`, L(#3)["*"], L(#3)["*"]')	!$7 & $5._wildcard & $6
do	foreach($3) ; $4	do(`push`, L(#3)["*"], L(#2)'')	$5._wildcard & $6
do	foreach($3) ; $4	set(L(#2)["to"], $9)	$5._wildcard
do	foreach($3) ; $4	set(L(#2)["pop"], $10)	$11 & $5._wildcard
do	foreach($3) ; $4	set(L(#2)["swap"], ctor(`nlohmann::basic_json`, "*"))	$12 & $5._wildcard
do	foreach($3) ; $4	set(L(#2)["swap"], $13)	$14 & $5._wildcard
do	foreach($3) ; $4	set(L(#2)["push"], $13)	$15 & $5._wildcard
do	foreach($3) ; $4	set(L(#2)["weight"], $16)	$5._wildcard
do	foreach($3) ; $4	set(L(#3)["*"], L(#2)'')	!$6 & $5._wildcard
do	foreach($3) ; $4	set(L(#3)["*"], $17)	!$7 & $5._wildcard & $6
do	foreach($3) ; $4 ; $18	do(`push`, L(#3)[$19], L(#3)[$19]')	!$20 & !$5._wildcard & $21
do	foreach($3) ; $4 ; $18	do(`push`, L(#3)[$19], L(#0)'')	!$5._wildcard & $21
do	foreach($3) ; $4 ; $18	set(L(#0)["to"], $9)	!$5._wildcard
do	foreach($3) ; $4 ; $18	set(L(#0)["pop"], $10)	!$5._wildcard & $11
do	foreach($3) ; $4 ; $18	set(L(#0)["swap"], ctor(`nlohmann::basic_json`, $19))	!$5._wildcard & $12
do	foreach($3) ; $4 ; $18	set(L(#0)["swap"], $13)	!$5._wildcard & $14
do	foreach($3) ; $4 ; $18	set(L(#0)["push"], $13)	!$5._wildcard & $15
do	foreach($3) ; $4 ; $18	set(L(#0)["weight"], $16)	!$5._wildcard
do	foreach($3) ; $4 ; $18	set(L(#3)[$19], L(#0)'')	!$21 & !$5._wildcard
do	foreach($3) ; $4 ; $18	set(L(#3)[$19], $17)	!$20 & !$5._wildcard & $21
do	foreach($3)	do(`push`, L(#1), L(#3)')	true
do		set(param(#0)["states"], L(#1)')	true
dom		init(L(#1), $17)	true
dom	foreach($3)	init(L(#3), $2)	true
dom	foreach($3) ; $4	init(L(#2), $2)	true
dom	foreach($3) ; $4 ; $18	init(L(#0), $2)	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, Wi, fut::vector, u64, true> &) | std::string, Wi, fut::vector | void
-- file: include/pdaaal/PDA.h
-- same: 203
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true> &) | std::string, weight<std::vector<u32>, void>, fut::vector | void
-- file: include/pdaaal/PDA.h
-- same: 203
== p::SAXHandlerContextStack::context_array | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::state_array | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 204
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::state_array`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true> &) | std::string, weight<std::vector<int>, void>, fut::vector | void
-- file: include/pdaaal/PDA.h
-- same: 203
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, Wu, fut::vector, std::string, false> &) | std::string, Wu, fut::vector, std::string | void
-- file: include/pdaaal/PDA.h
-- id: 205
let	$1	new(`std::initializer_list`)
let	$2	call(`nlohmann::basic_json::object`, $1)
let	$3	param(#1)._states
let	$4	foreach($3@0._rules)
let	$5	$3@0._rules@0.#0
let	$6	call(`nlohmann::basic_json::is_array`, L(#2)["*"]')
let	$7	contains(L(#2)', "*")
let	$8	$3@0._rules@0.#1
let	$9	ctor(`nlohmann::basic_json`, str_of(L(#6)'))
let	$10	ctor(`nlohmann::basic_json`, "")
let	$11	eq(enum(`pdaaal::POP`, `pdaaal::op_t`), $5._operation)
let	$12	eq(enum(`pdaaal::NOOP`, `pdaaal::op_t`), $5._operation)
let	$13	ctor(`nlohmann::basic_json`, call(`pdaaal::PDA::get_symbol`, param(#1), $5._op_label))
let	$14	eq(enum(`pdaaal::SWAP`, `pdaaal::op_t`), $5._operation)
let	$15	eq(enum(`pdaaal::PUSH`, `pdaaal::op_t`), $5._operation)
let	$16	ctor(`nlohmann::basic_json`, $5._weight)
let	$17	call(`nlohmann::basic_json::array`, $1)
let	$18	foreach($8._labels)
let	$19	call(`pdaaal::PDA::get_symbol`, param(#1), $8._labels@0)
let	$20	contains(L(#2)', $19)
let	$21	call(`nlohmann::basic_json::is_array`, L(#2)[$19]')
let	$22	range(size($3), call(`pdaaal::state_mapping::state_map_size`, param(#1)))
let	$23	new(`std::basic_stringstream`)
do		set(param(#0), $2)	true
do	foreach($3) ; $4	out(`<<`, L(#6), call(`pdaaal::state_mapping::get_state`, param(#1), $5._to))	true
do	foreach($3) ; $4	do(`push`, L(#2)["*"], L(#2)["*"]')	!$6 & $7 & $8._wildcard
do	foreach($3) ; $4	do(`push`, L(#2)["*"], L(#3)'')	$7 & $8._wildcard
do	foreach($3) ; $4	set(L(#3)["to"], $9)	$8._wildcard
do	foreach($3) ; $4	set(L(#3)["pop"], $10)	$11 & $8._wildcard
do	foreach($3) ; $4	set(L(#3)["swap"], ctor(`nlohmann::basic_json`, "*"))	$12 & $8._wildcard
do	foreach($3) ; $4	set(L(#3)["swap"], $13)	$14 & $8._wildcard
do	foreach($3) ; $4	set(L(#3)["push"], $13)	$15 & $8._wildcard
do	foreach($3) ; $4	set(L(#3)["weight"], $16)	$8._wildcard
do	foreach($3) ; $4	set(L(#2)["*"], L(#3)'')	!$7 & $8._wildcard
do	foreach($3) ; $4	set(L(#2)["*"], $17)	!$6 & $7 & $8._wildcard
do	foreach($3) ; $4 ; $18	do(`push`, L(#2)[$19], L(#2)[$19]')	!$21 & !$8._wildcard & $20
do	foreach($3) ; $4 ; $18	do(`push`, L(#2)[$19], L(#0)'')	!$8._wildcard & $20
do	foreach($3) ; $4 ; $18	set(L(#0)["to"], $9)	!$8._wildcard
do	foreach($3) ; $4 ; $18	set(L(#0)["pop"], $10)	!$8._wildcard & $11
do	foreach($3) ; $4 ; $18	set(L(#0)["swap"], ctor(`nlohmann::basic_json`, $19))	!$8._wildcard & $12
do	foreach($3) ; $4 ; $18	set(L(#0)["swap"], $13)	!$8._wildcard & $14
do	foreach($3) ; $4 ; $18	set(L(#0)["push"], $13)	!$8._wildcard & $15
do	foreach($3) ; $4 ; $18	set(L(#0)["weight"], $16)	!$8._wildcard
do	foreach($3) ; $4 ; $18	set(L(#2)[$19], L(#0)'')	!$20 & !$8._wildcard
do	foreach($3) ; $4 ; $18	set(L(#2)[$19], $17)	!$21 & !$8._wildcard & $20
do	foreach($3)	out(`<<`, L(#4), call(`pdaaal::state_mapping::get_state`, param(#1), ix($3, #0)))	true
do	foreach($3)	set(L(#1)[str_of(L(#4)')], L(#2)')	true
do	foreach($22)	out(`<<`, L(#5), call(`pdaaal::state_mapping::get_state`, param(#1), $22@0))	true
do	foreach($22)	set(L(#1)[str_of(L(#5)')], $2)	true
do		set(param(#0)["states"], L(#1)'')	true
dom		init(L(#1), $2)	true
dom	foreach($3)	init(L(#2), $2)	true
dom	foreach($3) ; $4	init(L(#6), $23)	true
dom	foreach($3) ; $4	init(L(#3), $2)	true
dom	foreach($3) ; $4 ; $18	init(L(#0), $2)	true
dom	foreach($3)	init(L(#4), $23)	true
dom	foreach($22)	init(L(#5), $23)	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, Wi, fut::vector, std::string, false> &) | std::string, Wi, fut::vector, std::string | void
-- file: include/pdaaal/PDA.h
-- same: 205
== p::SAXHandlerContextStack::context_array | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::rule_array | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 206
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule_array`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false> &) | std::string, weight<std::vector<u32>, void>, fut::vector, std::string | void
-- file: include/pdaaal/PDA.h
-- same: 205
== to_json |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false> &) | std::string, weight<std::vector<int>, void>, fut::vector, std::string | void
-- file: include/pdaaal/PDA.h
-- same: 205
== details::params_state_names |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, W0, fut::vector, u64, true> &) | std::string, W0 | void
-- file: include/pdaaal/PDA.h
-- id: 207
do		set(param(#0)["state-names"], ctor(`nlohmann::basic_json`, false))	true
== p::SAXHandlerContextStack::context_array | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::weight_array | p::JsonParserContext<p::PdaSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 208
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PdaSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaSaxHelper::context_type`)}	true
== details::params_state_names |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, Wu, fut::vector, u64, true> &) | std::string, Wu | void
-- file: include/pdaaal/PDA.h
-- same: 207
== details::params_state_names |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, Wi, fut::vector, u64, true> &) | std::string, Wi | void
-- file: include/pdaaal/PDA.h
-- same: 207
== details::params_state_names |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true> &) | std::string, weight<std::vector<u32>, void> | void
-- file: include/pdaaal/PDA.h
-- same: 207
== p::SAXHandlerContextStack::pop_context | p::SAXHandlerContextStack<p::PdaSaxHelper> | () |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 209
do		do(`pop`, self._context_stack)	true
== details::params_state_names |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true> &) | std::string, weight<std::vector<int>, void> | void
-- file: include/pdaaal/PDA.h
-- same: 207
== details::params_state_names |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, Wu, fut::vector, std::string, false> &) | std::string, Wu, std::string | void
-- file: include/pdaaal/PDA.h
-- id: 210
do		set(param(#0)["state-names"], ctor(`nlohmann::basic_json`, true))	true
== details::params_state_names |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, Wi, fut::vector, std::string, false> &) | std::string, Wi, std::string | void
-- file: include/pdaaal/PDA.h
-- same: 210
== p::SAXHandlerContextStack::push_context | p::SAXHandlerContextStack<p::PdaSaxHelper> | (const p::JsonParserContext<p::PdaSaxHelper::context_type, 3> &) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 211
do		do(`push`, self._context_stack, param(#0))	true
== details::params_state_names |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false> &) | std::string, weight<std::vector<u32>, void>, std::string | void
-- file: include/pdaaal/PDA.h
-- same: 210
== details::params_state_names |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false> &) | std::string, weight<std::vector<int>, void>, std::string | void
-- file: include/pdaaal/PDA.h
-- same: 210
== details::params_weight_type |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, W0, fut::vector, std::string, false> &) | std::string, std::string, false | void
-- file: include/pdaaal/PDA.h
-- id: 212
do		set(param(#0)["weight-type"], ctor(`nlohmann::basic_json`, "none"))	true
== details::params_weight_type |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, W0, fut::vector, u64, true> &) | std::string, u64, true | void
-- file: include/pdaaal/PDA.h
-- same: 212
== details::params_weight_type |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false> &) | u32, std::string, std::string, false | void
-- file: include/pdaaal/PDA.h
-- id: 213
let	$1	param(#0)["weight-type"]
do		do(`push`, $1, "uint")	true
do		set($1, call(`nlohmann::basic_json::array`, new(`std::initializer_list`)))	true
== details::params_weight_type |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false> &) | int, std::string, std::string, false | void
-- file: include/pdaaal/PDA.h
-- id: 214
let	$1	param(#0)["weight-type"]
do		do(`push`, $1, "int")	true
do		set($1, call(`nlohmann::basic_json::array`, new(`std::initializer_list`)))	true
== p::SAXHandlerContextStack::no_context | p::SAXHandlerContextStack<p::PdaSaxHelper> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 215
ret	empty(self._context_stack)	true
== details::params_weight_type |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true> &) | u32, std::string, u64, true | void
-- file: include/pdaaal/PDA.h
-- same: 213
== details::params_weight_type |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true> &) | int, std::string, u64, true | void
-- file: include/pdaaal/PDA.h
-- same: 214
== details::params_weight_type |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, Wu, fut::vector, std::string, false> &) | std::string, Wu, std::string, false | void
-- file: include/pdaaal/PDA.h
-- id: 216
do		set(param(#0)["weight-type"], ctor(`nlohmann::basic_json`, "uint"))	true
== details::params_weight_type |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, Wi, fut::vector, std::string, false> &) | std::string, Wi, std::string, false | void
-- file: include/pdaaal/PDA.h
-- id: 217
do		set(param(#0)["weight-type"], ctor(`nlohmann::basic_json`, "int"))	true
== p::SAXHandlerContextStack::current_context | p::SAXHandlerContextStack<p::PdaSaxHelper> | () const |  | const p::JsonParserContext<p::PdaSaxHelper::context_type, 3> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 218
ret	top(self._context_stack)	true
== details::params_weight_type |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, Wu, fut::vector, u64, true> &) | std::string, Wu, u64, true | void
-- file: include/pdaaal/PDA.h
-- same: 216
== details::params_weight_type |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PDA<std::string, Wi, fut::vector, u64, true> &) | std::string, Wi, u64, true | void
-- file: include/pdaaal/PDA.h
-- same: 217
== p::operator<< |  | (std::basic_ostream<char, std::char_traits<char>> &, p::PdaSaxHelper::keys) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 219
do		out(`<<`, param(#0), "<initial>")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, param(#0), "<unknown>")	eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`), param(#1))
do		out(`<<`, param(#0), "pda")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, param(#0), "states")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::keys::states`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, param(#0), "<name of a state>")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::keys::state_name`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, param(#0), "<from-label in a state>")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, param(#0), "to")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, param(#0), "pop")	eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::pop`, `pdaaal::parsing::PdaSaxHelper::keys`), param(#1))
do		out(`<<`, param(#0), "swap")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::keys::swap`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, param(#0), "push")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::keys::push`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, param(#0), "weight")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::keys::weight`, `pdaaal::parsing::PdaSaxHelper::keys`))
ret	param(#0)	true
== p::SAXHandlerContextStack::current_context | p::SAXHandlerContextStack<p::PdaSaxHelper> | () |  | p::JsonParserContext<p::PdaSaxHelper::context_type, 3> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 218
== p::operator<< |  | (std::basic_ostream<char, std::char_traits<char>> &, p::PdaSaxHelper::context_type) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 220
do		out(`<<`, param(#0), "<unknown>")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, param(#0), "initial")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, param(#0), "pda")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::context_type::pda`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, param(#0), "states array")	eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::state_array`, `pdaaal::parsing::PdaSaxHelper::context_type`), param(#1))
do		out(`<<`, param(#0), "states object")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::context_type::states_object`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, param(#0), "state")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, param(#0), "rule array")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, param(#0), "rule")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, param(#0), "weight array")	eq(param(#1), enum(`pdaaal::parsing::PdaSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
ret	param(#0)	true
== p::PdaSaxHelper::get_key | p::PdaSaxHelper | (p::PdaSaxHelper::context_type, unsigned char) |  | p::PdaSaxHelper::keys
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 221
let	$1	eq(param(#0), enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$2	eq(param(#1), 1)
let	$3	eq(param(#0), enum(`pdaaal::parsing::PdaSaxHelper::context_type::pda`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$4	eq(param(#0), enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$5	eq(param(#1), 2)
let	$6	eq(param(#1), 4)
ret	enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`)	$1 & $2
ret	enum(`pdaaal::parsing::PdaSaxHelper::keys::states`, `pdaaal::parsing::PdaSaxHelper::keys`)	$2 & $3
ret	enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`)	$2 & $4
ret	enum(`pdaaal::parsing::PdaSaxHelper::keys::pop`, `pdaaal::parsing::PdaSaxHelper::keys`)	$4 & $5
ret	enum(`pdaaal::parsing::PdaSaxHelper::keys::weight`, `pdaaal::parsing::PdaSaxHelper::keys`)	$4 & $6
ret	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)	!$1 & !$3 & !$4 | !$2 & !$4 | !$2 & !$5 & !$6
== p::SAXHandlerContextStack::current_context_type | p::SAXHandlerContextStack<p::PdaSaxHelper> | () const |  | p::PdaSaxHelper::context_type
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 222
ret	top(self._context_stack).type	true
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<W0, true, true> | (const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 223
let	$1	self._context_stack
let	$2	pdaaal::utils::ptrie_set{}
let	$3	new(`std::vector`)
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::initial_context`))	true
do		set(fld(self, `<base:pdaaal::parsing::SAXHandlerBase>`), param(#0))	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`))	true
do		set($1, new(`std::stack`))	true
do		set(self.build_pda, pdaaal::PDA{_label_map: $2, _state_map: $2, _states: $3})	true
do		set(self.current_from_state, 0)	true
do		set(self.current_pre, $3)	true
do		set(self.current_wildcard, false)	true
do		set(self.current_rule, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0})	true
== p::SAXHandlerContextStack::handle_key | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::initial, (unsigned char)'\x01', p::PdaSaxHelper::keys::pda, <> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 224
let	$1	get(top(self._context_stack)._v, `0UL`)._mask
let	$2	eq(band(1, $1), 1)
do		out(`<<`, self._errors, "Duplicate definition of key: ")	!$2
dom		out(`<<`, self._errors, "\"")	!$2
do		out(`<<`, self._errors, "pda")	!$2
do		out(`<<`, self._errors, " in ")	!$2
do		out(`<<`, self._errors, "initial")	!$2
do		out(`<<`, self._errors, " object.")	!$2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2
do		set(self._errored, true)	!$2 & !self._errored
do		set($1, band(bnot(1), $1))	$2
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`))	$2
ret	$2	true
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<W0, true, true> | () |  | PDA<std::string, W0, fut::vector, std::string, false>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 225
ret	self.build_pda	true
== p::PdaSaxHandler::null | p::PdaSaxHandler<W0, true, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 226
let	$1	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$2	eq($1, self.last_key)
let	$3	self._context_stack
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	$2
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "null value")	!$2
do		set(self.last_key, $1)	!empty($3') & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($3).type')
ret	$2	true
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<W0, true, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 227
let	$1	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$2	eq($1, self.last_key)
let	$3	self._context_stack
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	$2
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "boolean", param(#0), "")	!$2
do		set(self.last_key, $1)	!empty($3') & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($3).type')
ret	$2	true
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<W0, true, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 228
let	$1	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$2	eq($1, self.last_key)
let	$3	self._context_stack
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "integer", param(#0), "")	!$2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	$2
do		set(self.last_key, $1)	!empty($3') & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($3).type')
ret	$2	true
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<W0, true, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 229
let	$1	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$2	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$3	eq($2, self.last_key)
let	$4	self._context_stack
do		out(`<<`, self._errors, "error: Rule destination was numeric: ")	$1
do		do(`operator<<`, self._errors, param(#0))	$1
do		out(`<<`, self._errors, ", but string state names are used.")	$1
do		do(`operator<<`, self._errors, fnref(`std::endl`))	$1
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "")	!$1 & !$3
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	$3
do		set(self._errored, true)	!self._errored & $1
do		set(self.last_key, $2)	!empty($4') & $3 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($4).type')
ret	$3	true
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<W0, true, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 230
let	$1	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$2	eq($1, self.last_key)
let	$3	self._context_stack
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	$2
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "float", param(#0), "")	!$2
do		set(self.last_key, $1)	!empty($3') & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($3).type')
ret	$2	true
== p::SAXHandlerContextStack::handle_key | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::pda, (unsigned char)'\x01', p::PdaSaxHelper::keys::states, <> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 231
let	$1	get(top(self._context_stack)._v, `0UL`)._mask
let	$2	eq(band(1, $1), 1)
do		out(`<<`, self._errors, "Duplicate definition of key: ")	!$2
dom		out(`<<`, self._errors, "\"")	!$2
do		out(`<<`, self._errors, "states")	!$2
do		out(`<<`, self._errors, " in ")	!$2
do		out(`<<`, self._errors, "pda")	!$2
do		out(`<<`, self._errors, " object.")	!$2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2
do		set(self._errored, true)	!$2 & !self._errored
do		set($1, band(bnot(1), $1))	$2
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::states`, `pdaaal::parsing::PdaSaxHelper::keys`))	$2
ret	$2	true
== p::PdaSaxHandler::string | p::PdaSaxHandler<W0, true, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 232
let	$1	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::push`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$2	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$3	eq($2, self.last_key)
let	$4	eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::pop`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key)
let	$5	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$6	self._context_stack
let	$7	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::swap`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$8	eq(param(#0), "*")
let	$9	self.current_wildcard
let	$10	self.current_rule
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "string", param(#0), "")	!$1 & !$3 & !$4 & !$5 & !$7 | empty($6)
do		do(`pdaaal::PDA::insert_state`, self.build_pda, param(#0))	!empty($6) & $5
dom		do(`pdaaal::PDA::insert_label`, self.build_pda, param(#0))	!$8 & !empty($6) & $7 | !$9 & !empty($6) & $7 | !empty($6) & $1
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($6) & $1 | !empty($6) & $3 | !empty($6) & $4 | !empty($6) & $5 | !empty($6) & $7
do		set($10._to, res(`pdaaal::PDA::insert_state`, self.build_pda, param(#0)))	!empty($6) & $5
do		set($10._operation, enum(`pdaaal::PUSH`, `pdaaal::op_t`))	!empty($6) & $1
do		set($10._operation, enum(`pdaaal::SWAP`, `pdaaal::op_t`))	!$8 & !empty($6) & $7 | !$9 & !empty($6) & $7
do		set($10._operation, enum(`pdaaal::NOOP`, `pdaaal::op_t`))	!empty($6) & $7 & $8 & $9
do		set($10._operation, enum(`pdaaal::POP`, `pdaaal::op_t`))	!empty($6) & $4
do		set($10._op_label, res(`pdaaal::PDA::insert_label`, self.build_pda, param(#0)))	!$8 & !empty($6) & $7 | !$9 & !empty($6) & $7 | !empty($6) & $1
do		set($10._op_label, 4294967295)	!empty($6) & $4 | !empty($6) & $7 & $8 & $9
do		set(self.last_key, $2)	!empty($6'') & !empty($6) & $1 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($6).type'') | !empty($6'') & !empty($6) & $3 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($6).type'') | !empty($6'') & !empty($6) & $4 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($6).type'') | !empty($6'') & !empty($6) & $5 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($6).type'') | !empty($6'') & !empty($6) & $7 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($6).type'')
ret	{!empty($6) & $1 | !empty($6) & $3 | !empty($6) & $4 | !empty($6) & $5 | !empty($6) & $7}	true
== p::PdaSaxHandler::binary | p::PdaSaxHandler<W0, true, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 233
let	$1	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$2	eq($1, self.last_key)
let	$3	self._context_stack
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	$2
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "binary value")	!$2
do		set(self.last_key, $1)	!empty($3') & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($3).type')
ret	$2	true
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<W0, true, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 234
let	$1	self._context_stack
let	$2	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::state_name`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$3	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$4	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$5	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$6	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$7	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::states`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$8	eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key)
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::initial_context`))	empty($1)
dom		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::state_context`))	!$3 & !empty($1) & $2 | !empty($1) & $4
dom		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::rule_context`))	!$4 & !empty($1) & $5 | !empty($1) & $3
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::pda_context`))	!$3 & !$4 & !empty($1) & $6
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::states_object`))	!$3 & !$4 & !empty($1) & $7
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::unknown_context`))	!$3 & !$4 & !empty($1) & $8
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "start of object")	!$2 & !$3 & !$4 & !$5 & !$6 & !$7 & !$8 & !empty($1)
ret	{$2 | $3 | $4 | $5 | $6 | $7 | $8 | empty($1)}	true
== p::PdaSaxHandler::key | p::PdaSaxHandler<W0, true, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 235
let	$1	eq(param(#0), "to")
let	$2	eq(param(#0), "pop")
let	$3	self._context_stack
let	$4	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$5	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::states_object`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$6	eq(param(#0), "push")
let	$7	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$8	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$9	eq(param(#0), "swap")
let	$10	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$11	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::pda`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$12	eq(param(#0), "states")
let	$13	eq("pda", param(#0))
let	$14	self.current_pre
let	$15	eq(param(#0), "*")
let	$16	self.current_wildcard
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected_key`, self, param(#0))	!$1 & !$2 & !$6 & !$9 & $4 | !$10 & !$11 & !$4 & !$5 & !$7 & !$8 | empty($3)
dom		do(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self)	!empty($3) & $1 & $4 | !empty($3) & $10 & $13 | !empty($3) & $11 & $12 | !empty($3) & $2 & $4 | !empty($3) & $4 & $6 | !empty($3) & $4 & $9
dom		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`))	!$12 & !empty($3) & $11 | !$13 & !empty($3) & $10
do		do(`pdaaal::PDA::insert_state`, self.build_pda, param(#0))	!empty($3) & $5
dom		do(`clear`, $14)	!empty($3) & $7
do		do(`pdaaal::PDA::insert_label`, self.build_pda, param(#0))	!$15 & !empty($3) & $7
do		do(`push`, $14, res(`pdaaal::PDA::insert_label`, self.build_pda, param(#0)))	!$15 & !empty($3) & $7
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))	!empty($3) & $7
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::state_name`, `pdaaal::parsing::PdaSaxHelper::keys`))	!empty($3) & $5
do		set(self.current_from_state, res(`pdaaal::PDA::insert_state`, self.build_pda, param(#0)))	!empty($3) & $5
do		set($16, true)	!$16 & !empty($3) & $15 & $7
do		set($16, false)	!$15 & !empty($3) & $16 & $7
ret	{!$12 & !empty($3) & $11 | !$13 & !empty($3) & $10 | !empty($3) & $1 & $4 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $10 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $11 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $2 & $4 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $4 & $6 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $4 & $9 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $5 | !empty($3) & $7 | !empty($3) & $8}	true
== p::SAXHandlerContextStack::handle_key | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::rule, (unsigned char)'\x01', p::PdaSaxHelper::keys::to, <> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 236
let	$1	get(top(self._context_stack)._v, `0UL`)._mask
let	$2	eq(band(1, $1), 1)
do		out(`<<`, self._errors, "Duplicate definition of key: ")	!$2
dom		out(`<<`, self._errors, "\"")	!$2
do		out(`<<`, self._errors, "to")	!$2
do		out(`<<`, self._errors, " in ")	!$2
do		out(`<<`, self._errors, "rule")	!$2
do		out(`<<`, self._errors, " object.")	!$2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2
do		set(self._errored, true)	!$2 & !self._errored
do		set($1, band(bnot(1), $1))	$2
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))	$2
ret	$2	true
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<W0, true, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 237
let	$1	self._context_stack
let	$2	eq(0, get(top($1)._v, `0UL`)._mask)
let	$3	self.current_from_state
let	$4	self.current_rule
let	$5	self.current_pre
let	$6	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$7	self.current_wildcard
let	$8	eq(top($1).type', enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "error: Unexpected end of object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_missing_keys`, self)	!$2 & !empty($1)
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, true, $5)	!empty($1) & $2 & $6 & $7
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, false, $5)	!$7 & !empty($1) & $2 & $6
do		do(`pop`, $1)	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$8 & !empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
do		set($4, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0})	!empty($1) & $2 & $6
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`))	!$8 & !empty($1'') & !empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'')
ret	{!$8 & !empty($1) & $2}	true
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<W0, true, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 238
let	$1	self._context_stack
let	$2	eq(1, index(top($1)._v))
let	$3	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::states`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$4	eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key)
let	$5	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "error: Encountered start of array, but must start with an object.")	empty($1)
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2 & $3 | empty($1)
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "start of array")	!$3 & !$4 & !$5 & !empty($1) | !empty($1) & $2
do		out(`<<`, self._errors, "Unexpected start of array after key ")	!$2 & !empty($1) & $3
do		out(`<<`, self._errors, "states")	!$2 & !empty($1) & $3
do		out(`<<`, self._errors, ". Note that state names are used in this setting.")	!$2 & !empty($1) & $3
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::rule_array`))	!$2 & !empty($1) & $5
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::unknown_context`))	!$2 & !empty($1) & $4
do		set(self._errored, true)	!$2 & !self._errored & $3 | !self._errored & empty($1)
ret	{!$2 & !empty($1) & $4 | !$2 & !empty($1) & $5}	true
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<W0, true, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 239
let	$1	self._context_stack
do		out(`<<`, self._errors, "error: Unexpected end of array.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pop`, $1)	!empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($1)
do		set(self._errored, true)	!self._errored & empty($1)
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`))	!empty($1'') & !empty($1) & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'')
ret	{!empty($1)}	true
== p::SAXHandlerContextStack::handle_key | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::rule, (unsigned char)'\x02', p::PdaSaxHelper::keys::pop, <p::PdaSaxHelper::keys::swap, p::PdaSaxHelper::keys::push> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 240
let	$1	get(top(self._context_stack)._v, `0UL`)._mask
let	$2	eq(band(2, $1), 2)
do		out(`<<`, self._errors, "Duplicate definition of key: ")	!$2
dom		out(`<<`, self._errors, "\"")	!$2
do		out(`<<`, self._errors, "pop")	!$2
dom		out(`<<`, self._errors, "\"/\"")	!$2
do		out(`<<`, self._errors, "swap")	!$2
do		out(`<<`, self._errors, "push")	!$2
do		out(`<<`, self._errors, " in ")	!$2
do		out(`<<`, self._errors, "rule")	!$2
do		out(`<<`, self._errors, " object.")	!$2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2
do		set(self._errored, true)	!$2 & !self._errored
do		set($1, band(bnot(2), $1))	$2
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::pop`, `pdaaal::parsing::PdaSaxHelper::keys`))	$2
ret	$2	true
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<Wu, true, true> | (const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 241
let	$1	self._context_stack
let	$2	pdaaal::utils::ptrie_set{}
let	$3	new(`std::vector`)
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::initial_context`))	true
do		set(fld(self, `<base:pdaaal::parsing::SAXHandlerBase>`), param(#0))	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`))	true
do		set($1, new(`std::stack`))	true
do		set(self.build_pda, pdaaal::PDA{_label_map: $2, _state_map: $2, _states: $3})	true
do		set(self.current_from_state, 0)	true
do		set(self.current_pre, $3)	true
do		set(self.current_wildcard, false)	true
do		set(self.current_rule, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0, _weight: 0})	true
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<Wu, true, true> | () |  | PDA<std::string, Wu, fut::vector, std::string, false>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 225
== p::PdaSaxHandler::null | p::PdaSaxHandler<Wu, true, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 226
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<Wu, true, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 227
== p::SAXHandlerContextStack::handle_key | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::rule, (unsigned char)'\x02', p::PdaSaxHelper::keys::swap, <p::PdaSaxHelper::keys::pop, p::PdaSaxHelper::keys::push> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 242
let	$1	get(top(self._context_stack)._v, `0UL`)._mask
let	$2	eq(band(2, $1), 2)
do		out(`<<`, self._errors, "Duplicate definition of key: ")	!$2
dom		out(`<<`, self._errors, "\"")	!$2
do		out(`<<`, self._errors, "swap")	!$2
dom		out(`<<`, self._errors, "\"/\"")	!$2
do		out(`<<`, self._errors, "pop")	!$2
do		out(`<<`, self._errors, "push")	!$2
do		out(`<<`, self._errors, " in ")	!$2
do		out(`<<`, self._errors, "rule")	!$2
do		out(`<<`, self._errors, " object.")	!$2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2
do		set(self._errored, true)	!$2 & !self._errored
do		set($1, band(bnot(2), $1))	$2
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::swap`, `pdaaal::parsing::PdaSaxHelper::keys`))	$2
ret	$2	true
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<Wu, true, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 228
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<Wu, true, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 243
let	$1	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$2	lt(param(#0), 4294967295)
let	$3	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::weight`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$4	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$5	eq($4, self.last_key)
let	$6	self._context_stack
do		out(`<<`, self._errors, "error: Rule destination was numeric: ")	$1
dom		do(`operator<<`, self._errors, param(#0))	!$2 & $3 | $1
do		out(`<<`, self._errors, ", but string state names are used.")	$1
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2 & $3 | $1
do		out(`<<`, self._errors, "error: Unsigned value ")	!$2 & $3
do		out(`<<`, self._errors, " is too large. Maximum value is: ")	!$2 & $3
do		do(`operator<<`, self._errors, 4294967294)	!$2 & $3
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "")	!$1 & !$3 & !$5
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	$2 & $3 | $5
do		set(self._errored, true)	!$2 & !self._errored & $3 | !self._errored & $1
do		set(self.current_rule._weight, cast(#32, param(#0)))	$2 & $3
do		set(self.last_key, $4)	!empty($6'') & $2 & $3 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($6).type'') | !empty($6'') & $5 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($6).type'')
ret	{$2 & $3 | $5}	true
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<Wu, true, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 230
== p::PdaSaxHandler::string | p::PdaSaxHandler<Wu, true, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 232
== p::SAXHandlerContextStack::handle_key | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::rule, (unsigned char)'\x02', p::PdaSaxHelper::keys::push, <p::PdaSaxHelper::keys::pop, p::PdaSaxHelper::keys::swap> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 244
let	$1	get(top(self._context_stack)._v, `0UL`)._mask
let	$2	eq(band(2, $1), 2)
do		out(`<<`, self._errors, "Duplicate definition of key: ")	!$2
dom		out(`<<`, self._errors, "\"")	!$2
do		out(`<<`, self._errors, "push")	!$2
dom		out(`<<`, self._errors, "\"/\"")	!$2
do		out(`<<`, self._errors, "pop")	!$2
do		out(`<<`, self._errors, "swap")	!$2
do		out(`<<`, self._errors, " in ")	!$2
do		out(`<<`, self._errors, "rule")	!$2
do		out(`<<`, self._errors, " object.")	!$2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2
do		set(self._errored, true)	!$2 & !self._errored
do		set($1, band(bnot(2), $1))	$2
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::push`, `pdaaal::parsing::PdaSaxHelper::keys`))	$2
ret	$2	true
== p::PdaSaxHandler::binary | p::PdaSaxHandler<Wu, true, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 233
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<Wu, true, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 234
== p::PdaSaxHandler::key | p::PdaSaxHandler<Wu, true, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 245
let	$1	eq(param(#0), "to")
let	$2	eq(param(#0), "pop")
let	$3	self._context_stack
let	$4	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$5	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::states_object`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$6	eq(param(#0), "weight")
let	$7	eq(param(#0), "push")
let	$8	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$9	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$10	eq(param(#0), "swap")
let	$11	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$12	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::pda`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$13	eq(param(#0), "states")
let	$14	eq("pda", param(#0))
let	$15	self.current_pre
let	$16	eq(param(#0), "*")
let	$17	self.current_wildcard
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected_key`, self, param(#0))	!$1 & !$10 & !$2 & !$6 & !$7 & $4 | !$11 & !$12 & !$4 & !$5 & !$8 & !$9 | empty($3)
dom		do(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self)	!empty($3) & $1 & $4 | !empty($3) & $10 & $4 | !empty($3) & $11 & $14 | !empty($3) & $12 & $13 | !empty($3) & $2 & $4 | !empty($3) & $4 & $6 | !empty($3) & $4 & $7
dom		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`))	!$13 & !empty($3) & $12 | !$14 & !empty($3) & $11
do		do(`pdaaal::PDA::insert_state`, self.build_pda, param(#0))	!empty($3) & $5
dom		do(`clear`, $15)	!empty($3) & $8
do		do(`pdaaal::PDA::insert_label`, self.build_pda, param(#0))	!$16 & !empty($3) & $8
do		do(`push`, $15, res(`pdaaal::PDA::insert_label`, self.build_pda, param(#0)))	!$16 & !empty($3) & $8
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))	!empty($3) & $8
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::state_name`, `pdaaal::parsing::PdaSaxHelper::keys`))	!empty($3) & $5
do		set(self.current_from_state, res(`pdaaal::PDA::insert_state`, self.build_pda, param(#0)))	!empty($3) & $5
do		set($17, true)	!$17 & !empty($3) & $16 & $8
do		set($17, false)	!$16 & !empty($3) & $17 & $8
ret	{!$13 & !empty($3) & $12 | !$14 & !empty($3) & $11 | !empty($3) & $1 & $4 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $10 & $4 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $11 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $12 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $2 & $4 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $4 & $6 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $4 & $7 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $5 | !empty($3) & $8 | !empty($3) & $9}	true
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<Wu, true, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 246
let	$1	self._context_stack
let	$2	eq(0, get(top($1)._v, `0UL`)._mask)
let	$3	self.current_from_state
let	$4	self.current_rule
let	$5	self.current_pre
let	$6	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$7	self.current_wildcard
let	$8	eq(top($1).type', enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "error: Unexpected end of object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_missing_keys`, self)	!$2 & !empty($1)
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, true, $5)	!empty($1) & $2 & $6 & $7
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, false, $5)	!$7 & !empty($1) & $2 & $6
do		do(`pop`, $1)	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$8 & !empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
do		set($4, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0, _weight: 0})	!empty($1) & $2 & $6
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`))	!$8 & !empty($1'') & !empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'')
ret	{!$8 & !empty($1) & $2}	true
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<Wu, true, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 238
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<Wu, true, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 239
== p::SAXHandlerContextStack::handle_key | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | p::PdaSaxHelper::context_type::rule, (unsigned char)'\x04', p::PdaSaxHelper::keys::weight, <> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 247
let	$1	get(top(self._context_stack)._v, `0UL`)._mask
let	$2	eq(band($1, 4), 4)
do		out(`<<`, self._errors, "Duplicate definition of key: ")	!$2
dom		out(`<<`, self._errors, "\"")	!$2
do		out(`<<`, self._errors, "weight")	!$2
do		out(`<<`, self._errors, " in ")	!$2
do		out(`<<`, self._errors, "rule")	!$2
do		out(`<<`, self._errors, " object.")	!$2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2
do		set(self._errored, true)	!$2 & !self._errored
do		set($1, band($1, bnot(4)))	$2
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::weight`, `pdaaal::parsing::PdaSaxHelper::keys`))	$2
ret	$2	true
== p::SAXHandlerContextStack::element_done | p::SAXHandlerContextStack<p::PdaSaxHelper> | () |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 248
let	$1	self._context_stack
let	$2	get(top($1)._v, `1UL`)
let	$3	eq(1, index(top($1)._v))
do		set($2, lin(#1, $2))	!empty($1) & $3
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`))	!$3 | empty($1)
ret	true	true
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<Wi, true, true> | (const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 241
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<Wi, true, true> | () |  | PDA<std::string, Wi, fut::vector, std::string, false>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 225
== p::PdaSaxHandler::null | p::PdaSaxHandler<Wi, true, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 226
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<Wi, true, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 227
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<Wi, true, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 249
let	$1	lt(param(#0), 2147483647)
let	$2	lt(-2147483648, param(#0))
let	$3	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::weight`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$4	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$5	eq($4, self.last_key)
let	$6	self._context_stack
dom		out(`<<`, self._errors, "error: Integer value ")	!$1 & $3 | !$2 & $3
dom		do(`operator<<`, self._errors, param(#0))	!$1 & $3 | !$2 & $3
do		out(`<<`, self._errors, " is too large. Maximum value is: ")	!$1 & $3
do		do(`operator<<`, self._errors, 2147483646)	!$1 & $3
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	!$1 & $3 | !$2 & $3
do		out(`<<`, self._errors, " is too low. Minimum value is: ")	!$2 & $3
do		do(`operator<<`, self._errors, -2147483647)	!$2 & $3
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "integer", param(#0), "")	!$3 & !$5
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	$1 & $2 & $3 | $5
do		set(self._errored, true)	!$1 & !self._errored & $3 | !$2 & !self._errored & $3
do		set(self.current_rule._weight, cast(#32, param(#0)))	$1 & $2 & $3
do		set(self.last_key, $4)	!empty($6'') & $1 & $2 & $3 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($6).type'') | !empty($6'') & $5 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($6).type'')
ret	{$1 & $2 & $3 | $5}	true
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<Wi, true, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 250
let	$1	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$2	lt(param(#0), 2147483647)
let	$3	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::weight`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$4	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$5	eq($4, self.last_key)
let	$6	self._context_stack
do		out(`<<`, self._errors, "error: Rule destination was numeric: ")	$1
dom		do(`operator<<`, self._errors, param(#0))	!$2 & $3 | $1
do		out(`<<`, self._errors, ", but string state names are used.")	$1
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2 & $3 | $1
do		out(`<<`, self._errors, "error: Unsigned value ")	!$2 & $3
do		out(`<<`, self._errors, " is too large. Maximum value is: ")	!$2 & $3
do		do(`operator<<`, self._errors, 2147483646)	!$2 & $3
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "")	!$1 & !$3 & !$5
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	$2 & $3 | $5
do		set(self._errored, true)	!$2 & !self._errored & $3 | !self._errored & $1
do		set(self.current_rule._weight, cast(#32, param(#0)))	$2 & $3
do		set(self.last_key, $4)	!empty($6'') & $2 & $3 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($6).type'') | !empty($6'') & $5 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($6).type'')
ret	{$2 & $3 | $5}	true
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PdaSaxHelper> | (const std::string &) |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 251
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<initial>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`))
dom		out(`<<`, self._errors, "<unknown>")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key) | !empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "pda")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`)) | !empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::pda`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "states")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::states`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "<name of a state>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::state_name`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "<from-label in a state>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "to")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "pop")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::pop`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key)
do		out(`<<`, self._errors, "swap")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::swap`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "push")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::push`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "weight")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::weight`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "initial")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "states array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "states object")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::states_object`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "state")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "rule array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "rule")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "weight array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<Wi, true, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 230
== p::PdaSaxHandler::string | p::PdaSaxHandler<Wi, true, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 232
== p::PdaSaxHandler::binary | p::PdaSaxHandler<Wi, true, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 233
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<Wi, true, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 234
== p::PdaSaxHandler::key | p::PdaSaxHandler<Wi, true, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 245
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<Wi, true, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 246
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<Wi, true, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 238
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<Wi, true, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 239
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PdaSaxHelper> | (const std::string &, const bool &, const std::string &) | bool | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 252
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
let	$3	empty(param(#2))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " value ")	true
do		do(`operator<<`, self._errors, fnref(`std::boolalpha`))	true
do		do(`operator<<`, self._errors, param(#1))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<initial>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`))
dom		out(`<<`, self._errors, "<unknown>")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key) | !empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "pda")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`)) | !empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::pda`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "states")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::states`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "<name of a state>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::state_name`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "<from-label in a state>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "to")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "pop")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::pop`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key)
do		out(`<<`, self._errors, "swap")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::swap`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "push")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::push`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "weight")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::weight`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "initial")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "states array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "states object")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::states_object`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "state")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "rule array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "rule")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "weight array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		out(`<<`, self._errors, " ")	!$3
do		out(`<<`, self._errors, param(#2))	!$3
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> | (const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 253
let	$1	self._context_stack
let	$2	pdaaal::utils::ptrie_set{}
let	$3	new(`std::vector`)
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::initial_context`))	true
do		set(fld(self, `<base:pdaaal::parsing::SAXHandlerBase>`), param(#0))	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`))	true
do		set($1, new(`std::stack`))	true
do		set(self.build_pda, pdaaal::PDA{_label_map: $2, _state_map: $2, _states: $3})	true
do		set(self.current_from_state, 0)	true
do		set(self.current_pre, $3)	true
do		set(self.current_wildcard, false)	true
do		set(self.current_rule, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0, _weight: $3})	true
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> | () |  | PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 225
== p::PdaSaxHandler::null | p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 226
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 227
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 228
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 254
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$3	lt(param(#0), 4294967295)
let	$4	self.last_key''
let	$5	eq($4, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$6	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$7	enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`)
do		out(`<<`, self._errors, "error: Unsigned value ")	!$3 & !empty($1) & $2
dom		do(`operator<<`, self._errors, param(#0))	!$2 & $5 | !$3 & !empty($1) & $2 | $5 & empty($1)
do		out(`<<`, self._errors, " is too large. Maximum value is: ")	!$3 & !empty($1) & $2
do		do(`operator<<`, self._errors, 4294967294)	!$3 & !empty($1) & $2
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2 & $5 | !$3 & !empty($1) & $2 | $5 & empty($1)
do		do(`push`, self.current_rule._weight, param(#0))	!empty($1) & $2 & $3
dom		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$2 & eq($6, $4) | !empty($1) & $2 & $3 | empty($1) & eq($6, $4)
dom		set(self._errored, true)	!$2 & !self._errored & $5 | !$3 & !empty($1) & !self._errored & $2 | !self._errored & $5 & empty($1)
do		out(`<<`, self._errors, "error: Rule destination was numeric: ")	!$2 & $5 | $5 & empty($1)
do		out(`<<`, self._errors, ", but string state names are used.")	!$2 & $5 | $5 & empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "")	!$2 & !$5 & !eq($6, $4) | !$5 & !eq($6, $4) & empty($1)
dom		set(self.last_key, $6)	!$2 & !empty($1') & eq($6, $4) & eq($7, top($1).type') | !empty($1'') & !empty($1) & $2 & $3 & eq($7, top($1).type'') | !empty($1') & empty($1) & eq($6, $4) & eq($7, top($1).type')
ret	{!$2 & eq($6, $4) | !empty($1) & $2 & $3 | empty($1) & eq($6, $4)}	true
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 230
== p::PdaSaxHandler::string | p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 232
== p::PdaSaxHandler::binary | p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 233
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 234
== p::PdaSaxHandler::key | p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 245
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 255
let	$1	self._context_stack
let	$2	eq(0, get(top($1)._v, `0UL`)._mask)
let	$3	self.current_from_state
let	$4	self.current_rule
let	$5	self.current_pre
let	$6	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$7	self.current_wildcard
let	$8	eq(top($1).type', enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "error: Unexpected end of object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_missing_keys`, self)	!$2 & !empty($1)
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, true, $5)	!empty($1) & $2 & $6 & $7
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, false, $5)	!$7 & !empty($1) & $2 & $6
do		do(`pop`, $1)	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$8 & !empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
do		set($4, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0, _weight: new(`std::vector`)})	!empty($1) & $2 & $6
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`))	!$8 & !empty($1'') & !empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'')
ret	{!$8 & !empty($1) & $2}	true
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 256
let	$1	self._context_stack
let	$2	eq(1, index(top($1)._v))
let	$3	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::states`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$4	eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key)
let	$5	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$6	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::weight`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "error: Encountered start of array, but must start with an object.")	empty($1)
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2 & $3 | empty($1)
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "start of array")	!$3 & !$4 & !$5 & !$6 & !empty($1) | !empty($1) & $2
do		out(`<<`, self._errors, "Unexpected start of array after key ")	!$2 & !empty($1) & $3
do		out(`<<`, self._errors, "states")	!$2 & !empty($1) & $3
do		out(`<<`, self._errors, ". Note that state names are used in this setting.")	!$2 & !empty($1) & $3
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::rule_array`))	!$2 & !empty($1) & $5
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::unknown_context`))	!$2 & !empty($1) & $4
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::weight_array`))	!$2 & !empty($1) & $6
do		set(self._errored, true)	!$2 & !self._errored & $3 | !self._errored & empty($1)
ret	{!$2 & !empty($1) & $4 | !$2 & !empty($1) & $5 | !$2 & !empty($1) & $6}	true
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 239
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PdaSaxHelper> | (const std::string &, const long &, const std::string &) | long | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 257
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
let	$3	empty(param(#2))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " value ")	true
do		do(`operator<<`, self._errors, param(#1))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<initial>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`))
dom		out(`<<`, self._errors, "<unknown>")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key) | !empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "pda")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`)) | !empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::pda`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "states")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::states`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "<name of a state>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::state_name`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "<from-label in a state>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "to")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "pop")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::pop`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key)
do		out(`<<`, self._errors, "swap")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::swap`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "push")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::push`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "weight")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::weight`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "initial")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "states array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "states object")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::states_object`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "state")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "rule array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "rule")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "weight array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		out(`<<`, self._errors, " ")	!$3
do		out(`<<`, self._errors, param(#2))	!$3
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> | (const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 253
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> | () |  | PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 225
== p::PdaSaxHandler::null | p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 226
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 227
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 258
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$3	lt(param(#0), 2147483647)
let	$4	lt(-2147483648, param(#0))
let	$5	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$6	eq($5, self.last_key'')
let	$7	enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`)
dom		out(`<<`, self._errors, "error: Integer value ")	!$3 & !empty($1) & $2 | !$4 & !empty($1) & $2
dom		do(`operator<<`, self._errors, param(#0))	!$3 & !empty($1) & $2 | !$4 & !empty($1) & $2
do		out(`<<`, self._errors, " is too large. Maximum value is: ")	!$3 & !empty($1) & $2
do		do(`operator<<`, self._errors, 2147483646)	!$3 & !empty($1) & $2
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	!$3 & !empty($1) & $2 | !$4 & !empty($1) & $2
do		out(`<<`, self._errors, " is too low. Minimum value is: ")	!$4 & !empty($1) & $2
do		do(`operator<<`, self._errors, -2147483647)	!$4 & !empty($1) & $2
do		do(`push`, self.current_rule._weight, param(#0))	!empty($1) & $2 & $3 & $4
dom		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$2 & $6 | !empty($1) & $2 & $3 & $4 | $6 & empty($1)
do		set(self._errored, true)	!$3 & !empty($1) & !self._errored & $2 | !$4 & !empty($1) & !self._errored & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "integer", param(#0), "")	!$2 & !$6 | !$6 & empty($1)
dom		set(self.last_key, $5)	!$2 & !empty($1') & $6 & eq($7, top($1).type') | !empty($1'') & !empty($1) & $2 & $3 & $4 & eq($7, top($1).type'') | !empty($1') & $6 & empty($1) & eq($7, top($1).type')
ret	{!$2 & $6 | !empty($1) & $2 & $3 & $4 | $6 & empty($1)}	true
== utils::flags::remove | utils::flags<2> | (unsigned char &, unsigned char) |  | void
-- file: include/pdaaal/utils/flags.h
-- same: 0
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 259
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$3	lt(param(#0), 2147483647)
let	$4	self.last_key''
let	$5	eq($4, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$6	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$7	enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`)
do		out(`<<`, self._errors, "error: Unsigned value ")	!$3 & !empty($1) & $2
dom		do(`operator<<`, self._errors, param(#0))	!$2 & $5 | !$3 & !empty($1) & $2 | $5 & empty($1)
do		out(`<<`, self._errors, " is too large. Maximum value is: ")	!$3 & !empty($1) & $2
do		do(`operator<<`, self._errors, 2147483646)	!$3 & !empty($1) & $2
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2 & $5 | !$3 & !empty($1) & $2 | $5 & empty($1)
do		do(`push`, self.current_rule._weight, param(#0))	!empty($1) & $2 & $3
dom		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$2 & eq($6, $4) | !empty($1) & $2 & $3 | empty($1) & eq($6, $4)
dom		set(self._errored, true)	!$2 & !self._errored & $5 | !$3 & !empty($1) & !self._errored & $2 | !self._errored & $5 & empty($1)
do		out(`<<`, self._errors, "error: Rule destination was numeric: ")	!$2 & $5 | $5 & empty($1)
do		out(`<<`, self._errors, ", but string state names are used.")	!$2 & $5 | $5 & empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "")	!$2 & !$5 & !eq($6, $4) | !$5 & !eq($6, $4) & empty($1)
dom		set(self.last_key, $6)	!$2 & !empty($1') & eq($6, $4) & eq($7, top($1).type') | !empty($1'') & !empty($1) & $2 & $3 & eq($7, top($1).type'') | !empty($1') & empty($1) & eq($6, $4) & eq($7, top($1).type')
ret	{!$2 & eq($6, $4) | !empty($1) & $2 & $3 | empty($1) & eq($6, $4)}	true
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 230
== p::PdaSaxHandler::string | p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 232
== p::PdaSaxHandler::binary | p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 233
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 234
== p::PdaSaxHandler::key | p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 245
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 255
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 256
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 239
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<W0, false, true> | (const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 260
let	$1	self._context_stack
let	$2	new(`std::vector`)
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::initial_context`))	true
do		set(fld(self, `<base:pdaaal::parsing::SAXHandlerBase>`), param(#0))	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`))	true
do		set($1, new(`std::stack`))	true
do		set(self.build_pda, pdaaal::PDA{_label_map: pdaaal::utils::ptrie_set{}, _states: $2})	true
do		set(self.current_from_state, 0)	true
do		set(self.current_pre, $2)	true
do		set(self.current_wildcard, false)	true
do		set(self.current_rule, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0})	true
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PdaSaxHelper> | (const std::string &, const u64 &, const std::string &) | u64 | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 257
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<W0, false, true> | () |  | PDA<std::string, W0, fut::vector, u64, true>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 225
== p::PdaSaxHandler::null | p::PdaSaxHandler<W0, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 226
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<W0, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 227
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<W0, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 228
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<W0, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 261
let	$1	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$2	eq($1, self.last_key)
let	$3	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$4	self._context_stack
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "")	!$2 & !$3
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	$2 | $3
do		set(self.current_rule._to, param(#0))	$3
do		set(self.last_key, $1)	!empty($4'') & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($4).type'') | !empty($4'') & $3 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($4).type'')
ret	{$2 | $3}	true
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<W0, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 230
== p::PdaSaxHandler::string | p::PdaSaxHandler<W0, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 262
let	$1	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::push`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$2	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$3	eq($2, self.last_key)
let	$4	eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::pop`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key)
let	$5	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$6	self._context_stack
let	$7	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::swap`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$8	eq(param(#0), "*")
let	$9	self.current_wildcard
let	$10	self.current_rule
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "string", param(#0), "")	!$1 & !$3 & !$4 & !$5 & !$7 | empty($6)
do		out(`<<`, self._errors, "error: Rule \"to\" state was string: ")	!empty($6) & $5
do		out(`<<`, self._errors, param(#0))	!empty($6) & $5
do		out(`<<`, self._errors, ", but state names are disabled in this setting. Try with --state-names")	!empty($6) & $5
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!empty($6) & $5
dom		do(`pdaaal::PDA::insert_label`, self.build_pda, param(#0))	!$8 & !empty($6) & $7 | !$9 & !empty($6) & $7 | !empty($6) & $1
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($6) & $1 | !empty($6) & $3 | !empty($6) & $4 | !empty($6) & $7
do		set(self._errored, true)	!empty($6) & !self._errored & $5
do		set($10._operation, enum(`pdaaal::PUSH`, `pdaaal::op_t`))	!empty($6) & $1
do		set($10._operation, enum(`pdaaal::SWAP`, `pdaaal::op_t`))	!$8 & !empty($6) & $7 | !$9 & !empty($6) & $7
do		set($10._operation, enum(`pdaaal::NOOP`, `pdaaal::op_t`))	!empty($6) & $7 & $8 & $9
do		set($10._operation, enum(`pdaaal::POP`, `pdaaal::op_t`))	!empty($6) & $4
do		set($10._op_label, res(`pdaaal::PDA::insert_label`, self.build_pda, param(#0)))	!$8 & !empty($6) & $7 | !$9 & !empty($6) & $7 | !empty($6) & $1
do		set($10._op_label, 4294967295)	!empty($6) & $4 | !empty($6) & $7 & $8 & $9
do		set(self.last_key, $2)	!empty($6'') & !empty($6) & $1 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($6).type'') | !empty($6'') & !empty($6) & $3 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($6).type'') | !empty($6'') & !empty($6) & $4 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($6).type'') | !empty($6'') & !empty($6) & $7 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($6).type'')
ret	{!empty($6) & $1 | !empty($6) & $3 | !empty($6) & $4 | !empty($6) & $7}	true
== p::PdaSaxHandler::binary | p::PdaSaxHandler<W0, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 233
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<W0, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 263
let	$1	self._context_stack
let	$2	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::state_name`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$3	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$4	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$5	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$6	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$7	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::states`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$8	eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key)
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::initial_context`))	empty($1)
dom		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::state_context`))	!$3 & !empty($1) & $2 | !empty($1) & $4
dom		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::rule_context`))	!$4 & !empty($1) & $5 | !empty($1) & $3
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::pda_context`))	!$3 & !$4 & !empty($1) & $6
do		out(`<<`, self._errors, "error: Found object after key: ")	!$3 & !$4 & !empty($1) & $7
do		out(`<<`, self._errors, "states")	!$3 & !$4 & !empty($1) & $7
do		out(`<<`, self._errors, ", but state names are disabled in this setting. Try with --state-names.")	!$3 & !$4 & !empty($1) & $7
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$3 & !$4 & !empty($1) & $7
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::unknown_context`))	!$3 & !$4 & !empty($1) & $8
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "start of object")	!$2 & !$3 & !$4 & !$5 & !$6 & !$7 & !$8 & !empty($1)
do		set(self._errored, true)	!$3 & !$4 & !empty($1) & !self._errored & $7
ret	{$2 | $3 | $4 | $5 | $6 | $8 | empty($1)}	true
== p::PdaSaxHandler::key | p::PdaSaxHandler<W0, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 264
let	$1	eq(param(#0), "to")
let	$2	eq(param(#0), "pop")
let	$3	self._context_stack
let	$4	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$5	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::states_object`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$6	eq(param(#0), "push")
let	$7	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$8	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$9	eq(param(#0), "swap")
let	$10	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$11	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::pda`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$12	eq(param(#0), "states")
let	$13	eq("pda", param(#0))
let	$14	self.current_pre
let	$15	eq(param(#0), "*")
let	$16	self.current_wildcard
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected_key`, self, param(#0))	!$1 & !$2 & !$6 & !$9 & $4 | !$10 & !$11 & !$4 & !$5 & !$7 & !$8 | empty($3)
dom		do(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self)	!empty($3) & $1 & $4 | !empty($3) & $10 & $13 | !empty($3) & $11 & $12 | !empty($3) & $2 & $4 | !empty($3) & $4 & $6 | !empty($3) & $4 & $9
dom		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`))	!$12 & !empty($3) & $11 | !$13 & !empty($3) & $10
do		out(`<<`, self._errors, "error: Encountered state name: \"")	!empty($3) & $5
do		out(`<<`, self._errors, param(#0))	!empty($3) & $5
do		out(`<<`, self._errors, "\" in context: ")	!empty($3) & $5
do		out(`<<`, self._errors, "states object")	!empty($3) & $5
do		out(`<<`, self._errors, ", but state names are disabled in this setting.")	!empty($3) & $5
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!empty($3) & $5
dom		do(`clear`, $14)	!empty($3) & $7
do		do(`pdaaal::PDA::insert_label`, self.build_pda, param(#0))	!$15 & !empty($3) & $7
do		do(`push`, $14, res(`pdaaal::PDA::insert_label`, self.build_pda, param(#0)))	!$15 & !empty($3) & $7
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))	!empty($3) & $7
do		set(self._errored, true)	!empty($3) & !self._errored & $5
do		set($16, true)	!$16 & !empty($3) & $15 & $7
do		set($16, false)	!$15 & !empty($3) & $16 & $7
ret	{!$12 & !empty($3) & $11 | !$13 & !empty($3) & $10 | !empty($3) & $1 & $4 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $10 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $11 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $2 & $4 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $4 & $6 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $4 & $9 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $7 | !empty($3) & $8}	true
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<W0, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 265
let	$1	self._context_stack
let	$2	eq(0, get(top($1)._v, `0UL`)._mask)
let	$3	self.current_from_state
let	$4	self.current_rule
let	$5	self.current_pre
let	$6	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$7	self.current_wildcard
let	$8	eq(top($1).type', enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "error: Unexpected end of object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_missing_keys`, self)	!$2 & !empty($1)
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, true, $5)	!empty($1) & $2 & $6 & $7
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, false, $5)	!$7 & !empty($1) & $2 & $6
do		do(`pop`, $1)	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$8 & !empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
do		set($3, lin(#1, $3))	!empty($1) & $2 & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		set($4, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0})	!empty($1) & $2 & $6
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`))	!$8 & !empty($1'') & !empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'')
ret	{!$8 & !empty($1) & $2}	true
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<W0, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 266
let	$1	self._context_stack
let	$2	eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key)
let	$3	eq(1, index(top($1)._v))
let	$4	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::states`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$5	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "error: Encountered start of array, but must start with an object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "start of array")	!$2 & !$4 & !$5 & !empty($1) | !empty($1) & $3
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::state_array`))	!$3 & !empty($1) & $4
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::rule_array`))	!$3 & !empty($1) & $5
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::unknown_context`))	!$3 & !empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
do		set(self.current_from_state, 0)	!$3 & !empty($1) & $4
ret	{!$3 & !empty($1) & $2 | !$3 & !empty($1) & $4 | !$3 & !empty($1) & $5}	true
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<W0, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 239
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<Wu, false, true> | (const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 267
let	$1	self._context_stack
let	$2	new(`std::vector`)
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::initial_context`))	true
do		set(fld(self, `<base:pdaaal::parsing::SAXHandlerBase>`), param(#0))	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`))	true
do		set($1, new(`std::stack`))	true
do		set(self.build_pda, pdaaal::PDA{_label_map: pdaaal::utils::ptrie_set{}, _states: $2})	true
do		set(self.current_from_state, 0)	true
do		set(self.current_pre, $2)	true
do		set(self.current_wildcard, false)	true
do		set(self.current_rule, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0, _weight: 0})	true
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<Wu, false, true> | () |  | PDA<std::string, Wu, fut::vector, u64, true>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 225
== p::PdaSaxHandler::null | p::PdaSaxHandler<Wu, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 226
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<Wu, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 227
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PdaSaxHelper> | (const std::string &, const double &, const std::string &) | double | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 257
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<Wu, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 228
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<Wu, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 268
let	$1	lt(param(#0), 4294967295)
let	$2	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::weight`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$3	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$4	eq($3, self.last_key)
let	$5	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$6	self.current_rule
let	$7	self._context_stack
do		out(`<<`, self._errors, "error: Unsigned value ")	!$1 & $2
do		do(`operator<<`, self._errors, param(#0))	!$1 & $2
do		out(`<<`, self._errors, " is too large. Maximum value is: ")	!$1 & $2
do		do(`operator<<`, self._errors, 4294967294)	!$1 & $2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$1 & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "")	!$2 & !$4 & !$5
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	$1 & $2 | $4 | $5
do		set($6._to, param(#0))	$5
do		set(self._errored, true)	!$1 & !self._errored & $2
do		set($6._weight, cast(#32, param(#0)))	$1 & $2
do		set(self.last_key, $3)	!empty($7'') & $1 & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($7).type'') | !empty($7'') & $4 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($7).type'') | !empty($7'') & $5 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($7).type'')
ret	{$1 & $2 | $4 | $5}	true
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<Wu, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 230
== p::PdaSaxHandler::string | p::PdaSaxHandler<Wu, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 262
== p::PdaSaxHandler::binary | p::PdaSaxHandler<Wu, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 233
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<Wu, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 263
== p::PdaSaxHandler::key | p::PdaSaxHandler<Wu, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 269
let	$1	eq(param(#0), "to")
let	$2	eq(param(#0), "pop")
let	$3	self._context_stack
let	$4	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$5	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::states_object`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$6	eq(param(#0), "weight")
let	$7	eq(param(#0), "push")
let	$8	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$9	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$10	eq(param(#0), "swap")
let	$11	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$12	eq(top($3).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::pda`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$13	eq(param(#0), "states")
let	$14	eq("pda", param(#0))
let	$15	self.current_pre
let	$16	eq(param(#0), "*")
let	$17	self.current_wildcard
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected_key`, self, param(#0))	!$1 & !$10 & !$2 & !$6 & !$7 & $4 | !$11 & !$12 & !$4 & !$5 & !$8 & !$9 | empty($3)
dom		do(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self)	!empty($3) & $1 & $4 | !empty($3) & $10 & $4 | !empty($3) & $11 & $14 | !empty($3) & $12 & $13 | !empty($3) & $2 & $4 | !empty($3) & $4 & $6 | !empty($3) & $4 & $7
dom		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`))	!$13 & !empty($3) & $12 | !$14 & !empty($3) & $11
do		out(`<<`, self._errors, "error: Encountered state name: \"")	!empty($3) & $5
do		out(`<<`, self._errors, param(#0))	!empty($3) & $5
do		out(`<<`, self._errors, "\" in context: ")	!empty($3) & $5
do		out(`<<`, self._errors, "states object")	!empty($3) & $5
do		out(`<<`, self._errors, ", but state names are disabled in this setting.")	!empty($3) & $5
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!empty($3) & $5
dom		do(`clear`, $15)	!empty($3) & $8
do		do(`pdaaal::PDA::insert_label`, self.build_pda, param(#0))	!$16 & !empty($3) & $8
do		do(`push`, $15, res(`pdaaal::PDA::insert_label`, self.build_pda, param(#0)))	!$16 & !empty($3) & $8
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))	!empty($3) & $8
do		set(self._errored, true)	!empty($3) & !self._errored & $5
do		set($17, true)	!$17 & !empty($3) & $16 & $8
do		set($17, false)	!$16 & !empty($3) & $17 & $8
ret	{!$13 & !empty($3) & $12 | !$14 & !empty($3) & $11 | !empty($3) & $1 & $4 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $10 & $4 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $11 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $12 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $2 & $4 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $4 & $6 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $4 & $7 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($3) & $8 | !empty($3) & $9}	true
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<Wu, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 270
let	$1	self._context_stack
let	$2	eq(0, get(top($1)._v, `0UL`)._mask)
let	$3	self.current_from_state
let	$4	self.current_rule
let	$5	self.current_pre
let	$6	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$7	self.current_wildcard
let	$8	eq(top($1).type', enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "error: Unexpected end of object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_missing_keys`, self)	!$2 & !empty($1)
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, true, $5)	!empty($1) & $2 & $6 & $7
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, false, $5)	!$7 & !empty($1) & $2 & $6
do		do(`pop`, $1)	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$8 & !empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
do		set($3, lin(#1, $3))	!empty($1) & $2 & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		set($4, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0, _weight: 0})	!empty($1) & $2 & $6
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`))	!$8 & !empty($1'') & !empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'')
ret	{!$8 & !empty($1) & $2}	true
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<Wu, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 266
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<Wu, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 239
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<Wi, false, true> | (const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 267
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<Wi, false, true> | () |  | PDA<std::string, Wi, fut::vector, u64, true>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 225
== p::PdaSaxHandler::null | p::PdaSaxHandler<Wi, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 226
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<Wi, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 227
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<Wi, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 249
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<Wi, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 271
let	$1	lt(param(#0), 2147483647)
let	$2	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::weight`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$3	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$4	eq($3, self.last_key)
let	$5	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$6	self.current_rule
let	$7	self._context_stack
do		out(`<<`, self._errors, "error: Unsigned value ")	!$1 & $2
do		do(`operator<<`, self._errors, param(#0))	!$1 & $2
do		out(`<<`, self._errors, " is too large. Maximum value is: ")	!$1 & $2
do		do(`operator<<`, self._errors, 2147483646)	!$1 & $2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$1 & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "")	!$2 & !$4 & !$5
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	$1 & $2 | $4 | $5
do		set($6._to, param(#0))	$5
do		set(self._errored, true)	!$1 & !self._errored & $2
do		set($6._weight, cast(#32, param(#0)))	$1 & $2
do		set(self.last_key, $3)	!empty($7'') & $1 & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($7).type'') | !empty($7'') & $4 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($7).type'') | !empty($7'') & $5 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($7).type'')
ret	{$1 & $2 | $4 | $5}	true
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PdaSaxHelper> | (const std::string &, const std::string &, const std::string &) | std::string | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 272
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
let	$3	empty(param(#2))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " value ")	true
dom		out(`<<`, self._errors, "\"")	true
do		out(`<<`, self._errors, param(#1))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<initial>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`))
dom		out(`<<`, self._errors, "<unknown>")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key) | !empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "pda")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`)) | !empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::pda`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "states")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::states`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "<name of a state>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::state_name`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "<from-label in a state>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "to")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "pop")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::pop`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key)
do		out(`<<`, self._errors, "swap")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::swap`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "push")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::push`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "weight")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::weight`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "initial")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "states array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "states object")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::states_object`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "state")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "rule array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "rule")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, self._errors, "weight array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		out(`<<`, self._errors, " ")	!$3
do		out(`<<`, self._errors, param(#2))	!$3
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<Wi, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 230
== p::PdaSaxHandler::string | p::PdaSaxHandler<Wi, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 262
== p::PdaSaxHandler::binary | p::PdaSaxHandler<Wi, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 233
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<Wi, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 263
== p::PdaSaxHandler::key | p::PdaSaxHandler<Wi, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 269
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<Wi, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 270
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<Wi, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 266
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<Wi, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 239
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> | (const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 273
let	$1	self._context_stack
let	$2	new(`std::vector`)
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::initial_context`))	true
do		set(fld(self, `<base:pdaaal::parsing::SAXHandlerBase>`), param(#0))	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`))	true
do		set($1, new(`std::stack`))	true
do		set(self.build_pda, pdaaal::PDA{_label_map: pdaaal::utils::ptrie_set{}, _states: $2})	true
do		set(self.current_from_state, 0)	true
do		set(self.current_pre, $2)	true
do		set(self.current_wildcard, false)	true
do		set(self.current_rule, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0, _weight: $2})	true
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> | () |  | PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 225
== p::PdaSaxHandler::null | p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 226
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 227
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 228
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 274
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$3	lt(param(#0), 4294967295)
let	$4	self.current_rule
let	$5	self.last_key''
let	$6	eq($5, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$7	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
do		out(`<<`, self._errors, "error: Unsigned value ")	!$3 & !empty($1) & $2
do		do(`operator<<`, self._errors, param(#0))	!$3 & !empty($1) & $2
do		out(`<<`, self._errors, " is too large. Maximum value is: ")	!$3 & !empty($1) & $2
do		do(`operator<<`, self._errors, 4294967294)	!$3 & !empty($1) & $2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$3 & !empty($1) & $2
do		do(`push`, $4._weight, param(#0))	!empty($1) & $2 & $3
dom		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$2 & $6 | !$2 & eq($7, $5) | !empty($1) & $2 & $3 | $6 & empty($1) | empty($1) & eq($7, $5)
do		set(self._errored, true)	!$3 & !empty($1) & !self._errored & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "")	!$2 & !$6 & !eq($7, $5) | !$6 & !eq($7, $5) & empty($1)
dom		set(self.last_key, $7)	!$2 & !empty($1'') & $6 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'') | !$2 & !empty($1'') & eq($7, $5) & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'') | !empty($1'') & !empty($1) & $2 & $3 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'') | !empty($1'') & $6 & empty($1) & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'') | !empty($1'') & empty($1) & eq($7, $5) & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'')
do		set($4._to, param(#0))	!$2 & $6 | $6 & empty($1)
ret	{!$2 & $6 | !$2 & eq($7, $5) | !empty($1) & $2 & $3 | $6 & empty($1) | empty($1) & eq($7, $5)}	true
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 230
== p::SAXHandlerContextStack::error_unexpected_key | p::SAXHandlerContextStack<p::PdaSaxHelper> | (const std::string &) |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 275
let	$1	self._context_stack
do		out(`<<`, self._errors, "error: Unexpected key ")	true
dom		out(`<<`, self._errors, "\"")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " before the start of an object.")	empty($1)
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		out(`<<`, self._errors, " in ")	!empty($1)
do		out(`<<`, self._errors, "<unknown>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "initial")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "pda")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::pda`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "states array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "states object")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::states_object`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "state")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "rule array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "rule")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "weight array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, " object.")	!empty($1)
do		set(self._errored, true)	true
ret	false	true
== p::PdaSaxHandler::string | p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 262
== p::PdaSaxHandler::binary | p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 233
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 263
== p::PdaSaxHandler::key | p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 269
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 276
let	$1	self._context_stack
let	$2	eq(0, get(top($1)._v, `0UL`)._mask)
let	$3	self.current_from_state
let	$4	self.current_rule
let	$5	self.current_pre
let	$6	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$7	self.current_wildcard
let	$8	eq(top($1).type', enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "error: Unexpected end of object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_missing_keys`, self)	!$2 & !empty($1)
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, true, $5)	!empty($1) & $2 & $6 & $7
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, false, $5)	!$7 & !empty($1) & $2 & $6
do		do(`pop`, $1)	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$8 & !empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
do		set($3, lin(#1, $3))	!empty($1) & $2 & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		set($4, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0, _weight: new(`std::vector`)})	!empty($1) & $2 & $6
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`))	!$8 & !empty($1'') & !empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'')
ret	{!$8 & !empty($1) & $2}	true
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 277
let	$1	self._context_stack
let	$2	eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key)
let	$3	eq(1, index(top($1)._v))
let	$4	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::states`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$5	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$6	eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::weight`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, self._errors, "error: Encountered start of array, but must start with an object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "start of array")	!$2 & !$4 & !$5 & !$6 & !empty($1) | !empty($1) & $3
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::state_array`))	!$3 & !empty($1) & $4
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::rule_array`))	!$3 & !empty($1) & $5
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::unknown_context`))	!$3 & !empty($1) & $2
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaSaxHandler::weight_array`))	!$3 & !empty($1) & $6
do		set(self._errored, true)	!self._errored & empty($1)
do		set(self.current_from_state, 0)	!$3 & !empty($1) & $4
ret	{!$3 & !empty($1) & $2 | !$3 & !empty($1) & $4 | !$3 & !empty($1) & $5 | !$3 & !empty($1) & $6}	true
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 239
== p::SAXHandlerContextStack::error_missing_keys | p::SAXHandlerContextStack<p::PdaSaxHelper> | () | <p::PdaSaxHelper::keys::pop, p::PdaSaxHelper::keys::swap, p::PdaSaxHelper::keys::push> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 278
let	$1	top(self._context_stack)
let	$2	call(`pdaaal::utils::flags::split_to_single_flags`, get($1._v, `0UL`)._mask)
let	$3	eq($1.type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$4	out(`<<`, self._errors, "<unknown>")
let	$5	eq($1.type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$6	eq($1.type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::pda`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$7	out(`<<`, self._errors, "pda")
do		out(`<<`, self._errors, "error: Missing key(s): ")	true
do		set(self._errored, true)	true
do	foreach($2)	out(`<<`, self._errors, ", ")	!phi(#0, true, #0)
dom	foreach($2)	out(`<<`, self._errors, "\"")	true
do	foreach($2)	out(`<<`, self._errors, "pop")	$3 & eq(2, $2@0)
dom	foreach($2)	out(`<<`, self._errors, "\"/\"")	$3 & eq(2, $2@0)
do	foreach($2)	out(`<<`, self._errors, "swap")	$3 & eq(2, $2@0)
do	foreach($2)	out(`<<`, self._errors, "push")	$3 & eq(2, $2@0)
do	foreach($2)	$4	!$3 & !$5 & !$6 | !$3 & eq($2@0, 4) | !$3 & eq(2, $2@0) | !eq($2@0, 4) & !eq(1, $2@0) & !eq(2, $2@0)
do	foreach($2)	$7	$5 & eq(1, $2@0)
do	foreach($2)	out(`<<`, self._errors, "states")	$6 & eq(1, $2@0)
do	foreach($2)	out(`<<`, self._errors, "to")	$3 & eq(1, $2@0)
do	foreach($2)	out(`<<`, self._errors, "weight")	$3 & eq($2@0, 4)
do		out(`<<`, self._errors, " in ")	true
do		$4	eq($1.type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "initial")	$5
do		$7	$6
do		out(`<<`, self._errors, "states array")	eq($1.type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "states object")	eq($1.type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::states_object`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "state")	eq($1.type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "rule array")	eq($1.type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, "rule")	$3
do		out(`<<`, self._errors, "weight array")	eq($1.type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, self._errors, " object.")	true
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
ret	false	true
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> | (const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 273
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> | () |  | PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 225
== p::PdaSaxHandler::null | p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 226
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 227
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 258
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::PdaSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const bool &) | bool | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 279
do		do(`operator<<`, param(#0), fnref(`std::boolalpha`))	true
do		do(`operator<<`, param(#0), param(#1))	true
ret	param(#0)	true
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 280
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$3	lt(param(#0), 2147483647)
let	$4	self.current_rule
let	$5	self.last_key''
let	$6	eq($5, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
let	$7	enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`)
do		out(`<<`, self._errors, "error: Unsigned value ")	!$3 & !empty($1) & $2
do		do(`operator<<`, self._errors, param(#0))	!$3 & !empty($1) & $2
do		out(`<<`, self._errors, " is too large. Maximum value is: ")	!$3 & !empty($1) & $2
do		do(`operator<<`, self._errors, 2147483646)	!$3 & !empty($1) & $2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$3 & !empty($1) & $2
do		do(`push`, $4._weight, param(#0))	!empty($1) & $2 & $3
dom		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$2 & $6 | !$2 & eq($7, $5) | !empty($1) & $2 & $3 | $6 & empty($1) | empty($1) & eq($7, $5)
do		set(self._errored, true)	!$3 & !empty($1) & !self._errored & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "")	!$2 & !$6 & !eq($7, $5) | !$6 & !eq($7, $5) & empty($1)
dom		set(self.last_key, $7)	!$2 & !empty($1'') & $6 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'') | !$2 & !empty($1'') & eq($7, $5) & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'') | !empty($1'') & !empty($1) & $2 & $3 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'') | !empty($1'') & $6 & empty($1) & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'') | !empty($1'') & empty($1) & eq($7, $5) & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'')
do		set($4._to, param(#0))	!$2 & $6 | $6 & empty($1)
ret	{!$2 & $6 | !$2 & eq($7, $5) | !empty($1) & $2 & $3 | $6 & empty($1) | empty($1) & eq($7, $5)}	true
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 230
== p::PdaSaxHandler::string | p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 262
== p::PdaSaxHandler::binary | p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 233
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 263
== p::PdaSaxHandler::key | p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 269
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 276
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 277
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 239
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<W0, true, false> | (std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 281
let	$1	pdaaal::utils::ptrie_set{}
let	$2	new(`std::vector`)
do		set(self._errors, addrof(param(#0)))	true
do		set(self._errored, false)	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`))	true
do		set(self._context_stack, new(`std::stack`))	true
do		set(self.build_pda, pdaaal::PDA{_label_map: $1, _state_map: $1, _states: $2})	true
do		set(self.current_from_state, 0)	true
do		set(self.current_pre, $2)	true
do		set(self.current_wildcard, false)	true
do		set(self.current_rule, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0})	true
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::PdaSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const long &) | long | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 282
do		do(`operator<<`, param(#0), param(#1))	true
ret	param(#0)	true
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<W0, true, false> | () |  | PDA<std::string, W0, fut::vector, std::string, false>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 225
== p::PdaSaxHandler::null | p::PdaSaxHandler<W0, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 226
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<W0, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 227
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<W0, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 228
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<W0, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 229
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<W0, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 230
== p::PdaSaxHandler::string | p::PdaSaxHandler<W0, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 232
== p::PdaSaxHandler::binary | p::PdaSaxHandler<W0, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 233
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<W0, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 234
== p::PdaSaxHandler::key | p::PdaSaxHandler<W0, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 235
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<W0, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 283
let	$1	self._context_stack
let	$2	eq(0, get(top($1)._v, `0UL`)._mask)
let	$3	self.current_from_state
let	$4	self.current_rule
let	$5	self.current_pre
let	$6	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$7	self.current_wildcard
do		out(`<<`, self._errors, "error: Unexpected end of object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_missing_keys`, self)	!$2 & !empty($1)
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, true, $5)	!empty($1) & $2 & $6 & $7
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, false, $5)	!$7 & !empty($1) & $2 & $6
do		do(`pop`, $1)	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
do		set($4, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0})	!empty($1) & $2 & $6
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`))	!empty($1'') & !empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'')
ret	{!empty($1) & $2}	true
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<W0, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 238
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<W0, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 239
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::PdaSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const u64 &) | u64 | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 282
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<W0, false, false> | (std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 284
let	$1	new(`std::vector`)
do		set(self._errors, addrof(param(#0)))	true
do		set(self._errored, false)	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`))	true
do		set(self._context_stack, new(`std::stack`))	true
do		set(self.build_pda, pdaaal::PDA{_label_map: pdaaal::utils::ptrie_set{}, _states: $1})	true
do		set(self.current_from_state, 0)	true
do		set(self.current_pre, $1)	true
do		set(self.current_wildcard, false)	true
do		set(self.current_rule, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0})	true
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<W0, false, false> | () |  | PDA<std::string, W0, fut::vector, u64, true>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 225
== p::PdaSaxHandler::null | p::PdaSaxHandler<W0, false, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 226
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<W0, false, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 227
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<W0, false, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 228
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<W0, false, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 261
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<W0, false, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 230
== p::PdaSaxHandler::string | p::PdaSaxHandler<W0, false, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 262
== p::PdaSaxHandler::binary | p::PdaSaxHandler<W0, false, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 233
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<W0, false, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 263
== p::PdaSaxHandler::key | p::PdaSaxHandler<W0, false, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 264
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<W0, false, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 285
let	$1	self._context_stack
let	$2	eq(0, get(top($1)._v, `0UL`)._mask)
let	$3	self.current_from_state
let	$4	self.current_rule
let	$5	self.current_pre
let	$6	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$7	self.current_wildcard
do		out(`<<`, self._errors, "error: Unexpected end of object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_missing_keys`, self)	!$2 & !empty($1)
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, true, $5)	!empty($1) & $2 & $6 & $7
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, false, $5)	!$7 & !empty($1) & $2 & $6
do		do(`pop`, $1)	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
do		set($3, lin(#1, $3))	!empty($1) & $2 & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		set($4, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0})	!empty($1) & $2 & $6
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`))	!empty($1'') & !empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'')
ret	{!empty($1) & $2}	true
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<W0, false, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 266
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<W0, false, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 239
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::PdaSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const double &) | double | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 282
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<Wu, true, false> | (std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 286
let	$1	pdaaal::utils::ptrie_set{}
let	$2	new(`std::vector`)
do		set(self._errors, addrof(param(#0)))	true
do		set(self._errored, false)	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`))	true
do		set(self._context_stack, new(`std::stack`))	true
do		set(self.build_pda, pdaaal::PDA{_label_map: $1, _state_map: $1, _states: $2})	true
do		set(self.current_from_state, 0)	true
do		set(self.current_pre, $2)	true
do		set(self.current_wildcard, false)	true
do		set(self.current_rule, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0, _weight: 0})	true
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<Wu, true, false> | () |  | PDA<std::string, Wu, fut::vector, std::string, false>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 225
== p::PdaSaxHandler::null | p::PdaSaxHandler<Wu, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 226
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<Wu, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 227
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<Wu, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 228
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<Wu, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 243
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<Wu, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 230
== p::PdaSaxHandler::string | p::PdaSaxHandler<Wu, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 232
== p::PdaSaxHandler::binary | p::PdaSaxHandler<Wu, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 233
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<Wu, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 234
== utils::flags::select | utils::flags<2> | (unsigned char, unsigned char) |  | unsigned char
-- file: include/pdaaal/utils/flags.h
-- id: 287
ret	band(param(#1), param(#0))	true
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::PdaSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const std::string &) | std::string | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 288
dom		out(`<<`, param(#0), "\"")	true
do		out(`<<`, param(#0), param(#1))	true
ret	param(#0)	true
== p::PdaSaxHandler::key | p::PdaSaxHandler<Wu, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 245
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<Wu, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 289
let	$1	self._context_stack
let	$2	eq(0, get(top($1)._v, `0UL`)._mask)
let	$3	self.current_from_state
let	$4	self.current_rule
let	$5	self.current_pre
let	$6	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$7	self.current_wildcard
do		out(`<<`, self._errors, "error: Unexpected end of object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_missing_keys`, self)	!$2 & !empty($1)
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, true, $5)	!empty($1) & $2 & $6 & $7
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, false, $5)	!$7 & !empty($1) & $2 & $6
do		do(`pop`, $1)	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
do		set($4, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0, _weight: 0})	!empty($1) & $2 & $6
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`))	!empty($1'') & !empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'')
ret	{!empty($1) & $2}	true
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<Wu, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 238
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<Wu, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 239
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<Wu, false, false> | (std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 290
let	$1	new(`std::vector`)
do		set(self._errors, addrof(param(#0)))	true
do		set(self._errored, false)	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`))	true
do		set(self._context_stack, new(`std::stack`))	true
do		set(self.build_pda, pdaaal::PDA{_label_map: pdaaal::utils::ptrie_set{}, _states: $1})	true
do		set(self.current_from_state, 0)	true
do		set(self.current_pre, $1)	true
do		set(self.current_wildcard, false)	true
do		set(self.current_rule, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0, _weight: 0})	true
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<Wu, false, false> | () |  | PDA<std::string, Wu, fut::vector, u64, true>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 225
== p::PdaSaxHandler::null | p::PdaSaxHandler<Wu, false, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 226
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<Wu, false, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 227
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<Wu, false, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 228
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<Wu, false, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 268
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<Wu, false, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 230
== p::SAXHandlerContextStack::describe_context | p::SAXHandlerContextStack<p::PdaSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &) const |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 291
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
do		out(`<<`, param(#0), " outside of object")	empty($1)
do		out(`<<`, param(#0), " after key \"")	!empty($1) & $2
do		out(`<<`, param(#0), "<initial>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`))
dom		out(`<<`, param(#0), "<unknown>")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key) | !empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, param(#0), "pda")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`)) | !empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::pda`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, param(#0), "states")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::states`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, param(#0), "<name of a state>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::state_name`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, param(#0), "<from-label in a state>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::from_label`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, param(#0), "to")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::to`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, param(#0), "pop")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::keys::pop`, `pdaaal::parsing::PdaSaxHelper::keys`), self.last_key)
do		out(`<<`, param(#0), "swap")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::swap`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, param(#0), "push")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::push`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, param(#0), "weight")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::weight`, `pdaaal::parsing::PdaSaxHelper::keys`))
do		out(`<<`, param(#0), "\" in ")	!empty($1) & $2
dom		out(`<<`, param(#0), "initial")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::initial`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, param(#0), "states array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, param(#0), "states object")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::states_object`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, param(#0), "state")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, param(#0), "rule array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, param(#0), "rule")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
dom		out(`<<`, param(#0), "weight array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		out(`<<`, param(#0), " in ")	!$2 & !empty($1)
do		out(`<<`, param(#0), " at index ")	!$2 & !empty($1)
do		do(`operator<<`, param(#0), get(top($1)._v, `1UL`))	!$2 & !empty($1)
ret	param(#0)	true
== p::PdaSaxHandler::string | p::PdaSaxHandler<Wu, false, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 262
== p::PdaSaxHandler::binary | p::PdaSaxHandler<Wu, false, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 233
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<Wu, false, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 263
== p::PdaSaxHandler::key | p::PdaSaxHandler<Wu, false, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 269
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<Wu, false, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 292
let	$1	self._context_stack
let	$2	eq(0, get(top($1)._v, `0UL`)._mask)
let	$3	self.current_from_state
let	$4	self.current_rule
let	$5	self.current_pre
let	$6	eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::rule`, `pdaaal::parsing::PdaSaxHelper::context_type`))
let	$7	self.current_wildcard
do		out(`<<`, self._errors, "error: Unexpected end of object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_missing_keys`, self)	!$2 & !empty($1)
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, true, $5)	!empty($1) & $2 & $6 & $7
do		do(`pdaaal::PDA::add_rule_detail`, self.build_pda, $3, $4, false, $5)	!$7 & !empty($1) & $2 & $6
do		do(`pop`, $1)	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
do		set($3, lin(#1, $3))	!empty($1) & $2 & eq(top($1).type, enum(`pdaaal::parsing::PdaSaxHelper::context_type::state`, `pdaaal::parsing::PdaSaxHelper::context_type`))
do		set($4, pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0, _weight: 0})	!empty($1) & $2 & $6
do		set(self.last_key, enum(`pdaaal::parsing::PdaSaxHelper::keys::unknown`, `pdaaal::parsing::PdaSaxHelper::keys`))	!empty($1'') & !empty($1) & $2 & eq(enum(`pdaaal::parsing::PdaSaxHelper::context_type::unknown`, `pdaaal::parsing::PdaSaxHelper::context_type`), top($1).type'')
ret	{!empty($1) & $2}	true
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<Wu, false, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 266
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<Wu, false, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 239
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<Wi, true, false> | (std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 286
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<Wi, true, false> | () |  | PDA<std::string, Wi, fut::vector, std::string, false>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 225
== p::PdaSaxHandler::null | p::PdaSaxHandler<Wi, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 226
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<Wi, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 227
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<Wi, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 249
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<Wi, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 250
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<Wi, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 230
== p::PdaSaxHandler::string | p::PdaSaxHandler<Wi, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 232
== p::PdaSaxHandler::binary | p::PdaSaxHandler<Wi, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 233
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<Wi, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 234
== p::PdaSaxHandler::key | p::PdaSaxHandler<Wi, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 245
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<Wi, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 289
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<Wi, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 238
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<Wi, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 239
== p::PdaSaxHandler::PdaSaxHandler | p::PdaSaxHandler<Wi, false, false> | (std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 290
== p::PdaSaxHandler::get_pda | p::PdaSaxHandler<Wi, false, false> | () |  | PDA<std::string, Wi, fut::vector, u64, true>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 225
== p::PdaSaxHandler::null | p::PdaSaxHandler<Wi, false, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 226
== p::PdaSaxHandler::boolean | p::PdaSaxHandler<Wi, false, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 227
== p::PdaSaxHandler::number_integer | p::PdaSaxHandler<Wi, false, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 249
== p::PdaSaxHandler::number_unsigned | p::PdaSaxHandler<Wi, false, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 271
== p::PdaSaxHandler::number_float | p::PdaSaxHandler<Wi, false, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 230
== p::PdaSaxHandler::string | p::PdaSaxHandler<Wi, false, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 262
== p::PdaSaxHandler::binary | p::PdaSaxHandler<Wi, false, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 233
== p::PdaSaxHandler::start_object | p::PdaSaxHandler<Wi, false, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 263
== p::PdaSaxHandler::key | p::PdaSaxHandler<Wi, false, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 269
== p::PdaSaxHandler::end_object | p::PdaSaxHandler<Wi, false, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 292
== p::PdaSaxHandler::start_array | p::PdaSaxHandler<Wi, false, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 266
== p::PdaSaxHandler::end_array | p::PdaSaxHandler<Wi, false, false> | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 239
== p::PdaJsonParser::parse | p::PdaJsonParser | (std::basic_istream<char, std::char_traits<char>> &, std::basic_ostream<char, std::char_traits<char>> &, nlohmann::detail::input_format_t) | Wu, true | PDA<std::string, Wu, fut::vector, std::string, false>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 293
let	$1	call(`nlohmann::basic_json::sax_parse`, param(#0), addr(L(#0)), param(#2), true, false)
let	$2	pdaaal::utils::ptrie_set{}
let	$3	new(`std::vector`)
do		do(`nlohmann::basic_json::sax_parse`, param(#0), addr(L(#0)), param(#2), true, false)	true
do		throw(`std::runtime_error`)	!$1
do		do(`pdaaal::parsing::PdaSaxHandler::get_pda`, L(#0))	$1
dom		init(L(#0), pdaaal::parsing::PdaSaxHandler{_context_stack: new(`std::stack`), _errored: false, _errors: addrof(new(`std::basic_stringstream`)), build_pda: pdaaal::PDA{_label_map: $2, _state_map: $2, _states: $3}, current_from_state: 0, current_pre: $3, current_rule: pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0, _weight: 0}, current_wildcard: false, last_key: enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`)})	true
ret	res(`pdaaal::parsing::PdaSaxHandler::get_pda`, L(#0))	true
== p::PdaJsonParser::parse | p::PdaJsonParser | (std::basic_istream<char, std::char_traits<char>> &, std::basic_ostream<char, std::char_traits<char>> &, nlohmann::detail::input_format_t) | Wu, false | PDA<std::string, Wu, fut::vector, u64, true>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 294
let	$1	call(`nlohmann::basic_json::sax_parse`, param(#0), addr(L(#0)), param(#2), true, false)
let	$2	new(`std::vector`)
do		do(`nlohmann::basic_json::sax_parse`, param(#0), addr(L(#0)), param(#2), true, false)	true
do		throw(`std::runtime_error`)	!$1
do		do(`pdaaal::parsing::PdaSaxHandler::get_pda`, L(#0))	$1
dom		init(L(#0), pdaaal::parsing::PdaSaxHandler{_context_stack: new(`std::stack`), _errored: false, _errors: addrof(new(`std::basic_stringstream`)), build_pda: pdaaal::PDA{_label_map: pdaaal::utils::ptrie_set{}, _states: $2}, current_from_state: 0, current_pre: $2, current_rule: pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0, _weight: 0}, current_wildcard: false, last_key: enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`)})	true
ret	res(`pdaaal::parsing::PdaSaxHandler::get_pda`, L(#0))	true
== p::PdaJsonParser::parse | p::PdaJsonParser | (std::basic_istream<char, std::char_traits<char>> &, std::basic_ostream<char, std::char_traits<char>> &, nlohmann::detail::input_format_t) | Wi, true | PDA<std::string, Wi, fut::vector, std::string, false>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 293
== p::PdaJsonParser::parse | p::PdaJsonParser | (std::basic_istream<char, std::char_traits<char>> &, std::basic_ostream<char, std::char_traits<char>> &, nlohmann::detail::input_format_t) | Wi, false | PDA<std::string, Wi, fut::vector, u64, true>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- same: 294
== p::PdaJsonParser::parse | p::PdaJsonParser | (std::basic_istream<char, std::char_traits<char>> &, std::basic_ostream<char, std::char_traits<char>> &, nlohmann::detail::input_format_t) | W0, true | PDA<std::string, W0, fut::vector, std::string, false>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 295
let	$1	call(`nlohmann::basic_json::sax_parse`, param(#0), addr(L(#0)), param(#2), true, false)
let	$2	pdaaal::utils::ptrie_set{}
let	$3	new(`std::vector`)
do		do(`nlohmann::basic_json::sax_parse`, param(#0), addr(L(#0)), param(#2), true, false)	true
do		throw(`std::runtime_error`)	!$1
do		do(`pdaaal::parsing::PdaSaxHandler::get_pda`, L(#0))	$1
dom		init(L(#0), pdaaal::parsing::PdaSaxHandler{_context_stack: new(`std::stack`), _errored: false, _errors: addrof(new(`std::basic_stringstream`)), build_pda: pdaaal::PDA{_label_map: $2, _state_map: $2, _states: $3}, current_from_state: 0, current_pre: $3, current_rule: pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0}, current_wildcard: false, last_key: enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`)})	true
ret	res(`pdaaal::parsing::PdaSaxHandler::get_pda`, L(#0))	true
== p::PdaJsonParser::parse | p::PdaJsonParser | (std::basic_istream<char, std::char_traits<char>> &, std::basic_ostream<char, std::char_traits<char>> &, nlohmann::detail::input_format_t) | W0, false | PDA<std::string, W0, fut::vector, u64, true>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 296
let	$1	call(`nlohmann::basic_json::sax_parse`, param(#0), addr(L(#0)), param(#2), true, false)
let	$2	new(`std::vector`)
do		do(`nlohmann::basic_json::sax_parse`, param(#0), addr(L(#0)), param(#2), true, false)	true
do		throw(`std::runtime_error`)	!$1
do		do(`pdaaal::parsing::PdaSaxHandler::get_pda`, L(#0))	$1
dom		init(L(#0), pdaaal::parsing::PdaSaxHandler{_context_stack: new(`std::stack`), _errored: false, _errors: addrof(new(`std::basic_stringstream`)), build_pda: pdaaal::PDA{_label_map: pdaaal::utils::ptrie_set{}, _states: $2}, current_from_state: 0, current_pre: $2, current_rule: pdaaal::internal::pda_rule_t{_op_label: 0, _operation: enum(`pdaaal::PUSH`, `pdaaal::op_t`), _to: 0}, current_wildcard: false, last_key: enum(`pdaaal::parsing::PdaSaxHelper::keys::none`, `pdaaal::parsing::PdaSaxHelper::keys`)})	true
ret	res(`pdaaal::parsing::PdaSaxHandler::get_pda`, L(#0))	true
== p::operator<< |  | (std::basic_ostream<char, std::char_traits<char>> &, p::PdaTypeSaxHelper::keys) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 297
do		out(`<<`, param(#0), "<initial>")	eq(param(#1), enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::none`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, param(#0), "state-names")	eq(param(#1), enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::state_names`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, param(#0), "weight-type")	eq(param(#1), enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::weight_type`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
ret	param(#0)	true
== p::operator<< |  | (std::basic_ostream<char, std::char_traits<char>> &, p::PdaTypeSaxHelper::context_type) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 298
do		out(`<<`, param(#0), "<pda-type>")	eq(param(#1), enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::initial`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
do		out(`<<`, param(#0), "weight-type array")	eq(param(#1), enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
ret	param(#0)	true
== p::PdaTypeSaxHelper::get_key | p::PdaTypeSaxHelper | (p::PdaTypeSaxHelper::context_type, unsigned char) |  | p::PdaTypeSaxHelper::keys
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 299
let	$1	eq(param(#0), enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::initial`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
let	$2	eq(param(#1), 1)
let	$3	eq(param(#1), 2)
ret	enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::state_names`, `pdaaal::parsing::PdaTypeSaxHelper::keys`)	$1 & $2
ret	enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::weight_type`, `pdaaal::parsing::PdaTypeSaxHelper::keys`)	$1 & $3
ret	enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::none`, `pdaaal::parsing::PdaTypeSaxHelper::keys`)	!$1 | !$2 & !$3
== p::PdaTypeSaxHandler::PdaTypeSaxHandler | p::PdaTypeSaxHandler | (std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 300
do		set(self._errors, addrof(param(#0)))	true
do		set(self._errored, false)	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::none`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))	true
do		set(self._context_stack, new(`std::stack`))	true
do		set(self.weight_str, "")	true
do		set(self.use_state_names, false)	true
do		set(self.use_weight_array, false)	true
do		set(self.weight_array_size, nullopt)	true
== p::PdaTypeSaxHandler::PdaTypeSaxHandler | p::PdaTypeSaxHandler | (const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 301
do		set(fld(self, `<base:pdaaal::parsing::SAXHandlerBase>`), param(#0))	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::none`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))	true
do		set(self._context_stack, new(`std::stack`))	true
do		set(self.weight_str, "")	true
do		set(self.use_state_names, false)	true
do		set(self.use_weight_array, false)	true
do		set(self.weight_array_size, nullopt)	true
== p::PdaTypeSaxHandler::get_pda_sax_handler | p::PdaTypeSaxHandler | () |  | std::variant<p::PdaSaxHandler<W0, true, true>, p::PdaSaxHandler<Wu, true, true>, p::PdaSaxHandler<Wi, true, true>, p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true>, p::PdaSaxHandler<weight<std::vector<int>, void>, true, true>, p::PdaSaxHandler<W0, false, true>, p::PdaSaxHandler<Wu, false, true>, p::PdaSaxHandler<Wi, false, true>, p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true>, p::PdaSaxHandler<weight<std::vector<int>, void>, false, true>>
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 302
let	$1	gvar(`pdaaal::parsing::PdaSaxHandler::initial_context`)
let	$2	self.weight_str
let	$3	self.use_weight_array
let	$4	has(self.weight_array_size)
let	$5	self.use_state_names
let	$6	new(`std::stack`)
let	$7	pdaaal::utils::ptrie_set{}
let	$8	new(`std::vector`)
let	$9	pdaaal::PDA{_label_map: $7, _state_map: $7, _states: $8}
let	$10	enum(`pdaaal::PUSH`, `pdaaal::op_t`)
let	$11	pdaaal::internal::pda_rule_t{_op_label: 0, _operation: $10, _to: 0, _weight: $8}
let	$12	enum(`pdaaal::parsing::PdaSaxHelper::keys::pda`, `pdaaal::parsing::PdaSaxHelper::keys`)
let	$13	pdaaal::PDA{_label_map: $7, _states: $8}
let	$14	pdaaal::internal::pda_rule_t{_op_label: 0, _operation: $10, _to: 0, _weight: 0}
let	$15	pdaaal::internal::pda_rule_t{_op_label: 0, _operation: $10, _to: 0}
do		do(`push`, L(#1), $1)	$3 & $4 & $5 & eq("uint", $2)
do		do(`push`, L(#7), $1)	!$5 & $3 & $4 & eq("uint", $2)
do		do(`push`, L(#2), $1)	!$4 & $3 & $5 & eq("uint", $2)
do		do(`push`, L(#5), $1)	!$4 & !$5 & $3 & eq("uint", $2)
do		do(`push`, L(#13), $1)	!$3 & $5 & eq("uint", $2)
do		do(`push`, L(#12), $1)	!$3 & !$5 & eq("uint", $2)
do		do(`push`, L(#10), $1)	$3 & $4 & $5 & eq($2, "int")
do		do(`push`, L(#8), $1)	!$5 & $3 & $4 & eq($2, "int")
do		do(`push`, L(#3), $1)	!$4 & $3 & $5 & eq($2, "int")
do		do(`push`, L(#6), $1)	!$4 & !$5 & $3 & eq($2, "int")
do		do(`push`, L(#4), $1)	!$3 & $5 & eq($2, "int")
do		do(`push`, L(#11), $1)	!$3 & !$5 & eq($2, "int")
do		do(`push`, L(#9), $1)	!eq("uint", $2) & !eq($2, "int") & $5
do		do(`push`, L(#0), $1)	!$5 & !eq("uint", $2) & !eq($2, "int")
dom		init(L(#1), $6)	true
dom		init(L(#7), $6)	true
dom		init(L(#2), $6)	true
dom		init(L(#5), $6)	true
dom		init(L(#13), $6)	true
dom		init(L(#12), $6)	true
dom		init(L(#10), $6)	true
dom		init(L(#8), $6)	true
dom		init(L(#3), $6)	true
dom		init(L(#6), $6)	true
dom		init(L(#4), $6)	true
dom		init(L(#11), $6)	true
dom		init(L(#9), $6)	true
dom		init(L(#0), $6)	true
ret	rec(`pdaaal::parsing::PdaSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, L(#1)', `build_pda`, $9, `current_from_state`, 0, `current_pre`, $8, `current_rule`, $11, `current_wildcard`, false, `last_key`, $12])	$3 & $4 & $5 & eq("uint", $2)
ret	rec(`pdaaal::parsing::PdaSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, L(#7)', `build_pda`, $13, `current_from_state`, 0, `current_pre`, $8, `current_rule`, $11, `current_wildcard`, false, `last_key`, $12])	!$5 & $3 & $4 & eq("uint", $2)
ret	rec(`pdaaal::parsing::PdaSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, L(#2)', `build_pda`, $9, `current_from_state`, 0, `current_pre`, $8, `current_rule`, $11, `current_wildcard`, false, `last_key`, $12])	!$4 & $3 & $5 & eq("uint", $2)
ret	rec(`pdaaal::parsing::PdaSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, L(#5)', `build_pda`, $13, `current_from_state`, 0, `current_pre`, $8, `current_rule`, $11, `current_wildcard`, false, `last_key`, $12])	!$4 & !$5 & $3 & eq("uint", $2)
ret	rec(`pdaaal::parsing::PdaSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, L(#13)', `build_pda`, $9, `current_from_state`, 0, `current_pre`, $8, `current_rule`, $14, `current_wildcard`, false, `last_key`, $12])	!$3 & $5 & eq("uint", $2)
ret	rec(`pdaaal::parsing::PdaSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, L(#12)', `build_pda`, $13, `current_from_state`, 0, `current_pre`, $8, `current_rule`, $14, `current_wildcard`, false, `last_key`, $12])	!$3 & !$5 & eq("uint", $2)
ret	rec(`pdaaal::parsing::PdaSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, L(#10)', `build_pda`, $9, `current_from_state`, 0, `current_pre`, $8, `current_rule`, $11, `current_wildcard`, false, `last_key`, $12])	$3 & $4 & $5 & eq($2, "int")
ret	rec(`pdaaal::parsing::PdaSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, L(#8)', `build_pda`, $13, `current_from_state`, 0, `current_pre`, $8, `current_rule`, $11, `current_wildcard`, false, `last_key`, $12])	!$5 & $3 & $4 & eq($2, "int")
ret	rec(`pdaaal::parsing::PdaSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, L(#3)', `build_pda`, $9, `current_from_state`, 0, `current_pre`, $8, `current_rule`, $11, `current_wildcard`, false, `last_key`, $12])	!$4 & $3 & $5 & eq($2, "int")
ret	rec(`pdaaal::parsing::PdaSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, L(#6)', `build_pda`, $13, `current_from_state`, 0, `current_pre`, $8, `current_rule`, $11, `current_wildcard`, false, `last_key`, $12])	!$4 & !$5 & $3 & eq($2, "int")
ret	rec(`pdaaal::parsing::PdaSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, L(#4)', `build_pda`, $9, `current_from_state`, 0, `current_pre`, $8, `current_rule`, $14, `current_wildcard`, false, `last_key`, $12])	!$3 & $5 & eq($2, "int")
ret	rec(`pdaaal::parsing::PdaSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, L(#11)', `build_pda`, $13, `current_from_state`, 0, `current_pre`, $8, `current_rule`, $14, `current_wildcard`, false, `last_key`, $12])	!$3 & !$5 & eq($2, "int")
ret	rec(`pdaaal::parsing::PdaSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, L(#9)', `build_pda`, $9, `current_from_state`, 0, `current_pre`, $8, `current_rule`, $15, `current_wildcard`, false, `last_key`, $12])	!eq("uint", $2) & !eq($2, "int") & $5
ret	rec(`pdaaal::parsing::PdaSaxHandler`, [`<base:pdaaal::parsing::SAXHandlerBase>`, self, `_context_stack`, L(#0)', `build_pda`, $13, `current_from_state`, 0, `current_pre`, $8, `current_rule`, $15, `current_wildcard`, false, `last_key`, $12])	!$5 & !eq("uint", $2) & !eq($2, "int")
== p::PdaTypeSaxHandler::null | p::PdaTypeSaxHandler | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 303
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "null value")	true
ret	false	true
== p::PdaTypeSaxHandler::boolean | p::PdaTypeSaxHandler | (bool) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 304
let	$1	eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::state_names`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
let	$2	self.use_state_names
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	$1
do		set($2, true)	!$2 & $1 & param(#0)
do		set($2, false)	!param(#0) & $1 & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "boolean", param(#0), "")	!$1
ret	$1	true
== p::PdaTypeSaxHandler::number_integer | p::PdaTypeSaxHandler | (long) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 305
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "integer", param(#0), "")	true
ret	false	true
== p::PdaTypeSaxHandler::number_unsigned | p::PdaTypeSaxHandler | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 306
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
let	$3	get(top($1)._v, `1UL`)
do		out(`<<`, self._errors, "error: value ")	!empty($1) & !eq($3, 1) & $2
do		do(`operator<<`, self._errors, param(#0))	!empty($1) & !eq($3, 1) & $2
do		out(`<<`, self._errors, "at index ")	!empty($1) & !eq($3, 1) & $2
do		do(`operator<<`, self._errors, $3)	!empty($1) & !eq($3, 1) & $2
do		out(`<<`, self._errors, " in ")	!empty($1) & !eq($3, 1) & $2
do		out(`<<`, self._errors, "weight-type array")	!empty($1) & !eq($3, 1) & $2
do		out(`<<`, self._errors, " was expected to be at index ")	!empty($1) & !eq($3, 1) & $2
do		do(`operator<<`, self._errors, 1)	!empty($1) & !eq($3, 1) & $2
do		out(`<<`, self._errors, ".")	!empty($1) & !eq($3, 1) & $2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!empty($1) & !eq($3, 1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($1) & $2 & eq($3, 1)
do		set(self._errored, true)	!empty($1) & !eq($3, 1) & !self._errored & $2
do		set(self.weight_array_size, some(param(#0)))	!empty($1) & $2 & eq($3, 1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "")	!$2 | empty($1)
ret	{!empty($1) & $2 & eq($3, 1)}	true
== p::PdaTypeSaxHandler::number_float | p::PdaTypeSaxHandler | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 307
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "float", param(#0), "")	true
ret	false	true
== p::PdaTypeSaxHandler::string | p::PdaTypeSaxHandler | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 308
let	$1	self._context_stack
let	$2	eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::weight_type`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
let	$3	eq("int", param(#0))
let	$4	eq(param(#0), "none")
let	$5	eq("uint", param(#0))
let	$6	get(top($1)._v, `1UL`)
let	$7	eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "string", param(#0), "")	!$2 | empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "string", param(#0), "Unrecognized weight type.")	!$3 & !$4 & !$5 & !empty($1) & $2
do		out(`<<`, self._errors, "error: value ")	!empty($1) & !eq($6, 0) & $2 & $3 & $7 | !empty($1) & !eq($6, 0) & $2 & $4 & $7 | !empty($1) & !eq($6, 0) & $2 & $5 & $7
dom		out(`<<`, self._errors, "\"")	!empty($1) & !eq($6, 0) & $2 & $3 & $7 | !empty($1) & !eq($6, 0) & $2 & $4 & $7 | !empty($1) & !eq($6, 0) & $2 & $5 & $7
do		out(`<<`, self._errors, param(#0))	!empty($1) & !eq($6, 0) & $2 & $3 & $7 | !empty($1) & !eq($6, 0) & $2 & $4 & $7 | !empty($1) & !eq($6, 0) & $2 & $5 & $7
do		out(`<<`, self._errors, "at index ")	!empty($1) & !eq($6, 0) & $2 & $3 & $7 | !empty($1) & !eq($6, 0) & $2 & $4 & $7 | !empty($1) & !eq($6, 0) & $2 & $5 & $7
do		do(`operator<<`, self._errors, $6)	!empty($1) & !eq($6, 0) & $2 & $3 & $7 | !empty($1) & !eq($6, 0) & $2 & $4 & $7 | !empty($1) & !eq($6, 0) & $2 & $5 & $7
do		out(`<<`, self._errors, " in ")	!empty($1) & !eq($6, 0) & $2 & $3 & $7 | !empty($1) & !eq($6, 0) & $2 & $4 & $7 | !empty($1) & !eq($6, 0) & $2 & $5 & $7
do		out(`<<`, self._errors, "weight-type array")	!empty($1) & !eq($6, 0) & $2 & $3 & $7 | !empty($1) & !eq($6, 0) & $2 & $4 & $7 | !empty($1) & !eq($6, 0) & $2 & $5 & $7
do		out(`<<`, self._errors, " was expected to be at index ")	!empty($1) & !eq($6, 0) & $2 & $3 & $7 | !empty($1) & !eq($6, 0) & $2 & $4 & $7 | !empty($1) & !eq($6, 0) & $2 & $5 & $7
do		do(`operator<<`, self._errors, 0)	!empty($1) & !eq($6, 0) & $2 & $3 & $7 | !empty($1) & !eq($6, 0) & $2 & $4 & $7 | !empty($1) & !eq($6, 0) & $2 & $5 & $7
do		out(`<<`, self._errors, ".")	!empty($1) & !eq($6, 0) & $2 & $3 & $7 | !empty($1) & !eq($6, 0) & $2 & $4 & $7 | !empty($1) & !eq($6, 0) & $2 & $5 & $7
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!empty($1) & !eq($6, 0) & $2 & $3 & $7 | !empty($1) & !eq($6, 0) & $2 & $4 & $7 | !empty($1) & !eq($6, 0) & $2 & $5 & $7
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$7 & !empty($1) & $2 & $3 | !$7 & !empty($1) & $2 & $4 | !$7 & !empty($1) & $2 & $5 | !empty($1) & $2 & $3 & eq($6, 0) | !empty($1) & $2 & $4 & eq($6, 0) | !empty($1) & $2 & $5 & eq($6, 0)
do		set(self._errored, true)	!empty($1) & !eq($6, 0) & !self._errored & $2 & $3 & $7 | !empty($1) & !eq($6, 0) & !self._errored & $2 & $4 & $7 | !empty($1) & !eq($6, 0) & !self._errored & $2 & $5 & $7
do		set(self.weight_str, param(#0))	!$7 & !empty($1) & $2 & $3 | !$7 & !empty($1) & $2 & $4 | !$7 & !empty($1) & $2 & $5 | !empty($1) & $2 & $3 & eq($6, 0) | !empty($1) & $2 & $4 & eq($6, 0) | !empty($1) & $2 & $5 & eq($6, 0)
ret	{!$7 & !empty($1) & $2 & $3 | !$7 & !empty($1) & $2 & $4 | !$7 & !empty($1) & $2 & $5 | !empty($1) & $2 & $3 & eq($6, 0) | !empty($1) & $2 & $4 & eq($6, 0) | !empty($1) & $2 & $5 & eq($6, 0)}	true
== p::PdaTypeSaxHandler::binary | p::PdaTypeSaxHandler | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 309
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "binary value")	true
ret	false	true
== p::PdaTypeSaxHandler::start_object | p::PdaTypeSaxHandler | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 310
let	$1	self._context_stack
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaTypeSaxHandler::initial_context`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "start of object")	!empty($1)
ret	empty($1)	true
== p::PdaTypeSaxHandler::key | p::PdaTypeSaxHandler | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 311
let	$1	eq(param(#0), "weight-type")
let	$2	self._context_stack
let	$3	eq(top($2).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::initial`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
let	$4	eq(param(#0), "state-names")
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected_key`, self, param(#0))	!$1 & !$4 | !$3 | empty($2)
dom		do(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self)	!empty($2) & $1 & $3 | !empty($2) & $3 & $4
ret	{!empty($2) & $1 & $3 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($2) & $3 & $4 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self)}	true
== p::PdaTypeSaxHandler::end_object | p::PdaTypeSaxHandler | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 312
let	$1	self._context_stack
let	$2	eq(0, get(top($1)._v, `0UL`)._mask)
do		out(`<<`, self._errors, "error: Unexpected end of object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_missing_keys`, self)	!$2 & !empty($1)
do		do(`pop`, $1)	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($1') & !empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
ret	{!empty($1') & !empty($1) & $2}	true
== p::PdaTypeSaxHandler::start_array | p::PdaTypeSaxHandler | (u64) |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 313
let	$1	self._context_stack
let	$2	self.use_weight_array
let	$3	eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::weight_type`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, self._errors, "error: Encountered start of array, but must start with an object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`push`, $1, gvar(`pdaaal::parsing::PdaTypeSaxHandler::weight_array_context`))	!$2 & !empty($1) & $3
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "start of array")	!$3 & !empty($1) | !empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
do		set($2, true)	!$2 & !empty($1) & $3
ret	{!$2 & !empty($1) & $3}	true
== p::PdaTypeSaxHandler::end_array | p::PdaTypeSaxHandler | () |  | bool
-- file: pdaaal-bin/parsing/PdaJsonParser.h
-- id: 314
let	$1	self._context_stack
let	$2	empty(self.weight_str)
do		out(`<<`, self._errors, "error: Unexpected end of array.")	empty($1)
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	$2 | empty($1)
do		out(`<<`, self._errors, "error: Missing weight type in ")	!empty($1) & $2
do		out(`<<`, self._errors, "<pda-type>")	!empty($1) & $2 & eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::initial`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
do		out(`<<`, self._errors, "weight-type array")	!empty($1) & $2 & eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
do		out(`<<`, self._errors, ".")	!empty($1) & $2
do		do(`pop`, $1)	!$2 & !empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$2 & !empty($1)
do		set(self._errored, true)	!self._errored & $2 | !self._errored & empty($1)
ret	{!$2 & !empty($1)}	true
== p::SAXHandlerContextStack::SAXHandlerContextStack | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 315
do		set(self._errors, addrof(param(#0)))	true
do		set(self._errored, false)	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::none`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))	true
do		set(self._context_stack, new(`std::stack`))	true
== utils::flags::contains | utils::flags<2> | (unsigned char, unsigned char) |  | bool
-- file: include/pdaaal/utils/flags.h
-- id: 316
ret	eq(param(#1), band(param(#1), param(#0)))	true
== p::SAXHandlerContextStack::SAXHandlerContextStack | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (const p::SAXHandlerBase &) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 317
do		set(fld(self, `<base:pdaaal::parsing::SAXHandlerBase>`), param(#0))	true
do		set(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::none`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))	true
do		set(self._context_stack, new(`std::stack`))	true
== p::SAXHandlerContextStack::context_object | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | () | p::PdaTypeSaxHelper::context_type::initial, 2UL | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 318
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 3), type: enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::initial`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`)}	true
== p::SAXHandlerContextStack::context_array | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | () | p::PdaTypeSaxHelper::context_type::weight_array | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 319
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`)}	true
== p::SAXHandlerContextStack::pop_context | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | () |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 209
== p::SAXHandlerContextStack::push_context | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (const p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2> &) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 211
== p::SAXHandlerContextStack::no_context | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 215
== p::SAXHandlerContextStack::current_context | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | () const |  | const p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 218
== p::SAXHandlerContextStack::current_context | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | () |  | p::JsonParserContext<p::PdaTypeSaxHelper::context_type, 2> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 218
== p::SAXHandlerContextStack::current_context_type | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | () const |  | p::PdaTypeSaxHelper::context_type
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 222
== p::SAXHandlerContextStack::handle_key | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | () | p::PdaTypeSaxHelper::context_type::initial, (unsigned char)'\x01', p::PdaTypeSaxHelper::keys::state_names, <> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 320
let	$1	get(top(self._context_stack)._v, `0UL`)._mask
let	$2	eq(band(1, $1), 1)
do		out(`<<`, self._errors, "Duplicate definition of key: ")	!$2
dom		out(`<<`, self._errors, "\"")	!$2
do		out(`<<`, self._errors, "state-names")	!$2
do		out(`<<`, self._errors, " in ")	!$2
do		out(`<<`, self._errors, "<pda-type>")	!$2
do		out(`<<`, self._errors, " object.")	!$2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2
do		set(self._errored, true)	!$2 & !self._errored
do		set($1, band(bnot(1), $1))	$2
do		set(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::state_names`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))	$2
ret	$2	true
== p::SAXHandlerContextStack::handle_key | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | () | p::PdaTypeSaxHelper::context_type::initial, (unsigned char)'\x02', p::PdaTypeSaxHelper::keys::weight_type, <> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 321
let	$1	get(top(self._context_stack)._v, `0UL`)._mask
let	$2	eq(band(2, $1), 2)
do		out(`<<`, self._errors, "Duplicate definition of key: ")	!$2
dom		out(`<<`, self._errors, "\"")	!$2
do		out(`<<`, self._errors, "weight-type")	!$2
do		out(`<<`, self._errors, " in ")	!$2
do		out(`<<`, self._errors, "<pda-type>")	!$2
do		out(`<<`, self._errors, " object.")	!$2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2
do		set(self._errored, true)	!$2 & !self._errored
do		set($1, band(bnot(2), $1))	$2
do		set(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::weight_type`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))	$2
ret	$2	true
== p::SAXHandlerContextStack::element_done | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | () |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 322
let	$1	self._context_stack
let	$2	get(top($1)._v, `1UL`)
let	$3	eq(1, index(top($1)._v))
do		set($2, lin(#1, $2))	!empty($1) & $3
do		set(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::none`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))	!$3 | empty($1)
ret	true	true
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (const std::string &) |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 323
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<initial>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::none`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, self._errors, "state-names")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::state_names`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, self._errors, "weight-type")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::weight_type`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "<pda-type>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::initial`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
dom		out(`<<`, self._errors, "weight-type array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (const std::string &, const bool &, const std::string &) | bool | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 324
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
let	$3	empty(param(#2))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " value ")	true
do		do(`operator<<`, self._errors, fnref(`std::boolalpha`))	true
do		do(`operator<<`, self._errors, param(#1))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<initial>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::none`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, self._errors, "state-names")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::state_names`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, self._errors, "weight-type")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::weight_type`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "<pda-type>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::initial`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
dom		out(`<<`, self._errors, "weight-type array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		out(`<<`, self._errors, " ")	!$3
do		out(`<<`, self._errors, param(#2))	!$3
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== utils::flags::select | utils::flags<3> | (unsigned char, unsigned char) |  | unsigned char
-- file: include/pdaaal/utils/flags.h
-- same: 287
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (const std::string &, const long &, const std::string &) | long | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 325
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
let	$3	empty(param(#2))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " value ")	true
do		do(`operator<<`, self._errors, param(#1))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<initial>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::none`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, self._errors, "state-names")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::state_names`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, self._errors, "weight-type")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::weight_type`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "<pda-type>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::initial`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
dom		out(`<<`, self._errors, "weight-type array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		out(`<<`, self._errors, " ")	!$3
do		out(`<<`, self._errors, param(#2))	!$3
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (const std::string &, const u64 &, const std::string &) | u64 | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 325
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (const std::string &, const double &, const std::string &) | double | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 325
== utils::flags::is_single_flag | utils::flags<2> | (unsigned char) |  | bool
-- file: include/pdaaal/utils/flags.h
-- same: 1
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (const std::string &, const std::string &, const std::string &) | std::string | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 326
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
let	$3	empty(param(#2))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " value ")	true
dom		out(`<<`, self._errors, "\"")	true
do		out(`<<`, self._errors, param(#1))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<initial>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::none`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, self._errors, "state-names")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::state_names`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, self._errors, "weight-type")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::weight_type`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "<pda-type>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::initial`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
dom		out(`<<`, self._errors, "weight-type array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		out(`<<`, self._errors, " ")	!$3
do		out(`<<`, self._errors, param(#2))	!$3
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== p::SAXHandlerContextStack::error_unexpected_key | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (const std::string &) |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 327
let	$1	self._context_stack
do		out(`<<`, self._errors, "error: Unexpected key ")	true
dom		out(`<<`, self._errors, "\"")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " before the start of an object.")	empty($1)
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		out(`<<`, self._errors, " in ")	!empty($1)
do		out(`<<`, self._errors, "<pda-type>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::initial`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
do		out(`<<`, self._errors, "weight-type array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
do		out(`<<`, self._errors, " object.")	!empty($1)
do		set(self._errored, true)	true
ret	false	true
== p::SAXHandlerContextStack::error_missing_keys | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | () | <> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 328
let	$1	top(self._context_stack)
let	$2	call(`pdaaal::utils::flags::split_to_single_flags`, get($1._v, `0UL`)._mask)
let	$3	eq($1.type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::initial`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
do		out(`<<`, self._errors, "error: Missing key(s): ")	true
do		set(self._errored, true)	true
do	foreach($2)	out(`<<`, self._errors, ", ")	!phi(#0, true, #0)
dom	foreach($2)	out(`<<`, self._errors, "\"")	true
do	foreach($2)	out(`<<`, self._errors, "<initial>")	!$3 | !eq(1, $2@0) & !eq(2, $2@0)
do	foreach($2)	out(`<<`, self._errors, "state-names")	$3 & eq(1, $2@0)
do	foreach($2)	out(`<<`, self._errors, "weight-type")	$3 & eq(2, $2@0)
do		out(`<<`, self._errors, " in ")	true
do		out(`<<`, self._errors, "<pda-type>")	$3
do		out(`<<`, self._errors, "weight-type array")	eq($1.type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
do		out(`<<`, self._errors, " object.")	true
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
ret	false	true
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const bool &) | bool | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 279
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const long &) | long | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 282
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const u64 &) | u64 | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 282
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const double &) | double | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 282
== utils::flags::flag | utils::flags<2> | () | 1UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- same: 22
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const std::string &) | std::string | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 288
== p::SAXHandlerContextStack::describe_context | p::SAXHandlerContextStack<p::PdaTypeSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &) const |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 329
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
do		out(`<<`, param(#0), " outside of object")	empty($1)
do		out(`<<`, param(#0), " after key \"")	!empty($1) & $2
do		out(`<<`, param(#0), "<initial>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::none`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, param(#0), "state-names")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::state_names`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, param(#0), "weight-type")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PdaTypeSaxHelper::keys::weight_type`, `pdaaal::parsing::PdaTypeSaxHelper::keys`))
do		out(`<<`, param(#0), "\" in ")	!empty($1) & $2
dom		out(`<<`, param(#0), "<pda-type>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::initial`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
dom		out(`<<`, param(#0), "weight-type array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PdaTypeSaxHelper::context_type::weight_array`, `pdaaal::parsing::PdaTypeSaxHelper::context_type`))
do		out(`<<`, param(#0), " in ")	!$2 & !empty($1)
do		out(`<<`, param(#0), " at index ")	!$2 & !empty($1)
do		do(`operator<<`, param(#0), get(top($1)._v, `1UL`))	!$2 & !empty($1)
ret	param(#0)	true
== utils::flags::flag | utils::flags<2> | () | 2UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- same: 23
== p::SAXHandlerContextStack::SAXHandlerContextStack | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 330
do		set(self._errors, addrof(param(#0)))	true
do		set(self._errored, false)	true
do		set(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::none`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))	true
do		set(self._context_stack, new(`std::stack`))	true
== utils::flags::flag | utils::flags<2> | () | 0UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- same: 38
== p::SAXHandlerContextStack::SAXHandlerContextStack | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (const p::SAXHandlerBase &) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 331
do		set(fld(self, `<base:pdaaal::parsing::SAXHandlerBase>`), param(#0))	true
do		set(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::none`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))	true
do		set(self._context_stack, new(`std::stack`))	true
== p::SAXHandlerContextStack::context_object | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () | p::PAutomatonSaxHelper::context_type::initial, 1UL | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 332
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 1), type: enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`)}	true
== p::SAXHandlerContextStack::context_object | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () | p::PAutomatonSaxHelper::context_type::p_automaton, 3UL | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 333
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 7), type: enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`)}	true
== p::SAXHandlerContextStack::context_object | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () | p::PAutomatonSaxHelper::context_type::p_automaton, 2UL | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 334
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 3), type: enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`)}	true
== p::SAXHandlerContextStack::context_array | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () | p::PAutomatonSaxHelper::context_type::initial_array | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 335
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`)}	true
== p::SAXHandlerContextStack::context_array | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () | p::PAutomatonSaxHelper::context_type::accepting_array | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 336
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::accepting_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`)}	true
== p::SAXHandlerContextStack::context_array | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () | p::PAutomatonSaxHelper::context_type::edges_array | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 337
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edges_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`)}	true
== p::SAXHandlerContextStack::context_array | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () | p::PAutomatonSaxHelper::context_type::edge_context | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 338
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`)}	true
== utils::flags::fill | utils::flags<2> | () | 2UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- same: 138
== p::SAXHandlerContextStack::pop_context | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 209
== p::SAXHandlerContextStack::push_context | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (const p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3> &) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 211
== p::SAXHandlerContextStack::no_context | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 215
== p::SAXHandlerContextStack::current_context | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () const |  | const p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 218
== p::SAXHandlerContextStack::current_context | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () |  | p::JsonParserContext<p::PAutomatonSaxHelper::context_type, 3> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 218
== p::SAXHandlerContextStack::current_context_type | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () const |  | p::PAutomatonSaxHelper::context_type
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 222
== p::SAXHandlerContextStack::handle_key | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () | p::PAutomatonSaxHelper::context_type::initial, (unsigned char)'\x01', p::PAutomatonSaxHelper::keys::p_automaton, <> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 339
let	$1	get(top(self._context_stack)._v, `0UL`)._mask
let	$2	eq(band(1, $1), 1)
do		out(`<<`, self._errors, "Duplicate definition of key: ")	!$2
dom		out(`<<`, self._errors, "\"")	!$2
do		out(`<<`, self._errors, "P-automaton")	!$2
do		out(`<<`, self._errors, " in ")	!$2
do		out(`<<`, self._errors, "<initial>")	!$2
do		out(`<<`, self._errors, " object.")	!$2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2
do		set(self._errored, true)	!$2 & !self._errored
do		set($1, band(bnot(1), $1))	$2
do		set(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))	$2
ret	$2	true
== p::SAXHandlerContextStack::handle_key | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () | p::PAutomatonSaxHelper::context_type::p_automaton, (unsigned char)'\x01', p::PAutomatonSaxHelper::keys::accepting, <> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 340
let	$1	get(top(self._context_stack)._v, `0UL`)._mask
let	$2	eq(band(1, $1), 1)
do		out(`<<`, self._errors, "Duplicate definition of key: ")	!$2
dom		out(`<<`, self._errors, "\"")	!$2
do		out(`<<`, self._errors, "accepting")	!$2
do		out(`<<`, self._errors, " in ")	!$2
do		out(`<<`, self._errors, "P-automaton")	!$2
do		out(`<<`, self._errors, " object.")	!$2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2
do		set(self._errored, true)	!$2 & !self._errored
do		set($1, band(bnot(1), $1))	$2
do		set(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::accepting`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))	$2
ret	$2	true
== p::SAXHandlerContextStack::handle_key | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () | p::PAutomatonSaxHelper::context_type::p_automaton, (unsigned char)'\x02', p::PAutomatonSaxHelper::keys::edges, <> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 341
let	$1	get(top(self._context_stack)._v, `0UL`)._mask
let	$2	eq(band(2, $1), 2)
do		out(`<<`, self._errors, "Duplicate definition of key: ")	!$2
dom		out(`<<`, self._errors, "\"")	!$2
do		out(`<<`, self._errors, "edges")	!$2
do		out(`<<`, self._errors, " in ")	!$2
do		out(`<<`, self._errors, "P-automaton")	!$2
do		out(`<<`, self._errors, " object.")	!$2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2
do		set(self._errored, true)	!$2 & !self._errored
do		set($1, band(bnot(2), $1))	$2
do		set(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::edges`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))	$2
ret	$2	true
== utils::flags::fill | utils::flags<2> | () | 1UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- same: 133
== p::SAXHandlerContextStack::handle_key | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () | p::PAutomatonSaxHelper::context_type::p_automaton, (unsigned char)'\x04', p::PAutomatonSaxHelper::keys::initial, <> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 342
let	$1	get(top(self._context_stack)._v, `0UL`)._mask
let	$2	eq(band($1, 4), 4)
do		out(`<<`, self._errors, "Duplicate definition of key: ")	!$2
dom		out(`<<`, self._errors, "\"")	!$2
do		out(`<<`, self._errors, "initial")	!$2
do		out(`<<`, self._errors, " in ")	!$2
do		out(`<<`, self._errors, "P-automaton")	!$2
do		out(`<<`, self._errors, " object.")	!$2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2
do		set(self._errored, true)	!$2 & !self._errored
do		set($1, band($1, bnot(4)))	$2
do		set(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::initial`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))	$2
ret	$2	true
== p::SAXHandlerContextStack::element_done | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 343
let	$1	self._context_stack
let	$2	get(top($1)._v, `1UL`)
let	$3	eq(1, index(top($1)._v))
do		set($2, lin(#1, $2))	!empty($1) & $3
do		set(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::none`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))	!$3 | empty($1)
ret	true	true
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (const std::string &) |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 344
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<none>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::none`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
dom		out(`<<`, self._errors, "P-automaton")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::keys`), self.last_key) | !empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, "initial")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::initial`, `pdaaal::parsing::PAutomatonSaxHelper::keys`), self.last_key)
do		out(`<<`, self._errors, "accepting")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::accepting`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
do		out(`<<`, self._errors, "edges")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::edges`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "<initial>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "initial array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "accepting array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::accepting_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "edges array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edges_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "edge")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (const std::string &, const double &, const std::string &) | double | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 345
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
let	$3	empty(param(#2))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " value ")	true
do		do(`operator<<`, self._errors, param(#1))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<none>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::none`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
dom		out(`<<`, self._errors, "P-automaton")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::keys`), self.last_key) | !empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, "initial")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::initial`, `pdaaal::parsing::PAutomatonSaxHelper::keys`), self.last_key)
do		out(`<<`, self._errors, "accepting")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::accepting`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
do		out(`<<`, self._errors, "edges")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::edges`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "<initial>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "initial array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "accepting array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::accepting_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "edges array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edges_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "edge")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		out(`<<`, self._errors, " ")	!$3
do		out(`<<`, self._errors, param(#2))	!$3
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (const std::string &, const bool &, const std::string &) | bool | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 346
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
let	$3	empty(param(#2))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " value ")	true
do		do(`operator<<`, self._errors, fnref(`std::boolalpha`))	true
do		do(`operator<<`, self._errors, param(#1))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<none>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::none`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
dom		out(`<<`, self._errors, "P-automaton")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::keys`), self.last_key) | !empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, "initial")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::initial`, `pdaaal::parsing::PAutomatonSaxHelper::keys`), self.last_key)
do		out(`<<`, self._errors, "accepting")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::accepting`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
do		out(`<<`, self._errors, "edges")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::edges`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "<initial>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "initial array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "accepting array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::accepting_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "edges array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edges_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "edge")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		out(`<<`, self._errors, " ")	!$3
do		out(`<<`, self._errors, param(#2))	!$3
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== utils::flags::split_to_single_flags | utils::flags<2> | (unsigned char) |  | std::vector<unsigned char>
-- file: include/pdaaal/utils/flags.h
-- id: 347
let	$1	cast(#8, opshl(1, range(0, 2)@0))
do	foreach(range(0, 2))	do(`push`, L(#0), $1)	eq(band(param(#0), $1), $1)
dom		init(L(#0), new(`std::vector`))	true
ret	L(#0)'	true
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (const std::string &, const long &, const std::string &) | long | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 345
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (const std::string &, const std::string &, const std::string &) | std::string | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 348
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
let	$3	empty(param(#2))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " value ")	true
dom		out(`<<`, self._errors, "\"")	true
do		out(`<<`, self._errors, param(#1))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<none>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::none`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
dom		out(`<<`, self._errors, "P-automaton")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::keys`), self.last_key) | !empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, "initial")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::initial`, `pdaaal::parsing::PAutomatonSaxHelper::keys`), self.last_key)
do		out(`<<`, self._errors, "accepting")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::accepting`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
do		out(`<<`, self._errors, "edges")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::edges`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "<initial>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "initial array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "accepting array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::accepting_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "edges array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edges_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, self._errors, "edge")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		out(`<<`, self._errors, " ")	!$3
do		out(`<<`, self._errors, param(#2))	!$3
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (const std::string &, const u64 &, const std::string &) | u64 | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 345
== p::SAXHandlerContextStack::error_unexpected_key | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (const std::string &) |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 349
let	$1	self._context_stack
do		out(`<<`, self._errors, "error: Unexpected key ")	true
dom		out(`<<`, self._errors, "\"")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " before the start of an object.")	empty($1)
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		out(`<<`, self._errors, " in ")	!empty($1)
do		out(`<<`, self._errors, "<initial>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, "P-automaton")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, "initial array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, "accepting array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::accepting_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, "edges array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edges_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, "edge")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, " object.")	!empty($1)
do		set(self._errored, true)	true
ret	false	true
== p::SAXHandlerContextStack::error_missing_keys | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | () | <> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 350
let	$1	top(self._context_stack)
let	$2	call(`pdaaal::utils::flags::split_to_single_flags`, get($1._v, `0UL`)._mask)
let	$3	eq($1.type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$4	eq($1.type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$5	out(`<<`, self._errors, "P-automaton")
do		out(`<<`, self._errors, "error: Missing key(s): ")	true
do		set(self._errored, true)	true
do	foreach($2)	out(`<<`, self._errors, ", ")	!phi(#0, true, #0)
dom	foreach($2)	out(`<<`, self._errors, "\"")	true
do	foreach($2)	out(`<<`, self._errors, "<none>")	!$3 & !$4 | !$4 & eq($2@0, 4) | !$4 & eq(2, $2@0) | !eq($2@0, 4) & !eq(1, $2@0) & !eq(2, $2@0)
do	foreach($2)	$5	$3 & eq(1, $2@0)
do	foreach($2)	out(`<<`, self._errors, "initial")	$4 & eq($2@0, 4)
do	foreach($2)	out(`<<`, self._errors, "accepting")	$4 & eq(1, $2@0)
do	foreach($2)	out(`<<`, self._errors, "edges")	$4 & eq(2, $2@0)
do		out(`<<`, self._errors, " in ")	true
do		out(`<<`, self._errors, "<initial>")	$3
do		$5	$4
do		out(`<<`, self._errors, "initial array")	eq($1.type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, "accepting array")	eq($1.type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::accepting_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, "edges array")	eq($1.type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edges_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, "edge")	eq($1.type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, self._errors, " object.")	true
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
ret	false	true
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const std::string &) | std::string | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 288
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const double &) | double | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 282
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const bool &) | bool | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 279
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const long &) | long | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 282
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const u64 &) | u64 | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 282
== PAutomaton::exists_state | PAutomaton<std::string, W0, std::string, false, TI::Pair> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PAutomaton.h
-- id: 351
let	$1	call(`pdaaal::utils::ptrie_set::exists`, self._state_map, param(#0))
let	$2	call(`pdaaal::PDA::exists_state`, self._pda, param(#0))
ret	tuple{#0: true, #1: lin(#0, size(self._pda._states), $1.#1)}	!$2.#0 & $1.#0
ret	tuple{#0: false, #1: $1.#1}	!$1.#0 & !$2.#0
ret	$2	$2.#0
== PAutomaton::insert_state | PAutomaton<std::string, W0, std::string, false, TI::Pair> | (const std::string &) |  | u64
-- file: include/pdaaal/PAutomaton.h
-- id: 352
let	$1	self._state_map
do		do(`pdaaal::utils::ptrie_set::insert`, $1, param(#0))	true
ret	lin(#0, size(self._pda._states), fresh(`pdaaal::utils::ptrie_set::insert`, $1, param(#0)))	true
== PAutomaton::exists_state | PAutomaton<std::string, Wu, std::string, false, TI::Pair> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PAutomaton.h
-- same: 351
== p::SAXHandlerContextStack::describe_context | p::SAXHandlerContextStack<p::PAutomatonSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &) const |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 353
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
do		out(`<<`, param(#0), " outside of object")	empty($1)
do		out(`<<`, param(#0), " after key \"")	!empty($1) & $2
do		out(`<<`, param(#0), "<none>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::none`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
dom		out(`<<`, param(#0), "P-automaton")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::keys`), self.last_key) | !empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, param(#0), "initial")	!empty($1) & $2 & eq(enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::initial`, `pdaaal::parsing::PAutomatonSaxHelper::keys`), self.last_key)
do		out(`<<`, param(#0), "accepting")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::accepting`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
do		out(`<<`, param(#0), "edges")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::edges`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
do		out(`<<`, param(#0), "\" in ")	!empty($1) & $2
dom		out(`<<`, param(#0), "<initial>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, param(#0), "initial array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, param(#0), "accepting array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::accepting_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, param(#0), "edges array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edges_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
dom		out(`<<`, param(#0), "edge")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, param(#0), " in ")	!$2 & !empty($1)
do		out(`<<`, param(#0), " at index ")	!$2 & !empty($1)
do		do(`operator<<`, param(#0), get(top($1)._v, `1UL`))	!$2 & !empty($1)
ret	param(#0)	true
== PAutomaton::insert_state | PAutomaton<std::string, Wu, std::string, false, TI::Pair> | (const std::string &) |  | u64
-- file: include/pdaaal/PAutomaton.h
-- same: 352
== PAutomaton::exists_state | PAutomaton<std::string, Wi, std::string, false, TI::Pair> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PAutomaton.h
-- same: 351
== PAutomaton::insert_state | PAutomaton<std::string, Wi, std::string, false, TI::Pair> | (const std::string &) |  | u64
-- file: include/pdaaal/PAutomaton.h
-- same: 352
== PAutomaton::exists_state | PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Pair> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PAutomaton.h
-- same: 351
== PAutomaton::insert_state | PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Pair> | (const std::string &) |  | u64
-- file: include/pdaaal/PAutomaton.h
-- same: 352
== PAutomaton::exists_state | PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Pair> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PAutomaton.h
-- same: 351
== PAutomaton::insert_state | PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Pair> | (const std::string &) |  | u64
-- file: include/pdaaal/PAutomaton.h
-- same: 352
== PAutomaton::exists_state | PAutomaton<std::string, W0, std::string, false, TI::Single> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PAutomaton.h
-- same: 351
== PAutomaton::insert_state | PAutomaton<std::string, W0, std::string, false, TI::Single> | (const std::string &) |  | u64
-- file: include/pdaaal/PAutomaton.h
-- same: 352
== p::SAXHandlerContextStack::SAXHandlerContextStack | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 354
do		set(self._errors, addrof(param(#0)))	true
do		set(self._errored, false)	true
do		set(self.last_key, enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::none`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))	true
do		set(self._context_stack, new(`std::stack`))	true
== PAutomaton::exists_state | PAutomaton<std::string, Wu, std::string, false, TI::Single> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PAutomaton.h
-- same: 351
== PAutomaton::insert_state | PAutomaton<std::string, Wu, std::string, false, TI::Single> | (const std::string &) |  | u64
-- file: include/pdaaal/PAutomaton.h
-- same: 352
== p::SAXHandlerContextStack::context_object | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | () | p::SolverInstanceSaxHelper::context_type::initial, 1UL | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 355
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 1), type: enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::initial`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`)}	true
== PAutomaton::exists_state | PAutomaton<std::string, Wi, std::string, false, TI::Single> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PAutomaton.h
-- same: 351
== PAutomaton::insert_state | PAutomaton<std::string, Wi, std::string, false, TI::Single> | (const std::string &) |  | u64
-- file: include/pdaaal/PAutomaton.h
-- same: 352
== p::SAXHandlerContextStack::context_array | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | () | p::SolverInstanceSaxHelper::context_type::instance | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1>
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 356
ret	pdaaal::parsing::JsonParserContext{_v: ctor(`std::variant`, gvar(`std::in_place_index`), 0), type: enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`)}	true
== p::SAXHandlerContextStack::pop_context | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | () |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 209
== PAutomaton::exists_state | PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Single> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PAutomaton.h
-- same: 351
== PAutomaton::insert_state | PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Single> | (const std::string &) |  | u64
-- file: include/pdaaal/PAutomaton.h
-- same: 352
== p::SAXHandlerContextStack::push_context | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | (const p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1> &) |  | void
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 211
== PAutomaton::exists_state | PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Single> | (const std::string &) const |  | std::pair<bool, u64>
-- file: include/pdaaal/PAutomaton.h
-- same: 351
== PAutomaton::insert_state | PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Single> | (const std::string &) |  | u64
-- file: include/pdaaal/PAutomaton.h
-- same: 352
== p::SAXHandlerContextStack::no_context | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | () const |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 215
== p::SAXHandlerContextStack::current_context | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | () const |  | const p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 218
== p::SAXHandlerContextStack::current_context | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | () |  | p::JsonParserContext<p::SolverInstanceSaxHelper::context_type, 1> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 218
== p::SAXHandlerContextStack::current_context_type | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | () const |  | p::SolverInstanceSaxHelper::context_type
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 222
== p::SAXHandlerContextStack::handle_key | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | () | p::SolverInstanceSaxHelper::context_type::initial, (unsigned char)'\x01', p::SolverInstanceSaxHelper::keys::instance, <> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 357
let	$1	get(top(self._context_stack)._v, `0UL`)._mask
let	$2	eq(band(1, $1), 1)
do		out(`<<`, self._errors, "Duplicate definition of key: ")	!$2
dom		out(`<<`, self._errors, "\"")	!$2
do		out(`<<`, self._errors, "instance")	!$2
do		out(`<<`, self._errors, " in ")	!$2
do		out(`<<`, self._errors, "<initial>")	!$2
do		out(`<<`, self._errors, " object.")	!$2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$2
do		set(self._errored, true)	!$2 & !self._errored
do		set($1, band(bnot(1), $1))	$2
do		set(self.last_key, enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))	$2
ret	$2	true
== p::SAXHandlerContextStack::element_done | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | () |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 358
let	$1	self._context_stack
let	$2	get(top($1)._v, `1UL`)
let	$3	eq(1, index(top($1)._v))
do		set($2, lin(#1, $2))	!empty($1) & $3
do		set(self.last_key, enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::none`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))	!$3 | empty($1)
ret	true	true
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | (const std::string &) |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 359
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<none>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::none`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))
do		out(`<<`, self._errors, "instance")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "<initial>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::initial`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
dom		out(`<<`, self._errors, "instance array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | (const std::string &, const bool &, const std::string &) | bool | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 360
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
let	$3	empty(param(#2))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " value ")	true
do		do(`operator<<`, self._errors, fnref(`std::boolalpha`))	true
do		do(`operator<<`, self._errors, param(#1))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<none>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::none`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))
do		out(`<<`, self._errors, "instance")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "<initial>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::initial`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
dom		out(`<<`, self._errors, "instance array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		out(`<<`, self._errors, " ")	!$3
do		out(`<<`, self._errors, param(#2))	!$3
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, W0, std::string, false, TI::Pair> &) | false, std::string, W0, std::string, false, TI::Pair | void
-- file: include/pdaaal/PAutomaton.h
-- id: 361
let	$1	new(`std::initializer_list`)
let	$2	param(#1)._states
let	$3	param(#0)["accepting"]
let	$4	ctor(`nlohmann::basic_json`, $2@0^._id)
let	$5	call(`pdaaal::PAutomaton::get_state_optional`, param(#1), $2@0^._id)
let	$6	$2@0^._accepting
let	$7	ctor(`nlohmann::basic_json`, val($5))
let	$8	foreach($2@0^._edges)
let	$9	$2@0^._edges@0.#1
let	$10	ctor(`nlohmann::detail::json_ref`, $4)
let	$11	ctor(`nlohmann::detail::json_ref`, "")
let	$12	$2@0^._edges@0.#0
let	$13	ctor(`nlohmann::detail::json_ref`, ctor(`nlohmann::basic_json`, $12))
let	$14	eq(4294967295, $9@0.#0)
let	$15	call(`pdaaal::PAutomaton::get_state_optional`, param(#1), $12)
let	$16	ctor(`nlohmann::detail::json_ref`, ctor(`nlohmann::basic_json`, val($15)))
let	$17	ctor(`nlohmann::detail::json_ref`, call(`pdaaal::PAutomaton::get_symbol`, param(#1), $9@0.#0))
let	$18	ctor(`nlohmann::detail::json_ref`, $7)
do		set(param(#0), call(`nlohmann::basic_json::object`, $1))	true
do	foreach($2)	do(`push`, $3, $4)	!has($5) & $6
do	foreach($2)	do(`push`, $3, $7)	$6 & has($5)
do	foreach($2) ; $8 ; foreach($9)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($10, $11, $13)))	!has($15) & !has($5) & $14
do	foreach($2) ; $8 ; foreach($9)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($10, $11, $16)))	!has($5) & $14 & has($15)
do	foreach($2) ; $8 ; foreach($9)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($10, $17, $13)))	!$14 & !has($15) & !has($5)
do	foreach($2) ; $8 ; foreach($9)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($10, $17, $16)))	!$14 & !has($5) & has($15)
do	foreach($2) ; $8 ; foreach($9)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($18, $11, $13)))	!has($15) & $14 & has($5)
do	foreach($2) ; $8 ; foreach($9)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($18, $11, $16)))	$14 & has($15) & has($5)
do	foreach($2) ; $8 ; foreach($9)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($18, $17, $13)))	!$14 & !has($15) & has($5)
do	foreach($2) ; $8 ; foreach($9)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($18, $17, $16)))	!$14 & has($15) & has($5)
do		set(param(#0)["edges"], L(#0)')	true
dom		init(L(#0), call(`nlohmann::basic_json::array`, $1))	true
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, Wu, std::string, false, TI::Pair> &) | false, std::string, Wu, std::string, false, TI::Pair | void
-- file: include/pdaaal/PAutomaton.h
-- same: 361
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, Wi, std::string, false, TI::Pair> &) | false, std::string, Wi, std::string, false, TI::Pair | void
-- file: include/pdaaal/PAutomaton.h
-- same: 361
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Pair> &) | false, std::string, weight<std::vector<u32>, void>, std::string, false, TI::Pair | void
-- file: include/pdaaal/PAutomaton.h
-- same: 361
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Pair> &) | false, std::string, weight<std::vector<int>, void>, std::string, false, TI::Pair | void
-- file: include/pdaaal/PAutomaton.h
-- same: 361
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, W0, u64, true, TI::Pair> &) | false, std::string, W0, u64, true, TI::Pair | void
-- file: include/pdaaal/PAutomaton.h
-- id: 362
let	$1	new(`std::initializer_list`)
let	$2	param(#1)._states
let	$3	ctor(`nlohmann::basic_json`, $2@0^._id)
let	$4	foreach($2@0^._edges)
let	$5	$2@0^._edges@0.#1
let	$6	ctor(`nlohmann::detail::json_ref`, $3)
let	$7	ctor(`nlohmann::detail::json_ref`, ctor(`nlohmann::basic_json`, $2@0^._edges@0.#0))
let	$8	eq(4294967295, $5@0.#0)
do		set(param(#0), call(`nlohmann::basic_json::object`, $1))	true
do	foreach($2)	do(`push`, param(#0)["accepting"], $3)	$2@0^._accepting
do	foreach($2) ; $4 ; foreach($5)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($6, ctor(`nlohmann::detail::json_ref`, ""), $7)))	$8
do	foreach($2) ; $4 ; foreach($5)	do(`push`, L(#0), call(`nlohmann::basic_json::array`, list($6, ctor(`nlohmann::detail::json_ref`, call(`pdaaal::PAutomaton::get_symbol`, param(#1), $5@0.#0)), $7)))	!$8
do		set(param(#0)["edges"], L(#0)')	true
dom		init(L(#0), call(`nlohmann::basic_json::array`, $1))	true
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, Wu, u64, true, TI::Pair> &) | false, std::string, Wu, u64, true, TI::Pair | void
-- file: include/pdaaal/PAutomaton.h
-- same: 362
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, Wi, u64, true, TI::Pair> &) | false, std::string, Wi, u64, true, TI::Pair | void
-- file: include/pdaaal/PAutomaton.h
-- same: 362
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, weight<std::vector<u32>, void>, u64, true, TI::Pair> &) | false, std::string, weight<std::vector<u32>, void>, u64, true, TI::Pair | void
-- file: include/pdaaal/PAutomaton.h
-- same: 362
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, weight<std::vector<int>, void>, u64, true, TI::Pair> &) | false, std::string, weight<std::vector<int>, void>, u64, true, TI::Pair | void
-- file: include/pdaaal/PAutomaton.h
-- same: 362
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | (const std::string &, const long &, const std::string &) | long | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 363
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
let	$3	empty(param(#2))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " value ")	true
do		do(`operator<<`, self._errors, param(#1))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<none>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::none`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))
do		out(`<<`, self._errors, "instance")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "<initial>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::initial`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
dom		out(`<<`, self._errors, "instance array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		out(`<<`, self._errors, " ")	!$3
do		out(`<<`, self._errors, param(#2))	!$3
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, W0, std::string, false, TI::Single> &) | false, std::string, W0, std::string, false, TI::Single | void
-- file: include/pdaaal/PAutomaton.h
-- same: 361
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, Wu, std::string, false, TI::Single> &) | false, std::string, Wu, std::string, false, TI::Single | void
-- file: include/pdaaal/PAutomaton.h
-- same: 361
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, Wi, std::string, false, TI::Single> &) | false, std::string, Wi, std::string, false, TI::Single | void
-- file: include/pdaaal/PAutomaton.h
-- same: 361
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Single> &) | false, std::string, weight<std::vector<u32>, void>, std::string, false, TI::Single | void
-- file: include/pdaaal/PAutomaton.h
-- same: 361
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Single> &) | false, std::string, weight<std::vector<int>, void>, std::string, false, TI::Single | void
-- file: include/pdaaal/PAutomaton.h
-- same: 361
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, W0, u64, true, TI::Single> &) | false, std::string, W0, u64, true, TI::Single | void
-- file: include/pdaaal/PAutomaton.h
-- same: 362
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, Wu, u64, true, TI::Single> &) | false, std::string, Wu, u64, true, TI::Single | void
-- file: include/pdaaal/PAutomaton.h
-- same: 362
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, Wi, u64, true, TI::Single> &) | false, std::string, Wi, u64, true, TI::Single | void
-- file: include/pdaaal/PAutomaton.h
-- same: 362
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, weight<std::vector<u32>, void>, u64, true, TI::Single> &) | false, std::string, weight<std::vector<u32>, void>, u64, true, TI::Single | void
-- file: include/pdaaal/PAutomaton.h
-- same: 362
== to_json_impl |  | (nlohmann::basic_json<std::map, std::vector, std::string, bool, long, u64, double, std::allocator, nlohmann::adl_serializer, std::vector<unsigned char>, void> &, const PAutomaton<std::string, weight<std::vector<int>, void>, u64, true, TI::Single> &) | false, std::string, weight<std::vector<int>, void>, u64, true, TI::Single | void
-- file: include/pdaaal/PAutomaton.h
-- same: 362
== p::operator<< |  | (std::basic_ostream<char, std::char_traits<char>> &, p::PAutomatonSaxHelper::keys) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 364
do		out(`<<`, param(#0), "<none>")	eq(param(#1), enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::none`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
do		out(`<<`, param(#0), "P-automaton")	eq(param(#1), enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
do		out(`<<`, param(#0), "initial")	eq(param(#1), enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::initial`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
do		out(`<<`, param(#0), "accepting")	eq(param(#1), enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::accepting`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
do		out(`<<`, param(#0), "edges")	eq(param(#1), enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::edges`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
ret	param(#0)	true
== p::operator<< |  | (std::basic_ostream<char, std::char_traits<char>> &, p::PAutomatonSaxHelper::context_type) |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 365
do		out(`<<`, param(#0), "<initial>")	eq(param(#1), enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, param(#0), "P-automaton")	eq(param(#1), enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, param(#0), "initial array")	eq(param(#1), enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, param(#0), "accepting array")	eq(param(#1), enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::accepting_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, param(#0), "edges array")	eq(param(#1), enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edges_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
do		out(`<<`, param(#0), "edge")	eq(param(#1), enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
ret	param(#0)	true
== p::PAutomatonSaxHelper::get_key | p::PAutomatonSaxHelper | (p::PAutomatonSaxHelper::context_type, unsigned char) |  | p::PAutomatonSaxHelper::keys
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 366
let	$1	eq(param(#1), 1)
let	$2	eq(param(#0), enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$3	eq(param(#0), enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$4	eq(param(#1), 2)
let	$5	eq(param(#1), 4)
ret	enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::keys`)	$1 & $2
ret	enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::accepting`, `pdaaal::parsing::PAutomatonSaxHelper::keys`)	$1 & $3
ret	enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::edges`, `pdaaal::parsing::PAutomatonSaxHelper::keys`)	$3 & $4
ret	enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::initial`, `pdaaal::parsing::PAutomatonSaxHelper::keys`)	$3 & $5
ret	enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::none`, `pdaaal::parsing::PAutomatonSaxHelper::keys`)	!$1 & !$3 | !$1 & !$4 & !$5 | !$2 & !$3
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | (const std::string &, const u64 &, const std::string &) | u64 | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 363
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> | (PDA<std::string, W0, fut::vector, std::string, false> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 367
let	$1	self._context_stack
do		do(`push`, $1, gvar(`pdaaal::parsing::PAutomatonSaxHandler::initial_context`))	true
do		set(fld(self, `<base:pdaaal::parsing::SAXHandlerBase>`), param(#1))	true
do		set(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))	true
do		set($1, new(`std::stack`))	true
do		set(self.pda, addrof(param(#0)))	true
do		set(self.automaton, ctor(`pdaaal::PAutomaton`, param(#0), new(`std::vector`), true))	true
do		set(self.extra_state_map, new(`std::unordered_map`))	true
do		set(self.current_label, "")	true
do		set(self.current_from_state, 0)	true
do		set(self.current_to_state, 0)	true
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | PAutomaton<std::string, W0, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 368
ret	self.automaton	true
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 369
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "null value")	true
ret	false	true
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 370
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "boolean", param(#0), "")	true
ret	false	true
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 371
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "integer", param(#0), "")	true
ret	false	true
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 372
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$3	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$4	get(top($1)._v, `1UL`)
let	$5	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::accepting_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$6	self.extra_state_map
let	$7	contains($6, param(#0))
let	$8	res(`pdaaal::internal::PAutomaton::add_state`, self.automaton, false, false)
let	$9	self.automaton._states
let	$10	$9[$6[param(#0)]]'
let	$11	$10^._accepting
let	$12	self.automaton._accepting
let	$13	$9[$8]'^._accepting
let	$14	self.current_from_state
let	$15	self.current_to_state
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "")	!$2 & !$3 & !$5 | $3 & eq($4, 1) | empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "PDA does not use indexed states.")	!empty($1) & $2
dom		do(`pdaaal::internal::PAutomaton::add_state`, self.automaton, false, false)	!$7 & !empty($1) & $3 & eq($4, 0) | !$7 & !empty($1) & $3 & eq($4, 2) | !$7 & !empty($1) & $5
dom		do(`insert`, $6, param(#0), $8)	!$7 & !empty($1) & $3 & eq($4, 0) | !$7 & !empty($1) & $3 & eq($4, 2) | !$7 & !empty($1) & $5
do		set($11, true)	!$11' & !empty($1) & $5 & $7
do		do(`push`, $12, $10)	!$11' & !empty($1) & $5 & $7
do		do(`push`, $12, $9[$8]')	!$13' & !$7 & !empty($1) & $5
do		set($13, true)	!$13' & !$7 & !empty($1) & $5
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "An edge should contain exactly three elements.")	!empty($1) & !eq($4, 0) & !eq($4, 1) & !eq($4, 2) & $3
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($1) & $3 & eq($4, 0) | !empty($1) & $3 & eq($4, 2) | !empty($1) & $5
do		set($14, $6[param(#0)])	!empty($1) & $3 & $7 & eq($4, 0)
do		set($14, $8)	!$7 & !empty($1) & $3 & eq($4, 0)
do		set($15, $6[param(#0)])	!empty($1) & $3 & $7 & eq($4, 2)
do		set($15, $8)	!$7 & !empty($1) & $3 & eq($4, 2)
ret	{!empty($1) & $3 & eq($4, 0) | !empty($1) & $3 & eq($4, 2) | !empty($1) & $5}	true
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 373
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "float", param(#0), "")	true
ret	false	true
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 374
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$3	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$4	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::accepting_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$5	call(`pdaaal::PDA::exists_state`, self.pda, param(#0)).#0
let	$6	self.automaton._state_map
let	$7	call(`pdaaal::utils::ptrie_set::exists`, $6, param(#0))
let	$8	get(top($1)._v, `1UL`)
let	$9	self.automaton._pda
let	$10	call(`pdaaal::PDA::exists_state`, $9, param(#0))
let	$11	self.automaton._states
let	$12	res(`pdaaal::internal::PAutomaton::add_state`, self.automaton, false, false)
let	$13	$11[$12]'^._accepting
let	$14	lin(#0, size($9._states), $7.#1)
let	$15	$11[$14]'^._accepting
let	$16	self.automaton._accepting
let	$17	$11[$10.#1]'^._accepting
let	$18	self.current_from_state
let	$19	self.current_to_state
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "string", param(#0), "")	!$2 & !$3 & !$4 | empty($1)
do		out(`<<`, self._errors, "Initial state \"")	!$5 & !empty($1) & $2
do		out(`<<`, self._errors, param(#0))	!$5 & !empty($1) & $2
do		out(`<<`, self._errors, "\" is not in PDA.")	!$5 & !empty($1) & $2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$5 & !empty($1) & $2
dom		do(`pdaaal::internal::PAutomaton::add_state`, self.automaton, false, false)	!$10.#0 & !$7.#0 & !empty($1) & $3 & eq($8, 0) | !$10.#0 & !$7.#0 & !empty($1) & $3 & eq($8, 2) | !$10.#0 & !$7.#0 & !empty($1) & $4
dom		do(`pdaaal::utils::ptrie_set::insert`, $6, param(#0))	!$10.#0 & !$7.#0 & !empty($1) & $3 & eq($8, 0) | !$10.#0 & !$7.#0 & !empty($1) & $3 & eq($8, 2) | !$10.#0 & !$7.#0 & !empty($1) & $4
do		set($13, true)	!$10.#0 & !$13' & !$7.#0 & !empty($1) & $4
do		set($15, true)	!$10.#0 & !$15' & !empty($1) & $4 & $7.#0
do		do(`push`, $16, $11[$12]')	!$10.#0 & !$13' & !$7.#0 & !empty($1) & $4
do		do(`push`, $16, $11[$14]')	!$10.#0 & !$15' & !empty($1) & $4 & $7.#0
do		do(`push`, $16, $11[$10.#1]')	!$17' & !empty($1) & $10.#0 & $4
do		set($17, true)	!$17' & !empty($1) & $10.#0 & $4
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "string", param(#0), "An edge should contain exactly three elements.")	!empty($1) & !eq($8, 0) & !eq($8, 1) & !eq($8, 2) & $3
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($1) & $2 & $5 | !empty($1) & $3 & eq($8, 0) | !empty($1) & $3 & eq($8, 1) | !empty($1) & $3 & eq($8, 2) | !empty($1) & $4
do		set(self._errored, true)	!$5 & !empty($1) & !self._errored & $2
do		set($18, $12)	!$10.#0 & !$7.#0 & !empty($1) & $3 & eq($8, 0)
do		set($18, $14)	!$10.#0 & !empty($1) & $3 & $7.#0 & eq($8, 0)
do		set($18, $10.#1)	!empty($1) & $10.#0 & $3 & eq($8, 0)
do		set(self.current_label, param(#0))	!empty($1) & $3 & eq($8, 1)
do		set($19, $12)	!$10.#0 & !$7.#0 & !empty($1) & $3 & eq($8, 2)
do		set($19, $14)	!$10.#0 & !empty($1) & $3 & $7.#0 & eq($8, 2)
do		set($19, $10.#1)	!empty($1) & $10.#0 & $3 & eq($8, 2)
ret	{!empty($1) & $2 & $5 | !empty($1) & $3 & eq($8, 0) | !empty($1) & $3 & eq($8, 1) | !empty($1) & $3 & eq($8, 2) | !empty($1) & $4}	true
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 375
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "binary value")	true
ret	false	true
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 376
let	$1	self._context_stack
let	$2	eq(enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::keys`), self.last_key)
do		do(`push`, $1, gvar(`pdaaal::parsing::PAutomatonSaxHandler::initial_context`))	empty($1)
do		do(`push`, $1, gvar(`pdaaal::parsing::PAutomatonSaxHandler::p_automaton`))	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "start of object")	!$2 & !empty($1)
ret	{$2 | empty($1)}	true
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 377
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$3	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$4	eq(param(#0), "edges")
let	$5	eq("accepting", param(#0))
let	$6	eq(param(#0), "initial")
let	$7	eq("P-automaton", param(#0))
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected_key`, self, param(#0))	!$2 & !$4 & !$5 & !$6 | !$3 & $4 | !$3 & $5 | !$3 & $6 | !$4 & !$5 & !$6 & !$7 | empty($1)
dom		do(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self)	!empty($1) & $2 & $7 | !empty($1) & $3 & $4 | !empty($1) & $3 & $5
do		set(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::initial`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))	!empty($1) & $3 & $6
ret	{!empty($1) & $2 & $7 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($1) & $3 & $4 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($1) & $3 & $5 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($1) & $3 & $6}	true
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 378
let	$1	self._context_stack
let	$2	eq(0, get(top($1)._v, `0UL`)._mask)
let	$3	eq(enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`), top($1).type')
do		out(`<<`, self._errors, "error: Unexpected end of object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_missing_keys`, self)	!$2 & !empty($1)
do		do(`pop`, $1)	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$3 & !empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
ret	{!$3 & !empty($1) & $2}	true
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 379
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edges_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$3	eq(enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::initial`, `pdaaal::parsing::PAutomatonSaxHelper::keys`), self.last_key)
let	$4	eq(1, index(top($1)._v))
let	$5	eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::edges`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
let	$6	eq(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::accepting`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))
let	$7	18446744073709551615
do		out(`<<`, self._errors, "error: Encountered start of array, but must start with an object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`push`, $1, gvar(`pdaaal::parsing::PAutomatonSaxHandler::edge_context`))	!empty($1) & $2
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "start of array")	!$2 & !$3 & !$5 & !$6 & !empty($1) | !$2 & !empty($1) & $4
do		do(`push`, $1, gvar(`pdaaal::parsing::PAutomatonSaxHandler::initial_array`))	!$2 & !$4 & !empty($1) & $3
do		do(`push`, $1, gvar(`pdaaal::parsing::PAutomatonSaxHandler::accepting_array`))	!$2 & !$4 & !empty($1) & $6
do		do(`push`, $1, gvar(`pdaaal::parsing::PAutomatonSaxHandler::edges_array`))	!$2 & !$4 & !empty($1) & $5
do		set(self._errored, true)	!self._errored & empty($1)
do		set(self.current_from_state, $7)	!empty($1) & $2
do		set(self.current_to_state, $7)	!empty($1) & $2
do		set(self.current_label, "")	!empty($1) & $2
ret	{!$4 & !empty($1) & $3 | !$4 & !empty($1) & $5 | !$4 & !empty($1) & $6 | !empty($1) & $2}	true
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 380
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$3	eq(get(top($1)._v, `1UL`), 3)
let	$4	self.automaton._states[self.current_from_state]^._edges
let	$5	self.current_to_state
let	$6	18446744073709551615
let	$7	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $6, _state: $6}
let	$8	tuple{#0: $7, #1: $7}
let	$9	self.current_label
do		out(`<<`, self._errors, "error: Unexpected end of array.")	empty($1)
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	!$3 & $2 | empty($1)
do		out(`<<`, self._errors, "error: An edge should contain exactly three elements.")	!$3 & !empty($1) & $2
do		do(`insert`, $4, $5, 4294967295, $8)	!empty($1) & $2 & $3 & empty($9)
do		do(`pdaaal::PDA::insert_label`, self.pda, $9)	!empty($1) & !empty($9) & $2 & $3
do		do(`insert`, $4, $5, res(`pdaaal::PDA::insert_label`, self.pda, $9), $8)	!empty($1) & !empty($9) & $2 & $3
do		do(`pop`, $1)	!$2 & !empty($1) | !empty($1) & $3
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$2 & !empty($1) | !empty($1) & $3
do		set(self._errored, true)	!$3 & !self._errored & $2 | !self._errored & empty($1)
ret	{!$2 & !empty($1) | !empty($1) & $3}	true
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | (const std::string &, const double &, const std::string &) | double | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 363
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> | (PDA<std::string, Wu, fut::vector, std::string, false> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | PAutomaton<std::string, Wu, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 372
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 374
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 381
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$3	eq(get(top($1)._v, `1UL`), 3)
let	$4	self.automaton._states[self.current_from_state]^._edges
let	$5	self.current_to_state
let	$6	18446744073709551615
let	$7	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $6, _state: $6}
let	$8	tuple{#0: tuple{#0: $7, #1: $7}, #1: 0}
let	$9	self.current_label
do		out(`<<`, self._errors, "error: Unexpected end of array.")	empty($1)
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	!$3 & $2 | empty($1)
do		out(`<<`, self._errors, "error: An edge should contain exactly three elements.")	!$3 & !empty($1) & $2
do		do(`insert`, $4, $5, 4294967295, $8)	!empty($1) & $2 & $3 & empty($9)
do		do(`pdaaal::PDA::insert_label`, self.pda, $9)	!empty($1) & !empty($9) & $2 & $3
do		do(`insert`, $4, $5, res(`pdaaal::PDA::insert_label`, self.pda, $9), $8)	!empty($1) & !empty($9) & $2 & $3
do		do(`pop`, $1)	!$2 & !empty($1) | !empty($1) & $3
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$2 & !empty($1) | !empty($1) & $3
do		set(self._errored, true)	!$3 & !self._errored & $2 | !self._errored & empty($1)
ret	{!$2 & !empty($1) | !empty($1) & $3}	true
== p::SAXHandlerContextStack::error_unexpected | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | (const std::string &, const std::string &, const std::string &) | std::string | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 382
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
let	$3	empty(param(#2))
do		out(`<<`, self._errors, "error: Unexpected ")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " value ")	true
dom		out(`<<`, self._errors, "\"")	true
do		out(`<<`, self._errors, param(#1))	true
do		out(`<<`, self._errors, " outside of object")	empty($1)
do		out(`<<`, self._errors, " after key \"")	!empty($1) & $2
do		out(`<<`, self._errors, "<none>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::none`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))
do		out(`<<`, self._errors, "instance")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))
do		out(`<<`, self._errors, "\" in ")	!empty($1) & $2
dom		out(`<<`, self._errors, "<initial>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::initial`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
dom		out(`<<`, self._errors, "instance array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
do		out(`<<`, self._errors, " in ")	!$2 & !empty($1)
do		out(`<<`, self._errors, " at index ")	!$2 & !empty($1)
do		do(`operator<<`, self._errors, get(top($1)._v, `1UL`))	!$2 & !empty($1)
do		out(`<<`, self._errors, ".")	true
do		out(`<<`, self._errors, " ")	!$3
do		out(`<<`, self._errors, param(#2))	!$3
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		set(self._errored, true)	true
ret	false	true
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> | (PDA<std::string, Wi, fut::vector, std::string, false> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | PAutomaton<std::string, Wi, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 372
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 374
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 381
== p::SAXHandlerContextStack::error_unexpected_key | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | (const std::string &) |  | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 383
let	$1	self._context_stack
do		out(`<<`, self._errors, "error: Unexpected key ")	true
dom		out(`<<`, self._errors, "\"")	true
do		out(`<<`, self._errors, param(#0))	true
do		out(`<<`, self._errors, " before the start of an object.")	empty($1)
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	true
do		out(`<<`, self._errors, " in ")	!empty($1)
do		out(`<<`, self._errors, "<initial>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::initial`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
do		out(`<<`, self._errors, "instance array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
do		out(`<<`, self._errors, " object.")	!empty($1)
do		set(self._errored, true)	true
ret	false	true
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::SAXHandlerContextStack::error_missing_keys | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | () | <> | bool
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 384
let	$1	top(self._context_stack)
let	$2	call(`pdaaal::utils::flags::split_to_single_flags`, get($1._v, `0UL`)._mask)
let	$3	eq($1.type, enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::initial`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
do		out(`<<`, self._errors, "error: Missing key(s): ")	true
do		set(self._errored, true)	true
do	foreach($2)	out(`<<`, self._errors, ", ")	!phi(#0, true, #0)
dom	foreach($2)	out(`<<`, self._errors, "\"")	true
do	foreach($2)	out(`<<`, self._errors, "<none>")	!$3 | !eq(1, $2@0)
do	foreach($2)	out(`<<`, self._errors, "instance")	$3 & eq(1, $2@0)
do		out(`<<`, self._errors, " in ")	true
do		out(`<<`, self._errors, "<initial>")	$3
do		out(`<<`, self._errors, "instance array")	eq($1.type, enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
do		out(`<<`, self._errors, " object.")	true
do		do(`operator<<`, self._errors, fnref(`std::endl`))	true
ret	false	true
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 372
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 374
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const bool &) | bool | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 279
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 385
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$3	eq(get(top($1)._v, `1UL`), 3)
let	$4	self.automaton._states[self.current_from_state]^._edges
let	$5	self.current_to_state
let	$6	18446744073709551615
let	$7	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $6, _state: $6}
let	$8	tuple{#0: tuple{#0: $7, #1: $7}, #1: new(`std::vector`)}
let	$9	self.current_label
do		out(`<<`, self._errors, "error: Unexpected end of array.")	empty($1)
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	!$3 & $2 | empty($1)
do		out(`<<`, self._errors, "error: An edge should contain exactly three elements.")	!$3 & !empty($1) & $2
do		do(`insert`, $4, $5, 4294967295, $8)	!empty($1) & $2 & $3 & empty($9)
do		do(`pdaaal::PDA::insert_label`, self.pda, $9)	!empty($1) & !empty($9) & $2 & $3
do		do(`insert`, $4, $5, res(`pdaaal::PDA::insert_label`, self.pda, $9), $8)	!empty($1) & !empty($9) & $2 & $3
do		do(`pop`, $1)	!$2 & !empty($1) | !empty($1) & $3
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$2 & !empty($1) | !empty($1) & $3
do		set(self._errored, true)	!$3 & !self._errored & $2 | !self._errored & empty($1)
ret	{!$2 & !empty($1) | !empty($1) & $3}	true
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const long &) | long | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 282
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 372
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 374
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 385
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const u64 &) | u64 | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 282
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> | (PDA<std::string, W0, fut::vector, u64, true> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> | () |  | PAutomaton<std::string, W0, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 386
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$3	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$4	get(top($1)._v, `1UL`)
let	$5	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::accepting_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$6	call(`pdaaal::PDA::exists_state`, self.pda, param(#0)).#0
let	$7	lt(param(#0), size(self.pda._states))
let	$8	self.extra_state_map
let	$9	contains($8, param(#0))
let	$10	res(`pdaaal::internal::PAutomaton::add_state`, self.automaton, false, false)
let	$11	self.automaton._states
let	$12	$11[param(#0)]'
let	$13	$12^._accepting
let	$14	$11[$8[param(#0)]]'
let	$15	$14^._accepting
let	$16	self.automaton._accepting
let	$17	$11[$10]'^._accepting
let	$18	self.current_from_state
let	$19	self.current_to_state
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "")	!$2 & !$3 & !$5 | $3 & eq($4, 1) | empty($1)
do		out(`<<`, self._errors, "Initial state ")	!$6 & !empty($1) & $2
do		do(`operator<<`, self._errors, param(#0))	!$6 & !empty($1) & $2
do		out(`<<`, self._errors, " is not in PDA.")	!$6 & !empty($1) & $2
do		do(`operator<<`, self._errors, fnref(`std::endl`))	!$6 & !empty($1) & $2
dom		do(`pdaaal::internal::PAutomaton::add_state`, self.automaton, false, false)	!$7 & !$9 & !empty($1) & $3 & eq($4, 0) | !$7 & !$9 & !empty($1) & $3 & eq($4, 2) | !$7 & !$9 & !empty($1) & $5
dom		do(`insert`, $8, param(#0), $10)	!$7 & !$9 & !empty($1) & $3 & eq($4, 0) | !$7 & !$9 & !empty($1) & $3 & eq($4, 2) | !$7 & !$9 & !empty($1) & $5
do		set($13, true)	!$13' & !empty($1) & $5 & $7
do		set($15, true)	!$15' & !$7 & !empty($1) & $5 & $9
do		do(`push`, $16, $12)	!$13' & !empty($1) & $5 & $7
do		do(`push`, $16, $14)	!$15' & !$7 & !empty($1) & $5 & $9
do		do(`push`, $16, $11[$10]')	!$17' & !$7 & !$9 & !empty($1) & $5
do		set($17, true)	!$17' & !$7 & !$9 & !empty($1) & $5
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "unsigned", param(#0), "An edge should contain exactly three elements.")	!empty($1) & !eq($4, 0) & !eq($4, 1) & !eq($4, 2) & $3
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($1) & $2 & $6 | !empty($1) & $3 & eq($4, 0) | !empty($1) & $3 & eq($4, 2) | !empty($1) & $5
do		set(self._errored, true)	!$6 & !empty($1) & !self._errored & $2
do		set($18, param(#0))	!empty($1) & $3 & $7 & eq($4, 0)
do		set($18, $8[param(#0)])	!$7 & !empty($1) & $3 & $9 & eq($4, 0)
do		set($18, $10)	!$7 & !$9 & !empty($1) & $3 & eq($4, 0)
do		set($19, param(#0))	!empty($1) & $3 & $7 & eq($4, 2)
do		set($19, $8[param(#0)])	!$7 & !empty($1) & $3 & $9 & eq($4, 2)
do		set($19, $10)	!$7 & !$9 & !empty($1) & $3 & eq($4, 2)
ret	{!empty($1) & $2 & $6 | !empty($1) & $3 & eq($4, 0) | !empty($1) & $3 & eq($4, 2) | !empty($1) & $5}	true
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 387
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$3	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$4	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::accepting_array`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$5	get(top($1)._v, `1UL`)
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "string", param(#0), "")	!$2 & !$3 & !$4 | empty($1)
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "string", param(#0), "PDA does not use string states.")	!empty($1) & $2 | !empty($1) & $3 & eq($5, 0) | !empty($1) & $3 & eq($5, 2) | !empty($1) & $4
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected`, self, "string", param(#0), "An edge should contain exactly three elements.")	!empty($1) & !eq($5, 0) & !eq($5, 1) & !eq($5, 2) & $3
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($1) & $3 & eq($5, 1)
do		set(self.current_label, param(#0))	!empty($1) & $3 & eq($5, 1)
ret	{!empty($1) & $3 & eq($5, 1)}	true
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 380
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const double &) | double | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 282
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> | (PDA<std::string, Wu, fut::vector, u64, true> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> | () |  | PAutomaton<std::string, Wu, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 386
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 387
== p::SAXHandlerContextStack::print_value | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &, const std::string &) | std::string | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- same: 288
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 381
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> | (PDA<std::string, Wi, fut::vector, u64, true> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> | () |  | PAutomaton<std::string, Wi, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::SAXHandlerContextStack::describe_context | p::SAXHandlerContextStack<p::SolverInstanceSaxHelper> | (std::basic_ostream<char, std::char_traits<char>> &) const |  | std::basic_ostream<char, std::char_traits<char>> &
-- file: include/pdaaal/utils/SaxHandlerHelpers.h
-- id: 388
let	$1	self._context_stack
let	$2	eq(0, index(top($1)._v))
do		out(`<<`, param(#0), " outside of object")	empty($1)
do		out(`<<`, param(#0), " after key \"")	!empty($1) & $2
do		out(`<<`, param(#0), "<none>")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::none`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))
do		out(`<<`, param(#0), "instance")	!empty($1) & $2 & eq(self.last_key, enum(`pdaaal::parsing::SolverInstanceSaxHelper::keys::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::keys`))
do		out(`<<`, param(#0), "\" in ")	!empty($1) & $2
dom		out(`<<`, param(#0), "<initial>")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::initial`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
dom		out(`<<`, param(#0), "instance array")	!empty($1) & eq(top($1).type, enum(`pdaaal::parsing::SolverInstanceSaxHelper::context_type::instance`, `pdaaal::parsing::SolverInstanceSaxHelper::context_type`))
do		out(`<<`, param(#0), " in ")	!$2 & !empty($1)
do		out(`<<`, param(#0), " at index ")	!$2 & !empty($1)
do		do(`operator<<`, param(#0), get(top($1)._v, `1UL`))	!$2 & !empty($1)
ret	param(#0)	true
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 386
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 387
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 381
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> | () |  | PAutomaton<std::string, weight<std::vector<u32>, void>, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 386
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 387
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 385
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> | () |  | PAutomaton<std::string, weight<std::vector<int>, void>, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 386
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 387
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 385
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, false, true> | (PDA<std::string, W0, fut::vector, std::string, false> &, std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 389
do		set(self._errors, addrof(param(#1)))	true
do		set(self._errored, false)	true
do		set(self.last_key, enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::none`, `pdaaal::parsing::PAutomatonSaxHelper::keys`))	true
do		set(self._context_stack, new(`std::stack`))	true
do		set(self.pda, addrof(param(#0)))	true
do		set(self.automaton, ctor(`pdaaal::PAutomaton`, param(#0), new(`std::vector`), true))	true
do		set(self.extra_state_map, new(`std::unordered_map`))	true
do		set(self.current_label, "")	true
do		set(self.current_from_state, 0)	true
do		set(self.current_to_state, 0)	true
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, false, true> | () |  | PAutomaton<std::string, W0, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 372
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 374
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 390
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::initial`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$3	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::p_automaton`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$4	eq(param(#0), "edges")
let	$5	eq("accepting", param(#0))
let	$6	eq(param(#0), "initial")
let	$7	eq("P-automaton", param(#0))
dom		do(`pdaaal::parsing::SAXHandlerContextStack::error_unexpected_key`, self, param(#0))	!$2 & !$4 & !$5 & !$6 | !$3 & $4 | !$3 & $5 | !$3 & $6 | !$4 & !$5 & !$6 & !$7 | empty($1)
dom		do(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self)	!empty($1) & $2 & $7 | !empty($1) & $3 & $4 | !empty($1) & $3 & $5 | !empty($1) & $3 & $6
ret	{!empty($1) & $2 & $7 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($1) & $3 & $4 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($1) & $3 & $5 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self) | !empty($1) & $3 & $6 & res(`pdaaal::parsing::SAXHandlerContextStack::handle_key`, self)}	true
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 391
let	$1	self._context_stack
let	$2	eq(0, get(top($1)._v, `0UL`)._mask)
do		out(`<<`, self._errors, "error: Unexpected end of object.")	empty($1)
do		do(`operator<<`, self._errors, fnref(`std::endl`))	empty($1)
do		do(`pdaaal::parsing::SAXHandlerContextStack::error_missing_keys`, self)	!$2 & !empty($1)
do		do(`pop`, $1)	!empty($1) & $2
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!empty($1) & $2
do		set(self._errored, true)	!self._errored & empty($1)
ret	{!empty($1) & $2}	true
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 380
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, false, true> | (PDA<std::string, W0, fut::vector, u64, true> &, std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 389
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, false, true> | () |  | PAutomaton<std::string, W0, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== utils::flags::remove | utils::flags<1> | (unsigned char &, unsigned char) |  | void
-- file: include/pdaaal/utils/flags.h
-- same: 0
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 386
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 387
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 390
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 391
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 380
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, false, true> | (PDA<std::string, Wu, fut::vector, std::string, false> &, std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 389
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, false, true> | () |  | PAutomaton<std::string, Wu, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 372
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 374
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 390
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 391
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 381
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, false, true> | (PDA<std::string, Wu, fut::vector, u64, true> &, std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 389
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, false, true> | () |  | PAutomaton<std::string, Wu, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 386
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 387
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 390
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 391
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 381
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, false, true> | (PDA<std::string, Wi, fut::vector, std::string, false> &, std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 389
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, false, true> | () |  | PAutomaton<std::string, Wi, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 372
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 374
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 390
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 391
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 381
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, false, true> | (PDA<std::string, Wi, fut::vector, u64, true> &, std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 389
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, false, true> | () |  | PAutomaton<std::string, Wi, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 386
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 387
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 390
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 391
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 381
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> | (PDA<std::string, W0, fut::vector, std::string, false> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> | () |  | PAutomaton<std::string, W0, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 372
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 374
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 392
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$3	eq(get(top($1)._v, `1UL`), 3)
let	$4	self.automaton._states[self.current_from_state]^._edges
let	$5	self.current_to_state
let	$6	18446744073709551615
let	$7	pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $6, _state: $6}
let	$8	self.current_label
do		out(`<<`, self._errors, "error: Unexpected end of array.")	empty($1)
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	!$3 & $2 | empty($1)
do		out(`<<`, self._errors, "error: An edge should contain exactly three elements.")	!$3 & !empty($1) & $2
do		do(`insert`, $4, $5, 4294967295, $7)	!empty($1) & $2 & $3 & empty($8)
do		do(`pdaaal::PDA::insert_label`, self.pda, $8)	!empty($1) & !empty($8) & $2 & $3
do		do(`insert`, $4, $5, res(`pdaaal::PDA::insert_label`, self.pda, $8), $7)	!empty($1) & !empty($8) & $2 & $3
do		do(`pop`, $1)	!$2 & !empty($1) | !empty($1) & $3
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$2 & !empty($1) | !empty($1) & $3
do		set(self._errored, true)	!$3 & !self._errored & $2 | !self._errored & empty($1)
ret	{!$2 & !empty($1) | !empty($1) & $3}	true
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> | (PDA<std::string, Wu, fut::vector, std::string, false> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> | () |  | PAutomaton<std::string, Wu, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 372
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 374
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 393
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$3	eq(get(top($1)._v, `1UL`), 3)
let	$4	self.automaton._states[self.current_from_state]^._edges
let	$5	self.current_to_state
let	$6	18446744073709551615
let	$7	tuple{#0: pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $6, _state: $6}, #1: 0}
let	$8	self.current_label
do		out(`<<`, self._errors, "error: Unexpected end of array.")	empty($1)
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	!$3 & $2 | empty($1)
do		out(`<<`, self._errors, "error: An edge should contain exactly three elements.")	!$3 & !empty($1) & $2
do		do(`insert`, $4, $5, 4294967295, $7)	!empty($1) & $2 & $3 & empty($8)
do		do(`pdaaal::PDA::insert_label`, self.pda, $8)	!empty($1) & !empty($8) & $2 & $3
do		do(`insert`, $4, $5, res(`pdaaal::PDA::insert_label`, self.pda, $8), $7)	!empty($1) & !empty($8) & $2 & $3
do		do(`pop`, $1)	!$2 & !empty($1) | !empty($1) & $3
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$2 & !empty($1) | !empty($1) & $3
do		set(self._errored, true)	!$3 & !self._errored & $2 | !self._errored & empty($1)
ret	{!$2 & !empty($1) | !empty($1) & $3}	true
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> | (PDA<std::string, Wi, fut::vector, std::string, false> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> | () |  | PAutomaton<std::string, Wi, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 372
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 374
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 393
== utils::flags::select | utils::flags<1> | (unsigned char, unsigned char) |  | unsigned char
-- file: include/pdaaal/utils/flags.h
-- same: 287
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> | () |  | PAutomaton<std::string, weight<std::vector<u32>, void>, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 372
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 374
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 394
let	$1	self._context_stack
let	$2	eq(top($1).type, enum(`pdaaal::parsing::PAutomatonSaxHelper::context_type::edge_context`, `pdaaal::parsing::PAutomatonSaxHelper::context_type`))
let	$3	eq(get(top($1)._v, `1UL`), 3)
let	$4	self.automaton._states[self.current_from_state]^._edges
let	$5	self.current_to_state
let	$6	18446744073709551615
let	$7	tuple{#0: pdaaal::internal::trace_t{_label: 4294967295, _rule_id: $6, _state: $6}, #1: new(`std::vector`)}
let	$8	self.current_label
do		out(`<<`, self._errors, "error: Unexpected end of array.")	empty($1)
dom		do(`operator<<`, self._errors, fnref(`std::endl`))	!$3 & $2 | empty($1)
do		out(`<<`, self._errors, "error: An edge should contain exactly three elements.")	!$3 & !empty($1) & $2
do		do(`insert`, $4, $5, 4294967295, $7)	!empty($1) & $2 & $3 & empty($8)
do		do(`pdaaal::PDA::insert_label`, self.pda, $8)	!empty($1) & !empty($8) & $2 & $3
do		do(`insert`, $4, $5, res(`pdaaal::PDA::insert_label`, self.pda, $8), $7)	!empty($1) & !empty($8) & $2 & $3
do		do(`pop`, $1)	!$2 & !empty($1) | !empty($1) & $3
do		do(`pdaaal::parsing::SAXHandlerContextStack::element_done`, self)	!$2 & !empty($1) | !empty($1) & $3
do		set(self._errored, true)	!$3 & !self._errored & $2 | !self._errored & empty($1)
ret	{!$2 & !empty($1) | !empty($1) & $3}	true
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> | () |  | PAutomaton<std::string, weight<std::vector<int>, void>, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 372
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 374
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 394
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> | (PDA<std::string, W0, fut::vector, u64, true> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> | () |  | PAutomaton<std::string, W0, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 386
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 387
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 392
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> | (PDA<std::string, Wu, fut::vector, u64, true> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> | () |  | PAutomaton<std::string, Wu, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 386
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 387
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 393
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> | (PDA<std::string, Wi, fut::vector, u64, true> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> | () |  | PAutomaton<std::string, Wi, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 386
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 387
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 393
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> | (PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> | () |  | PAutomaton<std::string, weight<std::vector<u32>, void>, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 386
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 387
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 394
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> | (PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true> &, const p::SAXHandlerBase &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 367
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> | () |  | PAutomaton<std::string, weight<std::vector<int>, void>, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 386
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 387
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 377
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 378
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 394
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, false, true> | (PDA<std::string, W0, fut::vector, std::string, false> &, std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 389
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, false, true> | () |  | PAutomaton<std::string, W0, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== utils::flags::contains | utils::flags<1> | (unsigned char, unsigned char) |  | bool
-- file: include/pdaaal/utils/flags.h
-- same: 316
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 372
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 374
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 390
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 391
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 392
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, false, true> | (PDA<std::string, W0, fut::vector, u64, true> &, std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 389
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, false, true> | () |  | PAutomaton<std::string, W0, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 386
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 387
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 390
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 391
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 392
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, false, true> | (PDA<std::string, Wu, fut::vector, std::string, false> &, std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 389
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, false, true> | () |  | PAutomaton<std::string, Wu, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 372
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 374
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 390
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 391
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 393
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, false, true> | (PDA<std::string, Wu, fut::vector, u64, true> &, std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 389
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, false, true> | () |  | PAutomaton<std::string, Wu, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 386
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 387
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 390
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 391
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 393
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, false, true> | (PDA<std::string, Wi, fut::vector, std::string, false> &, std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 389
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, false, true> | () |  | PAutomaton<std::string, Wi, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 372
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 374
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 390
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 391
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 393
== p::PAutomatonSaxHandler::PAutomatonSaxHandler | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, false, true> | (PDA<std::string, Wi, fut::vector, u64, true> &, std::basic_ostream<char, std::char_traits<char>> &) |  | void
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 389
== p::PAutomatonSaxHandler::get_automaton | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, false, true> | () |  | PAutomaton<std::string, Wi, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 368
== p::PAutomatonSaxHandler::null | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 369
== p::PAutomatonSaxHandler::boolean | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, false, true> | (bool) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 370
== p::PAutomatonSaxHandler::number_integer | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, false, true> | (long) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 371
== p::PAutomatonSaxHandler::number_unsigned | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 386
== p::PAutomatonSaxHandler::number_float | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, false, true> | (double, const std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 373
== p::PAutomatonSaxHandler::string | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 387
== p::PAutomatonSaxHandler::binary | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, false, true> | (nlohmann::byte_container_with_subtype<std::vector<unsigned char>> &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 375
== p::PAutomatonSaxHandler::start_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 376
== p::PAutomatonSaxHandler::key | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, false, true> | (std::string &) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 390
== p::PAutomatonSaxHandler::end_object | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 391
== p::PAutomatonSaxHandler::start_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, false, true> | (u64) |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 379
== p::PAutomatonSaxHandler::end_array | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, false, true> | () |  | bool
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 393
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (const std::string &, PDA<std::string, W0, fut::vector, std::string, false> &) | TI::Pair, PDA<std::string, W0, fut::vector, std::string, false> | PAutomaton<std::string, W0, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 395
let	$1	res(`std::basic_ifstream::is_open`, L(#0))
let	$2	enum(`nlohmann::detail::input_format_t::json`, `nlohmann::detail::input_format_t`)
do		do(`is_open`, L(#0))	true
do		out(`<<`, L(#1), "Could not open P-automaton file: ")	!$1
do		out(`<<`, L(#1), param(#0))	!$1
do		do(`operator<<`, L(#1), fnref(`std::endl`))	!$1
do		throw(`std::runtime_error`)	!$1
do		do(`pdaaal::parsing::PAutomatonJsonParser::parse`, L(#0)', param(#1), $2)	$1
dom		init(L(#0), ctor(`std::basic_ifstream`, param(#0), enum(`std::_S_in`, `std::_Ios_Openmode`)))	true
dom		init(L(#1), new(`std::basic_stringstream`))	true
ret	res(`pdaaal::parsing::PAutomatonJsonParser::parse`, L(#0)', param(#1), $2)	true
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (const std::string &, PDA<std::string, W0, fut::vector, u64, true> &) | TI::Pair, PDA<std::string, W0, fut::vector, u64, true> | PAutomaton<std::string, W0, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 395
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (const std::string &, PDA<std::string, Wu, fut::vector, std::string, false> &) | TI::Pair, PDA<std::string, Wu, fut::vector, std::string, false> | PAutomaton<std::string, Wu, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 395
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (const std::string &, PDA<std::string, Wu, fut::vector, u64, true> &) | TI::Pair, PDA<std::string, Wu, fut::vector, u64, true> | PAutomaton<std::string, Wu, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 395
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (const std::string &, PDA<std::string, Wi, fut::vector, std::string, false> &) | TI::Pair, PDA<std::string, Wi, fut::vector, std::string, false> | PAutomaton<std::string, Wi, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 395
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (const std::string &, PDA<std::string, Wi, fut::vector, u64, true> &) | TI::Pair, PDA<std::string, Wi, fut::vector, u64, true> | PAutomaton<std::string, Wi, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 395
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (const std::string &, PDA<std::string, W0, fut::vector, std::string, false> &) | TI::Single, PDA<std::string, W0, fut::vector, std::string, false> | PAutomaton<std::string, W0, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 395
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (const std::string &, PDA<std::string, W0, fut::vector, u64, true> &) | TI::Single, PDA<std::string, W0, fut::vector, u64, true> | PAutomaton<std::string, W0, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 395
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (const std::string &, PDA<std::string, Wu, fut::vector, std::string, false> &) | TI::Single, PDA<std::string, Wu, fut::vector, std::string, false> | PAutomaton<std::string, Wu, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 395
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (const std::string &, PDA<std::string, Wu, fut::vector, u64, true> &) | TI::Single, PDA<std::string, Wu, fut::vector, u64, true> | PAutomaton<std::string, Wu, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 395
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (const std::string &, PDA<std::string, Wi, fut::vector, std::string, false> &) | TI::Single, PDA<std::string, Wi, fut::vector, std::string, false> | PAutomaton<std::string, Wi, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 395
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (const std::string &, PDA<std::string, Wi, fut::vector, u64, true> &) | TI::Single, PDA<std::string, Wi, fut::vector, u64, true> | PAutomaton<std::string, Wi, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 395
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (std::basic_istream<char, std::char_traits<char>> &, PDA<std::string, W0, fut::vector, std::string, false> &, nlohmann::detail::input_format_t) | TI::Pair, PDA<std::string, W0, fut::vector, std::string, false> | PAutomaton<std::string, W0, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- id: 396
let	$1	call(`nlohmann::basic_json::sax_parse`, param(#0), addr(L(#0)), param(#2), true, false)
do		do(`nlohmann::basic_json::sax_parse`, param(#0), addr(L(#0)), param(#2), true, false)	true
do		throw(`std::runtime_error`)	!$1
do		do(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, L(#0))	$1
dom		init(L(#0), pdaaal::parsing::PAutomatonSaxHandler{_context_stack: new(`std::stack`), _errored: false, _errors: addrof(new(`std::basic_stringstream`)), automaton: ctor(`pdaaal::PAutomaton`, param(#1), new(`std::vector`), true), current_from_state: 0, current_label: "", current_to_state: 0, extra_state_map: new(`std::unordered_map`), last_key: enum(`pdaaal::parsing::PAutomatonSaxHelper::keys::none`, `pdaaal::parsing::PAutomatonSaxHelper::keys`), pda: addrof(param(#1))})	true
ret	res(`pdaaal::parsing::PAutomatonSaxHandler::get_automaton`, L(#0))	true
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (std::basic_istream<char, std::char_traits<char>> &, PDA<std::string, W0, fut::vector, u64, true> &, nlohmann::detail::input_format_t) | TI::Pair, PDA<std::string, W0, fut::vector, u64, true> | PAutomaton<std::string, W0, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 396
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (std::basic_istream<char, std::char_traits<char>> &, PDA<std::string, Wu, fut::vector, std::string, false> &, nlohmann::detail::input_format_t) | TI::Pair, PDA<std::string, Wu, fut::vector, std::string, false> | PAutomaton<std::string, Wu, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 396
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (std::basic_istream<char, std::char_traits<char>> &, PDA<std::string, Wu, fut::vector, u64, true> &, nlohmann::detail::input_format_t) | TI::Pair, PDA<std::string, Wu, fut::vector, u64, true> | PAutomaton<std::string, Wu, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 396
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (std::basic_istream<char, std::char_traits<char>> &, PDA<std::string, Wi, fut::vector, std::string, false> &, nlohmann::detail::input_format_t) | TI::Pair, PDA<std::string, Wi, fut::vector, std::string, false> | PAutomaton<std::string, Wi, std::string, false, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 396
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (std::basic_istream<char, std::char_traits<char>> &, PDA<std::string, Wi, fut::vector, u64, true> &, nlohmann::detail::input_format_t) | TI::Pair, PDA<std::string, Wi, fut::vector, u64, true> | PAutomaton<std::string, Wi, u64, true, TI::Pair>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 396
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (std::basic_istream<char, std::char_traits<char>> &, PDA<std::string, W0, fut::vector, std::string, false> &, nlohmann::detail::input_format_t) | TI::Single, PDA<std::string, W0, fut::vector, std::string, false> | PAutomaton<std::string, W0, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 396
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (std::basic_istream<char, std::char_traits<char>> &, PDA<std::string, W0, fut::vector, u64, true> &, nlohmann::detail::input_format_t) | TI::Single, PDA<std::string, W0, fut::vector, u64, true> | PAutomaton<std::string, W0, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 396
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (std::basic_istream<char, std::char_traits<char>> &, PDA<std::string, Wu, fut::vector, std::string, false> &, nlohmann::detail::input_format_t) | TI::Single, PDA<std::string, Wu, fut::vector, std::string, false> | PAutomaton<std::string, Wu, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 396
== utils::flags::is_single_flag | utils::flags<1> | (unsigned char) |  | bool
-- file: include/pdaaal/utils/flags.h
-- same: 1
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (std::basic_istream<char, std::char_traits<char>> &, PDA<std::string, Wu, fut::vector, u64, true> &, nlohmann::detail::input_format_t) | TI::Single, PDA<std::string, Wu, fut::vector, u64, true> | PAutomaton<std::string, Wu, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 396
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (std::basic_istream<char, std::char_traits<char>> &, PDA<std::string, Wi, fut::vector, std::string, false> &, nlohmann::detail::input_format_t) | TI::Single, PDA<std::string, Wi, fut::vector, std::string, false> | PAutomaton<std::string, Wi, std::string, false, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 396
== p::PAutomatonJsonParser::parse | p::PAutomatonJsonParser | (std::basic_istream<char, std::char_traits<char>> &, PDA<std::string, Wi, fut::vector, u64, true> &, nlohmann::detail::input_format_t) | TI::Single, PDA<std::string, Wi, fut::vector, u64, true> | PAutomaton<std::string, Wi, u64, true, TI::Single>
-- file: pdaaal-bin/parsing/PAutomatonJsonParser.h
-- same: 396
== p::SAXHandlerDispatch::SAXHandlerDispatch | p::SAXHandlerDispatch | (p::SolverInstanceSaxHandler<TI::Pair> &, lambda &&) | p::SolverInstanceSaxHandler<TI::Pair>, lambda | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 397
let	$1	new(`std::function`)
do		do(`pdaaal::parsing::SAXHandlerDispatch::set_dispatch`, self, param(#0))	true
do		set(self._callback, param(#1))	true
do		set(self._dispatch_null, $1)	true
do		set(self._dispatch_boolean, $1)	true
do		set(self._dispatch_number_integer, $1)	true
do		set(self._dispatch_number_unsigned, $1)	true
do		set(self._dispatch_number_float, $1)	true
do		set(self._dispatch_string, $1)	true
do		set(self._dispatch_binary, $1)	true
do		set(self._dispatch_key, $1)	true
do		set(self._dispatch_start_object, $1)	true
do		set(self._dispatch_end_object, $1)	true
do		set(self._dispatch_start_array, $1)	true
do		set(self._dispatch_end_array, $1)	true
do		set(self._dispatch_is_errored, $1)	true
do		set(self._dispatch_parse_error, $1)	true
== p::SAXHandlerDispatch::SAXHandlerDispatch | p::SAXHandlerDispatch | (p::SolverInstanceSaxHandler<TI::Single> &, lambda &&) | p::SolverInstanceSaxHandler<TI::Single>, lambda | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 397
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PdaTypeSaxHandler &) | p::PdaTypeSaxHandler | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 398
do		set(self._dispatch_null, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::PdaTypeSaxHandler::null`, param(#0)))]))	true
do		set(self._dispatch_boolean, fun({!lp(#0, #0) & res(`pdaaal::parsing::PdaTypeSaxHandler::boolean`, param(#0), false) | lp(#0, #0) & res(`pdaaal::parsing::PdaTypeSaxHandler::boolean`, param(#0), true)}, [eff(ctx([]), {!lp(#0, #0)}, do(`pdaaal::parsing::PdaTypeSaxHandler::boolean`, param(#0), false)), eff(ctx([]), lp(#0, #0), do(`pdaaal::parsing::PdaTypeSaxHandler::boolean`, param(#0), true))]))	true
do		set(self._dispatch_number_integer, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::PdaTypeSaxHandler::number_integer`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_number_unsigned, fun(res(`pdaaal::parsing::PdaTypeSaxHandler::number_unsigned`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaTypeSaxHandler::number_unsigned`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_number_float, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::PdaTypeSaxHandler::number_float`, param(#0), lp(#0, #0), lp(#0, #1)))]))	true
do		set(self._dispatch_string, fun(res(`pdaaal::parsing::PdaTypeSaxHandler::string`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaTypeSaxHandler::string`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_binary, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::PdaTypeSaxHandler::binary`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_key, fun(res(`pdaaal::parsing::PdaTypeSaxHandler::key`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaTypeSaxHandler::key`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_start_object, fun(res(`pdaaal::parsing::PdaTypeSaxHandler::start_object`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaTypeSaxHandler::start_object`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_end_object, fun(res(`pdaaal::parsing::PdaTypeSaxHandler::end_object`, param(#0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaTypeSaxHandler::end_object`, param(#0)))]))	true
do		set(self._dispatch_start_array, fun(res(`pdaaal::parsing::PdaTypeSaxHandler::start_array`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaTypeSaxHandler::start_array`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_end_array, fun(res(`pdaaal::parsing::PdaTypeSaxHandler::end_array`, param(#0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaTypeSaxHandler::end_array`, param(#0)))]))	true
do		set(self._dispatch_parse_error, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::SAXHandlerBase::parse_error`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2)))]))	true
do		set(self._dispatch_is_errored, fun(call(`pdaaal::parsing::SAXHandlerBase::is_errored`, param(#0)), []))	true
== utils::flags::contains | utils::flags<3> | (unsigned char, unsigned char) |  | bool
-- file: include/pdaaal/utils/flags.h
-- same: 316
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PdaSaxHandler<W0, true, true> &) | p::PdaSaxHandler<W0, true, true> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 399
do		set(self._dispatch_null, fun(res(`pdaaal::parsing::PdaSaxHandler::null`, param(#0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaSaxHandler::null`, param(#0)))]))	true
do		set(self._dispatch_boolean, fun({!lp(#0, #0) & res(`pdaaal::parsing::PdaSaxHandler::boolean`, param(#0), false) | lp(#0, #0) & res(`pdaaal::parsing::PdaSaxHandler::boolean`, param(#0), true)}, [eff(ctx([]), lp(#0, #0), do(`pdaaal::parsing::PdaSaxHandler::boolean`, param(#0), true)), eff(ctx([]), {!lp(#0, #0)}, do(`pdaaal::parsing::PdaSaxHandler::boolean`, param(#0), false))]))	true
do		set(self._dispatch_number_integer, fun(res(`pdaaal::parsing::PdaSaxHandler::number_integer`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaSaxHandler::number_integer`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_number_unsigned, fun(res(`pdaaal::parsing::PdaSaxHandler::number_unsigned`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaSaxHandler::number_unsigned`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_number_float, fun(res(`pdaaal::parsing::PdaSaxHandler::number_float`, param(#0), lp(#0, #0), lp(#0, #1)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaSaxHandler::number_float`, param(#0), lp(#0, #0), lp(#0, #1)))]))	true
do		set(self._dispatch_string, fun(res(`pdaaal::parsing::PdaSaxHandler::string`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaSaxHandler::string`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_binary, fun(res(`pdaaal::parsing::PdaSaxHandler::binary`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaSaxHandler::binary`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_key, fun(res(`pdaaal::parsing::PdaSaxHandler::key`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaSaxHandler::key`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_start_object, fun(res(`pdaaal::parsing::PdaSaxHandler::start_object`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaSaxHandler::start_object`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_end_object, fun(res(`pdaaal::parsing::PdaSaxHandler::end_object`, param(#0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaSaxHandler::end_object`, param(#0)))]))	true
do		set(self._dispatch_start_array, fun(res(`pdaaal::parsing::PdaSaxHandler::start_array`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaSaxHandler::start_array`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_end_array, fun(res(`pdaaal::parsing::PdaSaxHandler::end_array`, param(#0)), [eff(ctx([]), true, do(`pdaaal::parsing::PdaSaxHandler::end_array`, param(#0)))]))	true
do		set(self._dispatch_parse_error, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::SAXHandlerBase::parse_error`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2)))]))	true
do		set(self._dispatch_is_errored, fun(call(`pdaaal::parsing::SAXHandlerBase::is_errored`, param(#0)), []))	true
== utils::flags::flag | utils::flags<1> | () | 1UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- same: 22
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PdaSaxHandler<Wu, true, true> &) | p::PdaSaxHandler<Wu, true, true> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 399
== utils::flags::flag | utils::flags<1> | () | 0UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- same: 38
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PdaSaxHandler<Wi, true, true> &) | p::PdaSaxHandler<Wi, true, true> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 399
== utils::flags::fill | utils::flags<1> | () | 1UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- same: 133
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> &) | p::PdaSaxHandler<weight<std::vector<u32>, void>, true, true> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 399
== utils::flags::fill | utils::flags<1> | () | 0UL | unsigned char
-- file: include/pdaaal/utils/flags.h
-- same: 100
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> &) | p::PdaSaxHandler<weight<std::vector<int>, void>, true, true> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 399
== utils::flags::split_to_single_flags | utils::flags<1> | (unsigned char) |  | std::vector<unsigned char>
-- file: include/pdaaal/utils/flags.h
-- id: 400
let	$1	cast(#8, opshl(1, range(0, 1)@0))
do	foreach(range(0, 1))	do(`push`, L(#0), $1)	eq(band(param(#0), $1), $1)
dom		init(L(#0), new(`std::vector`))	true
ret	L(#0)'	true
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PdaSaxHandler<W0, false, true> &) | p::PdaSaxHandler<W0, false, true> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 399
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PdaSaxHandler<Wu, false, true> &) | p::PdaSaxHandler<Wu, false, true> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 399
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PdaSaxHandler<Wi, false, true> &) | p::PdaSaxHandler<Wi, false, true> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 399
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> &) | p::PdaSaxHandler<weight<std::vector<u32>, void>, false, true> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 399
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> &) | p::PdaSaxHandler<weight<std::vector<int>, void>, false, true> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 399
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Pair, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- id: 401
do		set(self._dispatch_null, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::null`, param(#0)))]))	true
do		set(self._dispatch_boolean, fun(false, [eff(ctx([]), {!lp(#0, #0)}, do(`pdaaal::parsing::PAutomatonSaxHandler::boolean`, param(#0), false)), eff(ctx([]), lp(#0, #0), do(`pdaaal::parsing::PAutomatonSaxHandler::boolean`, param(#0), true))]))	true
do		set(self._dispatch_number_integer, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::number_integer`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_number_unsigned, fun(res(`pdaaal::parsing::PAutomatonSaxHandler::number_unsigned`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::number_unsigned`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_number_float, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::number_float`, param(#0), lp(#0, #0), lp(#0, #1)))]))	true
do		set(self._dispatch_string, fun(res(`pdaaal::parsing::PAutomatonSaxHandler::string`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::string`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_binary, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::binary`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_key, fun(res(`pdaaal::parsing::PAutomatonSaxHandler::key`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::key`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_start_object, fun(res(`pdaaal::parsing::PAutomatonSaxHandler::start_object`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::start_object`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_end_object, fun(res(`pdaaal::parsing::PAutomatonSaxHandler::end_object`, param(#0)), [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::end_object`, param(#0)))]))	true
do		set(self._dispatch_start_array, fun(res(`pdaaal::parsing::PAutomatonSaxHandler::start_array`, param(#0), lp(#0, #0)), [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::start_array`, param(#0), lp(#0, #0)))]))	true
do		set(self._dispatch_end_array, fun(res(`pdaaal::parsing::PAutomatonSaxHandler::end_array`, param(#0)), [eff(ctx([]), true, do(`pdaaal::parsing::PAutomatonSaxHandler::end_array`, param(#0)))]))	true
do		set(self._dispatch_parse_error, fun(false, [eff(ctx([]), true, do(`pdaaal::parsing::SAXHandlerBase::parse_error`, param(#0), lp(#0, #0), lp(#0, #1), lp(#0, #2)))]))	true
do		set(self._dispatch_is_errored, fun(call(`pdaaal::parsing::SAXHandlerBase::is_errored`, param(#0)), []))	true
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Pair, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Pair, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Pair, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Pair, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Pair, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== utils::flag_mask::flag_mask | utils::flag_mask<3> | (unsigned char) |  | void
-- file: include/pdaaal/utils/flags.h
-- same: 16
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Pair, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Pair, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Pair, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== utils::flag_mask::got_flag | utils::flag_mask<3> | (unsigned char) |  | void
-- file: include/pdaaal/utils/flags.h
-- same: 17
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::SolverInstanceSaxHandler<TI::Pair> &) | p::SolverInstanceSaxHandler<TI::Pair> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 2
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, std::string, false>, TI::Single, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== utils::flag_mask::needs_flag | utils::flag_mask<3> | (unsigned char) const |  | bool
-- file: include/pdaaal/utils/flags.h
-- same: 18
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, std::string, false>, TI::Single, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, std::string, false>, TI::Single, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== utils::flag_mask::has_missing_flags | utils::flag_mask<3> | () const |  | bool
-- file: include/pdaaal/utils/flags.h
-- same: 19
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, std::string, false>, TI::Single, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== utils::flag_mask::get_missing_flags | utils::flag_mask<3> | () const |  | std::vector<unsigned char>
-- file: include/pdaaal/utils/flags.h
-- same: 20
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, std::string, false>, TI::Single, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, W0, fut::vector, u64, true>, TI::Single, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, Wu, fut::vector, u64, true>, TI::Single, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, Wi, fut::vector, u64, true>, TI::Single, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<u32>, void>, fut::vector, u64, true>, TI::Single, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
== p::SAXHandlerDispatch::set_dispatch | p::SAXHandlerDispatch | (p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> &) | p::PAutomatonSaxHandler<PDA<std::string, weight<std::vector<int>, void>, fut::vector, u64, true>, TI::Single, true, false> | void
-- file: pdaaal-bin/parsing/SaxHandlerDispatch.h
-- same: 401
