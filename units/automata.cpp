// Instantiates automata, saturation and traceback templates so that the analyses see resolved code. Never run.
#include <pdaaal/Solver.h>
#include <pdaaal/internal/PdaSaturation.h>
#include <pdaaal/internal/PAutomatonAlgorithms.h>
using namespace pdaaal;
using Wv = weight<void>; using Wu = weight<uint32_t>; using Wi = weight<int32_t>; using Wvu = weight<std::vector<uint32_t>>;
template class pdaaal::internal::PDA<Wv, fut::type::vector>; template class pdaaal::internal::PDA<Wu, fut::type::vector>;
template class pdaaal::NFA<uint32_t>; template class pdaaal::NFA<std::string>;
template class pdaaal::AutomatonPath<false>; template class pdaaal::AutomatonPath<true>;
template class pdaaal::internal::PreStarSaturation<Wv,true,false>; template class pdaaal::internal::PreStarSaturation<Wv,false,false>;
template class pdaaal::internal::PreStarSaturation<Wu,true,false>; template class pdaaal::internal::PreStarSaturation<Wu,true,true>;
template class pdaaal::internal::PostStarSaturation<Wv,true>; template class pdaaal::internal::PostStarSaturation<Wv,false>; template class pdaaal::internal::PostStarSaturation<Wu,true>;
template class pdaaal::internal::PostStarShortestSaturation<Wu,true,true>; template class pdaaal::internal::PostStarShortestSaturation<Wi,true,true>;
template class pdaaal::internal::PreStarFixedPointSaturation<Wu,Trace_Type::Longest>; template class pdaaal::internal::PreStarFixedPointSaturation<Wi,Trace_Type::ShortestFixedPoint>;
template class pdaaal::internal::PostStarFixedPointSaturation<Wu,Trace_Type::Longest>; template class pdaaal::internal::PostStarFixedPointSaturation<Wi,Trace_Type::ShortestFixedPoint>;
template class pdaaal::internal::PAutomatonFixedPoint<Wu,Trace_Type::Longest>; template class pdaaal::internal::PAutomatonFixedPoint<Wi,Trace_Type::ShortestFixedPoint>;
void use_internal(internal::PDA<Wu>& p, internal::PAutomaton<Wu>& a, internal::PAutomaton<Wv>& av, internal::PAutomaton<Wu,TraceInfoType::Pair>& ap, internal::PAutomaton<Wi,TraceInfoType::Pair>& api, internal::PAutomaton<Wi>& ai) {
    std::vector<uint32_t> st; std::vector<size_t> sts; a.accepts(0, st); (void)a.accept_path<Trace_Type::Any>(0, st); (void)a.accept_path<Trace_Type::Shortest>(0, st); (void)av.accept_path<Trace_Type::Any>(0, st);
    NFA<uint32_t> nfa; internal::PAutomaton<Wv> c1(av.pda(), nfa, sts); internal::PAutomaton<Wu> c2(p, nfa, sts); internal::PAutomaton<Wv> c3(av.pda(), sts, true), c4(av.pda(), 0, st);
    (void)a.find_path(); (void)av.find_path();
    internal::PAutomaton<Wv> vc(av); internal::PAutomaton<Wv> vm(std::move(av)); vc.or_extend(std::move(vm)); internal::PAutomaton<Wu> uc(a); internal::PAutomaton<Wu> um(std::move(a));
    Solver::pre_star<Trace_Type::Any>(av); Solver::pre_star<Trace_Type::Any>(a); Solver::pre_star<Trace_Type::Shortest>(a); Solver::post_star<Trace_Type::Any>(av); Solver::post_star<Trace_Type::Any>(a); Solver::post_star<Trace_Type::Shortest>(a);
    Solver::pre_star_accepts<Trace_Type::Any>(av, 0, st); Solver::pre_star_accepts<Trace_Type::Any>(a, 0, st); Solver::pre_star_accepts<Trace_Type::Shortest>(a, 0, st);
    Solver::pre_star_fixed_point<Trace_Type::Longest>(ap); Solver::post_star_fixed_point<Trace_Type::Longest>(ap); Solver::pre_star_fixed_point<Trace_Type::ShortestFixedPoint>(ap);
    Solver::pre_star_fixed_point<Trace_Type::ShortestFixedPoint>(api); Solver::post_star_fixed_point<Trace_Type::ShortestFixedPoint>(api);
    Solver::post_star<Trace_Type::Shortest>(ai);
    internal::PAutomatonFixedPoint<Wu,Trace_Type::Longest> f1(ap); f1.run(); internal::PAutomatonFixedPoint<Wi,Trace_Type::ShortestFixedPoint> f2(api); f2.run(); (void)f1.get_path(); (void)f2.get_path_with_loop([](size_t s){ return s; });
    internal::TraceBack tb(ap, AutomatonPath<>()); tb.next(); internal::TraceBack tb1(av, AutomatonPath<>()); tb1.next();  internal::TraceBack tb2(a, AutomatonPath<>()); tb2.next();
}
// bodies of the non-template parts, for the effects of calls to them
#if __has_include(<pdaaal/internal/PDA.cpp>)
#include <pdaaal/internal/PDA.cpp>
#endif
#if __has_include(<pdaaal/internal/Reducer.cpp>)
#include <pdaaal/internal/Reducer.cpp>
#endif
