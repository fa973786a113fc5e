// Instantiates the typed front ends, the product and the solver so that the analyses see resolved code. Never run.
#include <pdaaal/Solver.h>
#include <pdaaal/PDAFactory.h>
#include <pdaaal/internal/Reducer.h>
using namespace pdaaal;
using Wv = weight<void>; using Wu = weight<uint32_t>; using Wi = weight<int32_t>; using Wvi = weight<std::vector<int32_t>>; using Wau = weight<std::array<uint32_t,3>>;
template<typename W> using P = PDA<char,W>;
template<typename W, TraceInfoType ti = TraceInfoType::Single> using I = PAutomatonProduct<P<W>, PAutomaton<char,W,size_t,true,ti>, W, ti>;
template<typename W> void use_products(I<W>& i, P<W>& pda, std::vector<uint32_t> st, std::vector<char> stc) {
    Solver::pre_star_accepts<Trace_Type::Any>(i); Solver::pre_star_accepts<Trace_Type::None>(i); Solver::post_star_accepts<Trace_Type::Any>(i); Solver::post_star_accepts<Trace_Type::None>(i); Solver::dual_search_accepts<Trace_Type::Any>(i);
    Solver::get_trace<Trace_Type::Any>(i); Solver::get_trace_dual_search<Trace_Type::Any>(i);
    Solver::get_trace(pda, i.automaton(), 0, st); Solver::get_trace(pda, i.automaton(), 0, stc);
    Solver::post_star_accepts_no_ET<Trace_Type::Any>(i);
    NFA<char> n; std::vector<size_t> s; I<W> j(pda, n, s, n, s);
    if constexpr (W::is_weight) { Solver::pre_star_accepts<Trace_Type::Shortest>(i); Solver::post_star_accepts<Trace_Type::Shortest>(i); Solver::dual_search_accepts<Trace_Type::Shortest>(i); Solver::get_trace<Trace_Type::Shortest>(i); Solver::get_trace_dual_search<Trace_Type::Shortest>(i); Solver::get_trace<Trace_Type::Shortest>(pda, i.automaton(), 0, st); Solver::get_rule_trace_and_paths<Trace_Type::Shortest>(i); Solver::post_star_accepts_no_ET<Trace_Type::Shortest>(i); }
    Solver::get_rule_trace_and_paths<Trace_Type::Any>(i); Solver::get_rule_trace_and_paths<Trace_Type::Any,true>(i); Solver::pre_star_accepts_no_ET(i);
    Solver::pre_star_accepts<Trace_Type::Any>(i.automaton(), 0, st); Solver::pre_star<Trace_Type::Any>(i.automaton()); Solver::post_star<Trace_Type::Any>(i.automaton());
    if constexpr (W::is_weight) { Solver::pre_star_accepts<Trace_Type::Shortest>(i.automaton(), 0, st); Solver::pre_star<Trace_Type::Shortest>(i.automaton()); Solver::post_star<Trace_Type::Shortest>(i.automaton()); }
}
template<typename W> void use_fp(I<W,TraceInfoType::Pair>& i, I<W,TraceInfoType::Pair>& j) {
    Solver::pre_star_fixed_point_accepts<Trace_Type::Longest>(i); Solver::post_star_fixed_point_accepts<Trace_Type::Longest>(i); Solver::interleaving_fixed_point_accepts<Trace_Type::Longest>(i, j); Solver::get_trace<Trace_Type::Longest>(i);
    Solver::pre_star_fixed_point_accepts<Trace_Type::ShortestFixedPoint>(i); Solver::post_star_fixed_point_accepts<Trace_Type::ShortestFixedPoint>(i); Solver::interleaving_fixed_point_accepts<Trace_Type::ShortestFixedPoint>(i, j); Solver::get_trace<Trace_Type::ShortestFixedPoint>(i);
    auto c = i.copy();
}
template void use_products<Wv>(I<Wv>&, P<Wv>&, std::vector<uint32_t>, std::vector<char>); template void use_products<Wu>(I<Wu>&, P<Wu>&, std::vector<uint32_t>, std::vector<char>);
template void use_fp<Wu>(I<Wu,TraceInfoType::Pair>&, I<Wu,TraceInfoType::Pair>&); template void use_fp<Wi>(I<Wi,TraceInfoType::Pair>&, I<Wi,TraceInfoType::Pair>&);
template<typename PD, typename W, typename L> void use_rules(PD& h, L l) {
    typename PD::rule_t r{}; const auto& cr = r; h.add_rule(cr); h.add_wildcard_rule(r); h.exists_label(l); h.insert_label(l); h.insert_state({}); h.exists_state({}); h.number_of_labels(); h.all_rules();
    if constexpr (W::is_weight) { h.add_rule(0,1,POP,l,false,std::vector<L>{},3u); h.add_rule(0,1,POP,l,l,3u); }
    else { h.add_rule(0,1,POP,l,false,std::vector<L>{}); h.add_rule(0,1,POP,l,l); }
}
void use_pda(PDA<char,Wu,fut::type::hash>& h, PDA<std::string,Wv,fut::type::hash,std::string,false>& hs) {
    use_rules<PDA<char,Wu,fut::type::hash>, Wu, char>(h, 'a'); use_rules<PDA<std::string,Wv,fut::type::hash,std::string,false>, Wv, std::string>(hs, "a");
    PDA<char,Wu,fut::type::vector> v(std::move(h)); PDA<std::string,Wv,fut::type::vector,std::string,false> vs(std::move(hs)); nlohmann::json j; j = v.to_json(); j = vs.to_json();
    PDA<char,Wv> c(std::unordered_set<char>{'a'});
    PDA<char,Wau> pa; PDA<char,Wvi> pv; PDA<char,Wi> pi; PDA<char,Wv> pn; nlohmann::json jj; details::params_weight_type(jj, pa); details::params_weight_type(jj, pv); details::params_weight_type(jj, pi); details::params_weight_type(jj, pn); details::params_weight_type(jj, v); details::params_state_names(jj, v); details::params_state_names(jj, vs);
}
using A1 = PAutomaton<std::string,Wv,std::string,false,TraceInfoType::Single>; using A2 = PAutomaton<char,Wu,size_t,true,TraceInfoType::Single>;
void use_pa(A1& a, A2& b) { nlohmann::json j; j = a.to_json("x"); j = b.to_json("x"); a.to_dot(std::cout); b.to_dot(std::cout); }
using S1 = SolverInstance<std::string,Wv,std::string,false,TraceInfoType::Single>; using S2 = SolverInstance<char,Wu,size_t,true,TraceInfoType::Single>;
template<typename S> void use_si(S& s) { S t(std::move(s)); (void)t.get(); }
template void use_si<S1>(S1&); template void use_si<S2>(S2&);
struct F : DFS_PDAFactory<char> { using DFS_PDAFactory<char>::DFS_PDAFactory; std::vector<size_t> v; const std::vector<size_t>& initial() override { return v; } bool accepting(size_t) override { return true; } std::vector<rule_t> rules(size_t) override { return {}; } };
void use_factory() { F f({'a'}, '*'); NFA<char> n; auto i = f.compile(n, n); internal::PDA<Wv>* p = nullptr; internal::Reducer::reduce(*p, 3, 0, 1); }
// bodies of the non-template parts, for the effects of calls to them
#if __has_include(<pdaaal/internal/PDA.cpp>)
#include <pdaaal/internal/PDA.cpp>
#endif
#if __has_include(<pdaaal/internal/Reducer.cpp>)
#include <pdaaal/internal/Reducer.cpp>
#endif
