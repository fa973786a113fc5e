// Instantiates the CEGAR templates so that the analyses see resolved code. Never run.
#include <pdaaal/cegar/CegarPdaFactory.h>
#include <pdaaal/Solver.h>
using namespace pdaaal;
using L = std::string; using conf_t = std::pair<size_t, Header<L>>; using range_t = std::vector<conf_t>;
template class pdaaal::RefinementMapping<std::string>; template class pdaaal::AbstractionMapping<std::string,int>;
template class pdaaal::Refinement<int>; template class pdaaal::HeaderRefinement<int>; template struct pdaaal::Header<std::string>;
template class pdaaal::AbstractionPAutomaton<L,weight<void>>;
template class pdaaal::AbstractionSolverInstance<L,weight<void>>;
struct Fac : CegarPdaFactory<L> {
    template<typename F> Fac(const std::unordered_set<L>& l, F&& f) : CegarPdaFactory<L>(l, std::forward<F>(f)) {}
    std::vector<size_t> v; void build_pda() override {} const std::vector<size_t>& initial() override { return v; } const std::vector<size_t>& accepting() override { return v; }
    template<typename T> void refine(T&&) {} auto q(const L& l) { return abstract_label(l).second + number_of_labels(); }
};
struct Rec : CegarPdaReconstruction<L,size_t,range_t,std::vector<conf_t>> {
    using P = CegarPdaReconstruction<L,size_t,range_t,std::vector<conf_t>>; using label_t = L; using concrete_trace_t = std::vector<conf_t>;
    using P::abstract_rule_t; using P::refinement_t; using P::header_t; using P::header_refinement_t;
    template<typename F> Rec(F&, const P::product_t& i, const NFA<L>& a, const NFA<L>& b) : P(i, a, b) {}
    range_t initial_concrete_rules(const abstract_rule_t&) override { return {}; }
    refinement_t find_initial_refinement(const abstract_rule_t& r) override { return r; }
    range_t search_concrete_rules(const abstract_rule_t&, const conf_t&) override { return {}; }
    refinement_t find_refinement(const abstract_rule_t& r, const std::vector<conf_t>&) override { return r; }
    header_t get_header(const conf_t& c) override { return c.second; }
    concrete_trace_t get_concrete_trace(std::vector<conf_t>&& c, std::vector<L>&&, size_t) override { return c; }
    void use(header_t h) { initial_header(); update_header(h, "a", {}, 1); update_header_wildcard_pre(h, {}, 1); pre_labels(h); finalize_header(h); get_concrete_labels(0); get_concrete_labels_range(0); label_maps_to("a", 0); }
};
void use(const std::unordered_set<L>& l, const NFA<L>& n) {
    std::function<int(const L&)> f;
    CEGAR<Fac,Rec> c; c.cegar_solve<false,false>(Fac(l, std::move(f)), n, n); c.cegar_solve<true,false>(Fac(l, std::move(f)), n, n); c.cegar_solve<false,true>(Fac(l, std::move(f)), n, n);
    Fac fac(l, std::move(f)); fac.q("a"); fac.reset_pda(RefinementMapping<L>());
    AbstractionPDA<L,weight<void>> p{RefinementMapping<L>()}; p.encode_labels({}, true); p.refine(Refinement<L>(0)); p.refine(HeaderRefinement<L>());
    make_refinement<refinement_option_t::fast_refinement,int,int>({}, {}, 0, 0); make_refinement<refinement_option_t::best_refinement,int,int>({}, {}, 0, 0);
}
// bodies of the non-template parts, for the effects of calls to them
#if __has_include(<pdaaal/internal/PDA.cpp>)
#include <pdaaal/internal/PDA.cpp>
#endif
#if __has_include(<pdaaal/internal/Reducer.cpp>)
#include <pdaaal/internal/Reducer.cpp>
#endif
