// Instantiates the library templates so that the analyses see resolved code. Never compiled to a binary or run.
#include <pdaaal/Solver.h>
#include <pdaaal/PDAFactory.h>
#include <pdaaal/internal/Reducer.h>
#include <pdaaal/internal/PdaSaturation.h>
#include <pdaaal/internal/PAutomatonAlgorithms.h>
#include <pdaaal/utils/more_algorithms.h>
#include <pdaaal/utils/vector_printer.h>
#include <pdaaal/utils/flags.h>
#include <pdaaal/utils/ptrie_interface.h>
using namespace pdaaal;
using Wv = weight<void>; using Wu = weight<uint32_t>; using Wi = weight<int32_t>;
using Wvu = weight<std::vector<uint32_t>>; using Wvi = weight<std::vector<int32_t>>; using Wau = weight<std::array<uint32_t,3>>;
// value types
template struct pdaaal::details::weight_impl<uint32_t,false>; template struct pdaaal::details::weight_impl<uint32_t,true>;
template struct pdaaal::details::weight_impl<int32_t,false>; template struct pdaaal::details::weight_impl<int32_t,true>;
template struct pdaaal::details::weight_impl<std::array<uint32_t,3>,false>; template struct pdaaal::details::weight_impl<std::array<int32_t,3>,true>;
template struct pdaaal::details::weight_impl<std::vector<uint32_t>,false>; template struct pdaaal::details::weight_impl<std::vector<uint32_t>,true>;
template struct pdaaal::details::weight_impl<std::vector<int32_t>,false>; template struct pdaaal::details::weight_impl<std::vector<int32_t>,true>;
template class pdaaal::linear_weight_function<uint32_t,int>; template class pdaaal::linear_weight_function<double,int>;
template class pdaaal::ordered_weight_function<uint32_t,int>;
// containers
template struct pdaaal::fut::vector_map<uint32_t,int>; template struct pdaaal::fut::vector_set<uint32_t>;
template struct pdaaal::fut::vector_map<size_t,std::string>;
template class pdaaal::fut::detail::fut_set<std::tuple<uint32_t,int>, fut::type::vector>;
template class pdaaal::fut::detail::fut_set<std::tuple<uint32_t,uint32_t,int>, fut::type::hash, fut::type::vector>;
template class pdaaal::fut::detail::fut_set<std::tuple<uint32_t,uint32_t>, fut::type::hash, fut::type::vector>;
template class pdaaal::fut::detail::fut_set<std::tuple<uint32_t,uint32_t>, fut::type::vector, fut::type::vector>;
template class pdaaal::priority_set<uint32_t,size_t>;
template class pdaaal::priority_set<uint32_t,size_t,CompSwapArgs<uint32_t>>;
void use_containers() {
    fut::vector_map<uint32_t,int> m; uint32_t k = 1; m.emplace(k, 2); m.emplace(uint32_t(3), 4); m.try_emplace(k, 2); m.try_emplace(uint32_t(1), 2); m.insert_or_assign(k, 2); m.insert_or_assign(uint32_t(1), 2);
    std::unordered_map<uint32_t,int> um; fut::vector_map<uint32_t,int> m2(um), m3(std::move(um));
    fut::vector_set<uint32_t> s; s.emplace(k); s.emplace(uint32_t(2)); std::unordered_set<uint32_t> us; fut::vector_set<uint32_t> s2(us), s3(std::move(us));
    fut::set<std::tuple<uint32_t,uint32_t,int>, fut::type::hash, fut::type::vector> f; f.emplace(k, k, 3); f.emplace(uint32_t(2), k, 3); f.insert_or_assign(k, k, 3); f.insert_or_assign(uint32_t(2), k, 3); f.contains(k, k); f.get(k, k); std::as_const(f).get(k, k);
    fut::set<std::tuple<uint32_t,uint32_t>, fut::type::hash, fut::type::hash> fh; fh.emplace(k, k); fh.contains(k, k);
    fut::set<std::tuple<uint32_t,int>, fut::type::hash> h; fut::set<std::tuple<uint32_t,int>, fut::type::vector> v(h), v2(std::move(h));
    std::vector<uint32_t> a, b; is_disjoint(a, b); is_disjoint(a, b, std::less<uint32_t>());
    priority_set<uint32_t,size_t> ps; ps.emplace(k, size_t(1)); ps.emplace(uint32_t(1), size_t(1));
}
// constants of the weight domains, composed so that their lambdas are looked through
namespace verif {
    template<class W> struct consts {
        static typename W::type zero() { return W::zero(); }
        static typename W::type bottom() { return W::bottom(); }
        static typename W::type max() { return W::max(); }
        static std::ostream& print(std::ostream& s, const typename W::type& w) { return W::print(s, w); }
    };
    template struct consts<min_weight<uint32_t>>; template struct consts<max_weight<uint32_t>>; template struct consts<min_weight<int32_t>>; template struct consts<max_weight<int32_t>>;
    template struct consts<min_weight<std::array<uint32_t,3>>>; template struct consts<max_weight<std::array<int32_t,3>>>;
    template struct consts<min_weight<std::vector<uint32_t>>>; template struct consts<max_weight<std::vector<uint32_t>>>; template struct consts<min_weight<std::vector<int32_t>>>; template struct consts<max_weight<std::vector<int32_t>>>;
}
// paths
template class pdaaal::AutomatonPath<false>; template class pdaaal::AutomatonPath<true>;
void use_paths() { AutomatonPath<false> p; AutomatonPath<true> q; (void)p.get_path_and_stack(); (void)q.get_path_and_stack(); (void)q.split(); (void)(p == p); (void)(p != p); (void)(q == q); }
// structured trie keys
using K1 = std::tuple<uint32_t,std::vector<uint32_t>>; using K2 = std::tuple<std::vector<uint16_t>,uint64_t,std::vector<std::tuple<uint32_t,uint32_t>>>; using K3 = std::variant<uint32_t,std::vector<uint32_t>>; using K4 = std::tuple<K3,uint32_t>;
template class pdaaal::utils::ptrie_set<uint32_t>; template class pdaaal::utils::ptrie_set<std::string>; template class pdaaal::utils::ptrie_set<std::vector<uint32_t>>;
template class pdaaal::utils::ptrie_set<K1>; template class pdaaal::utils::ptrie_set<K2>; template class pdaaal::utils::ptrie_map<K4,int>; template class pdaaal::utils::ptrie_map<std::string,int>;
template struct pdaaal::utils::fixed_byte_size<std::tuple<uint32_t,uint64_t>>; template struct pdaaal::utils::byte_vector_converter<K1>; template struct pdaaal::utils::byte_vector_converter<K2>; template struct pdaaal::utils::byte_vector_converter<K3>; template struct pdaaal::utils::byte_vector_converter<std::variant<uint32_t>>;
template struct pdaaal::utils::byte_vector_converter<uint32_t>; template struct pdaaal::utils::byte_vector_converter<std::vector<uint16_t>>; template struct pdaaal::utils::byte_vector_converter<std::vector<std::tuple<uint32_t,uint32_t>>>;
template struct pdaaal::utils::ptrie_access_iterator<utils::ptrie_set<uint32_t>>;
