// Stand-in for the (absent) ptrie library: same member signatures as the subset PDAAAL uses.
// Only needed so that the translation unit type-checks; ptrie itself is outside the analysed code.
#ifndef VERIF_STUB_PTRIE_MAP_H
#define VERIF_STUB_PTRIE_MAP_H
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace ptrie {
    using uchar = unsigned char;
    template<typename KEY>
    struct byte_iterator {
        static uchar& access(KEY* data, size_t id) { return ((uchar*)data)[id]; }
        static const uchar& const_access(const KEY* data, size_t id) { return ((const uchar*)data)[id]; }
        static constexpr size_t element_size() { return sizeof(KEY); }
        static constexpr bool continious() { return true; }
    };
    template<typename KEY>
    class set_stable {
    protected:
        std::map<std::string, size_t> _ids;
        std::deque<std::string> _keys;
        static std::string pack(const KEY* d, size_t n) {
            std::string s;
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < byte_iterator<KEY>::element_size(); ++j)
                    s.push_back((char)byte_iterator<KEY>::const_access(d + i, j));
            return s;
        }
        std::pair<bool, size_t> ins(std::string s) {
            auto [it, fresh] = _ids.emplace(std::move(s), _keys.size());
            if (fresh) _keys.push_back(it->first);
            return {fresh, it->second};
        }
        std::pair<bool, size_t> ex(const std::string& s) const {
            auto it = _ids.find(s);
            return it == _ids.end() ? std::pair<bool, size_t>{false, 0} : std::pair<bool, size_t>{true, it->second};
        }
    public:
        set_stable() = default;
        std::pair<bool, size_t> insert(const KEY* d, size_t n) { return ins(pack(d, n)); }
        std::pair<bool, size_t> insert(KEY key) { return ins(pack(&key, 1)); }
        std::pair<bool, size_t> insert(std::pair<const KEY*, size_t> p) { return ins(pack(p.first, p.second)); }
        std::pair<bool, size_t> insert(const std::vector<KEY>& v) { return ins(pack(v.data(), v.size())); }
        std::pair<bool, size_t> exists(const KEY* d, size_t n) const { return ex(pack(d, n)); }
        std::pair<bool, size_t> exists(KEY key) const { return ex(pack(&key, 1)); }
        std::pair<bool, size_t> exists(std::pair<const KEY*, size_t> p) const { return ex(pack(p.first, p.second)); }
        std::pair<bool, size_t> exists(const std::vector<KEY>& v) const { return ex(pack(v.data(), v.size())); }
        template<typename T> bool erase(const T&) { assert(false); return false; }
        size_t unpack(size_t id, KEY* dest) const {
            const auto& s = _keys[id];
            size_t n = s.size() / byte_iterator<KEY>::element_size();
            for (size_t i = 0; i < s.size(); ++i)
                byte_iterator<KEY>::access(dest + i / byte_iterator<KEY>::element_size(), i % byte_iterator<KEY>::element_size()) = (uchar)s[i];
            return n;
        }
        std::vector<KEY> unpack(size_t id) const {
            std::vector<KEY> v(_keys[id].size() / byte_iterator<KEY>::element_size());
            if (!v.empty()) unpack(id, v.data());
            return v;
        }
        size_t size() const { return _keys.size(); }
    };
    template<typename KEY, typename T>
    class map : public set_stable<KEY> {
        std::deque<T> _data;
        using base = set_stable<KEY>;
        std::pair<bool, size_t> grow(std::pair<bool, size_t> r) { if (r.first) _data.emplace_back(); return r; }
    public:
        map() = default;
        template<typename K> std::pair<bool, size_t> insert(const K& k) { return grow(base::insert(k)); }
        T& get_data(size_t id) { return _data[id]; }
        const T& get_data(size_t id) const { return _data[id]; }
        template<typename K> T& operator[](const K& k) { return _data[insert(k).second]; }
    };
}
#endif
