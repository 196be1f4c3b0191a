// Stand-in for the external ptrie library (not installed in this environment): a set/map over byte-comparable keys
// that hands out stable ids 0,1,2,... in insertion order.  Only the contract PDAAAL uses is provided.
#pragma once
#include <cstddef>
#include <cstring>
#include <utility>
#include <vector>
#include <type_traits>
namespace ptrie {
    template <typename KEY> struct byte_iterator {
        static constexpr unsigned char& access(KEY* data, size_t id) { return ((unsigned char*)data)[id]; }
        static constexpr const unsigned char& const_access(const KEY* data, size_t id) { return ((const unsigned char*)data)[id]; }
        static constexpr size_t element_size() { return sizeof(KEY); }
        static constexpr bool continious() { return true; }
    };
    template <typename KEY = unsigned char> class set_stable {
    protected:
        std::vector<std::vector<KEY>> _keys; std::vector<char> _erased;
        static bool same(const KEY& a, const KEY& b) {
            if constexpr (std::is_integral_v<KEY> || std::is_enum_v<KEY> || std::is_pointer_v<KEY>) return a == b;
            else { for (size_t i = 0; i < byte_iterator<KEY>::element_size(); ++i) if (byte_iterator<KEY>::const_access(&a, i) != byte_iterator<KEY>::const_access(&b, i)) return false; return true; }
        }
        std::pair<bool, size_t> find(const KEY* d, size_t n) const {
            for (size_t i = 0; i < _keys.size(); ++i) {
                if (_erased[i] || _keys[i].size() != n) continue;
                bool eq = true;
                for (size_t j = 0; j < n && eq; ++j) eq = same(_keys[i][j], d[j]);
                if (eq) return {true, i};
            }
            return {false, _keys.size()};
        }
    public:
        set_stable() = default;
        std::pair<bool, size_t> insert(const KEY* d, size_t n) { auto [f, i] = find(d, n); if (f) return {false, i}; _keys.emplace_back(d, d + n); _erased.push_back(0); return {true, i}; }
        std::pair<bool, size_t> insert(const KEY& k) { return insert(&k, 1); }
        std::pair<bool, size_t> insert(std::pair<const KEY*, size_t> k) { return insert(k.first, k.second); }
        std::pair<bool, size_t> insert(const std::vector<KEY>& k) { return insert(k.data(), k.size()); }
        std::pair<bool, size_t> exists(const KEY* d, size_t n) const { return find(d, n); }
        std::pair<bool, size_t> exists(const KEY& k) const { return find(&k, 1); }
        std::pair<bool, size_t> exists(std::pair<const KEY*, size_t> k) const { return find(k.first, k.second); }
        std::pair<bool, size_t> exists(const std::vector<KEY>& k) const { return find(k.data(), k.size()); }
        bool erase(const KEY* d, size_t n) { auto [f, i] = find(d, n); if (f) _erased[i] = 1; return f; }
        bool erase(const KEY& k) { return erase(&k, 1); }
        bool erase(std::pair<const KEY*, size_t> k) { return erase(k.first, k.second); }
        bool erase(const std::vector<KEY>& k) { return erase(k.data(), k.size()); }
        size_t unpack(size_t index, KEY* dest) const { const auto& k = _keys[index]; for (size_t j = 0; j < k.size(); ++j) dest[j] = k[j]; return k.size(); }
        std::vector<KEY> unpack(size_t index) const { return _keys[index]; }
        size_t size() const { return _keys.size(); }
    };
    template <typename KEY, typename T> class map : public set_stable<KEY> {
        using pt = set_stable<KEY>; std::vector<T> _data;
    public:
        map() = default;
        using pt::unpack; using pt::size; using pt::exists; using pt::erase;
        template <typename K> std::pair<bool, size_t> insert(const K& k) { auto r = pt::insert(k); if (_data.size() < this->_keys.size()) _data.emplace_back(); return r; }
        std::pair<bool, size_t> insert(const KEY* d, size_t n) { auto r = pt::insert(d, n); if (_data.size() < this->_keys.size()) _data.emplace_back(); return r; }
        T& get_data(size_t i) { return _data[i]; }
        const T& get_data(size_t i) const { return _data[i]; }
        template <typename K> T& operator[](const K& k) { return _data[insert(k).second]; }
    };
    template <typename KEY = unsigned char> using set = set_stable<KEY>;
}
