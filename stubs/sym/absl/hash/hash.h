// Stand-in used for the symbolic build only: every key hashes to the same value, so hash containers depend only on
// key equality (hashing is required to be consistent with equality; the hash function itself is not modelled).
#pragma once
#include <cstddef>
#include <utility>
namespace absl {
    template <typename T> struct Hash {
        std::size_t operator()(const T&) const noexcept { return 0; }
    };
}
