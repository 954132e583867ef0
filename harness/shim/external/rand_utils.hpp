// Deterministic stand-in for automatic seeding, found before limbo's own header on the include path.
// It includes the real header and then gives `randutils::auto_seed_128` a source of entropy that is a
// function of the running test case, so that a failing case can be replayed. Nothing in /repo is changed.
#ifndef VERIF_SHIM_RAND_UTILS
#define VERIF_SHIM_RAND_UTILS
#include_next <external/rand_utils.hpp>
#include <atomic>
#include <cstdint>
namespace verif {
    inline std::atomic<uint64_t>& seed_state()
    {
        static std::atomic<uint64_t> s{0x1234567};
        return s;
    }
} // namespace verif
namespace randutils {
    struct verif_case_seed {
        seed_seq_fe128 _b;
        static uint32_t nxt()
        {
            uint64_t z = (verif::seed_state() += 0x9E3779B97F4A7C15ULL);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
            return static_cast<uint32_t>((z ^ (z >> 31)) >> 16);
        }
        verif_case_seed() : _b({nxt(), nxt(), nxt(), nxt()}) {}
        seed_seq_fe128& base() { return _b; }
        template <typename I>
        void generate(I a, I b) { _b.generate(a, b); }
    };
} // namespace randutils
#define auto_seed_128 verif_case_seed
#endif
