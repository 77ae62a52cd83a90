// Property-based testing engine: choice sequences, forked execution, shrinking, replay, evidence.
#pragma once
#include "vsched.hpp"

#include <cstdint>
#include <string>
#include <vector>

namespace pbt
{
    constexpr unsigned MAX_CHOICES = 60000;
    constexpr unsigned MAX_TEXT = 6000;

    struct Shared // one per shard, in shared memory
    {
        vs::Report rep;
        uint32_t n; // recorded choices of the current case
        uint64_t sseed; // schedule seed of the current case
        uint64_t case_no;
        uint64_t done; // cases completed in this batch
        uint64_t nontrivial;
        uint64_t counters[64];
        uint32_t n_hash;
        uint64_t hash[4096]; // fingerprints of the nontrivial cases of the batch
        char text[MAX_TEXT]; // description of the current case
        char sample[MAX_TEXT]; // description of the last nontrivial case
        uint64_t choice[MAX_CHOICES];
        uint64_t bound[MAX_CHOICES];
    };

    struct Gen
    {
        uint64_t choose(uint64_t n); // uniform in [0, n)
        uint64_t range(uint64_t lo, uint64_t hi) // inclusive
        {
            return lo + choose(hi - lo + 1);
        }
        bool coin(unsigned num, unsigned den) // true with probability num/den; shrinks to false
        {
            return choose(den) >= den - num;
        }
        // log-uniform in [0, 2^bits)
        uint64_t log2val(unsigned bits);
        template<typename... W>
        unsigned weighted(W... w)
        {
            unsigned a[] = {(unsigned) w...};
            return weighted_n(a, sizeof...(W));
        }
        unsigned weighted_n(unsigned const* w, unsigned n);

        void count(unsigned label, uint64_t n = 1); // classification counters
        void nontrivial();
        void desc(char const* fmt, ...) __attribute__((format(printf, 2, 3))); // append to the case description
        void fingerprint(uint64_t); // mixes into the identity of the case (default: the choices)

        // schedule parameters of this case
        vs::Config schedule();
        uint64_t sched_rnd();

        bool is_nontrivial;
        bool verbose; // replay mode: description is printed
    };

    struct Check
    {
        char const* id; // property
        char const* name;
        void (*warm)(); // once, in the parent
        void (*run)(Gen&); // one case, in a child
        bool concurrent; // schedule is part of the input
        unsigned batch; // cases per child
        unsigned timeout_s; // real time backstop per child
        char const* rule;
        std::vector<char const*> labels;
        std::vector<char const*> assumptions;
        uint64_t quick_cases, thorough_cases;
        unsigned quick_s, thorough_s; // time caps
    };

    // returns the process exit code
    int main(int argc, char** argv, std::vector<Check> const& checks);

    [[noreturn]] void fail(char const* kind, char const* fmt, ...) __attribute__((format(printf, 2, 3)));
} // namespace pbt

#define PBT_ASSERT(c, kind, ...)                                                                                      \
    do                                                                                                                \
    {                                                                                                                 \
        if(!(c))                                                                                                      \
            pbt::fail(kind, __VA_ARGS__);                                                                             \
    } while(0)
