// Property-based testing engine used by every check.
//
// A case is a sequence of choices. Gen draws from a seeded PRNG while searching and from a recorded sequence while
// shrinking or replaying, so that any generated value (a config, a history, a fault schedule) shrinks and replays in
// the same way: a shorter sequence, or one with smaller numbers, is a simpler case.
//
// Cases run in forked workers. A case fails when the property throws, or when the process dies (signal, sanitizer
// report, CPU limit). The parent then minimises the choice sequence with one fork per candidate, and reports a
// violation only if the minimised case fails three times out of three.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{
    struct Violation
    {
        std::string Msg;
    };

    class Gen
    {
    public:
        // uniform in [0, n), n >= 1; simplest value is 0
        uint64_t below(uint64_t n);
        // inclusive, unsigned; biased to the ends; simplest value is lo
        uint64_t range(uint64_t lo, uint64_t hi);
        // inclusive, uniform
        uint64_t uniform(uint64_t lo, uint64_t hi)
        {
            return (hi - lo == UINT64_MAX) ? raw(0) : lo + below(hi - lo + 1);
        }
        int irange(int lo, int hi)
        {
            return int(int64_t(lo) + int64_t(range(0, uint64_t(int64_t(hi) - lo))));
        }
        // small sizes are more likely; simplest is lo
        size_t size(size_t lo, size_t hi);
        // simplest value is false
        bool chance(unsigned num, unsigned den)
        {
            return below(den) >= den - num;
        }
        bool flip()
        {
            return below(2) == 1;
        }
        // any 64-bit pattern: uniform, small, boundary or few bits set
        uint64_t bits(unsigned width = 64);
        uint8_t byte()
        {
            return uint8_t(bits(8));
        }
        std::vector<uint8_t> bytes(size_t lo, size_t hi);
        template<class T> const T& pick(const std::vector<T>& v)
        {
            return v[below(v.size())];
        }
        template<class T> T pick(std::initializer_list<T> v)
        {
            return *(v.begin() + below(v.size()));
        }
        // weights; simplest is 0
        size_t weighted(std::initializer_list<unsigned> w);

        // --- bookkeeping of the case
        void note(const std::string& s); // kept only for replays
        bool replaying() const
        {
            return Replay;
        }

        // engine
        uint64_t raw(uint64_t n); // n == 0: full 64-bit range
        bool Replay = false;
        const uint64_t* In = nullptr;
        size_t InCount = 0;
        uint64_t* Out = nullptr;
        uint64_t* OutCount = nullptr;
        size_t OutMax = 0;
        uint64_t S[2];
    };

    // Count the case (once) towards a class; used to see what the generator really produces.
    void label(const char* name);
    void labelIf(bool c, const char* name);
    // The case satisfies the rule given in the evidence
    void nontrivial();
    // Text shown in the evidence (a few cases are kept)
    void sample(const std::string& s);
    bool wantSample();
    // Several independent evaluations of the oracle in one case
    void evaluations(uint64_t n);
    [[noreturn]] void fail(const std::string& msg);
    std::string hex(const std::vector<uint8_t>& v);
    std::string hex(const uint8_t* p, size_t n);
    std::string quote(const std::string& s);

    // Scratch directory of the run (removed by the driver)
    const std::string& scratch();
}

#define PBT_FAIL(expr)                                                                                                 \
    do {                                                                                                               \
        std::ostringstream pbt_ss_;                                                                                    \
        pbt_ss_ << expr;                                                                                               \
        ::pbt::fail(pbt_ss_.str());                                                                                    \
    } while (0)
#define PBT_CHECK(cond, expr)                                                                                          \
    do {                                                                                                               \
        if (!(cond))                                                                                                   \
            PBT_FAIL(expr);                                                                                            \
    } while (0)
#define PBT_EQ(a, b, expr)                                                                                             \
    do {                                                                                                               \
        auto pbt_a_ = (a);                                                                                      \
        auto pbt_b_ = (b);                                                                                      \
        if (!(pbt_a_ == pbt_b_))                                                                                       \
            PBT_FAIL(expr << ": got " << pbt_a_ << ", expected " << pbt_b_);                                           \
    } while (0)

// Provided by each check
extern const char* PROPERTY_ID;
extern const char* NONTRIVIAL_RULE;
void property(pbt::Gen& g);
// Optional: called once in every process before the first case
extern void setup() __attribute__((weak));
