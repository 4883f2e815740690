// Small property-based-testing engine (choice-sequence style, in the spirit of Hypothesis).
// A case is a sequence of bounded integer choices; every random decision of a generator goes through
// Gen, so that shrinking and replaying operate on the recorded sequence only.
#pragma once
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{
    struct Discard {};

    /// An oracle violation. `key` names the violated clause (used to keep the clause fixed while shrinking,
    /// and to match known findings).
    struct Fail
    {
        std::string key;
        std::string msg;
    };

    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed = 0) : s(seed) {}
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
    };

    class Gen
    {
    public:
        // --- choices
        uint64_t below(uint64_t n);                         ///< uniform in [0,n); shrinks towards 0
        int64_t range(int64_t lo, int64_t hi);              ///< uniform in [lo,hi]; shrinks towards lo
        int64_t range0(int64_t lo, int64_t hi);             ///< uniform in [lo,hi]; shrinks towards the value closest to 0
        int64_t size(int64_t lo, int64_t hi);               ///< in [lo,hi], biased towards small; shrinks towards lo
        bool chance(unsigned num, unsigned den);            ///< true with probability num/den; shrinks towards false
        bool coin() { return this->chance(1, 2); }
        size_t weighted(std::initializer_list<unsigned> w); ///< index; shrinks towards 0
        uint64_t seed64();                                  ///< 64 random bits; shrinks towards 0
        double unit();                                      ///< in [0,1]
        template <typename T> const T& pick(const std::vector<T>& v) { return v[(size_t)this->below(v.size())]; }
        template <typename T> T of(std::initializer_list<T> v) { return *(v.begin() + (size_t)this->below(v.size())); }
        /// n bytes that depend on one single choice (0 -> all zero).
        std::vector<uint8_t> bytes(size_t n);
        static void fill(uint64_t seed, void* p, size_t n);
        template <typename T> void shuffle(std::vector<T>& v)
        {
            for (size_t i = v.size(); i > 1; --i)
            {
                size_t j = i - 1 - (size_t)this->below(i);
                std::swap(v[i - 1], v[j]);
            }
        }

        // --- reporting
        void cls(const std::string& label);                 ///< count this case under a class (once per case)
        void count(const std::string& label, uint64_t n = 1);///< add to a counter
        void nontrivial() { this->nontrivial_ = true; }
        std::ostringstream& d() { if (this->trace_ && this->flushDesc) this->flushDesc(this->desc_); return this->desc_; }     ///< human readable description of the case
        bool tracing() const { return this->trace_; }

        // --- engine side
        void startRandom(uint64_t seed);
        void startReplay(const uint64_t* p, size_t n);
        bool nontrivial_ = false;
        bool trace_ = false;
        std::function<void(const std::ostringstream&)> flushDesc;
        std::ostringstream desc_;
        std::set<std::string> classes_;
        std::vector<std::pair<std::string, uint64_t>> counts_;
        uint64_t* sink = nullptr; volatile uint64_t* sinkCount = nullptr; size_t sinkCap = 0;
        uint64_t hash() const { return this->hash_; }
    private:
        bool replay_ = false;
        Rng rng_;
        const uint64_t* rp_ = nullptr; size_t rn_ = 0, ri_ = 0;
        uint64_t hash_ = 1469598103934665603ull;
    };

    using CaseFn = std::function<void(Gen&)>;

    struct Sub
    {
        std::string name;
        unsigned quickCases;
        unsigned thoroughCases;
        CaseFn fn;
    };

    struct Config
    {
        std::string property;
        std::string rule;                ///< what makes a case non-trivial
        std::vector<std::string> assumptions;
        std::vector<Sub> subs;
        double caseCpuSeconds = 60;      ///< CPU time after which a case counts as a hang
        double caseWallSeconds = 200;
        bool hangIsViolation = true;
        std::string level = "exploration";
        std::function<void()> workerInit;///< called once in each worker/child process
        unsigned maxWorkers = 8;
        bool schedules = false;          ///< cases start threads: a failure need not come back when the case is repeated
    };

    int main(int argc, char** argv, Config cfg);

    [[noreturn]] void fail(const std::string& key, const std::string& msg);
    /// Path of a private scratch directory of this process (removed by the parent).
    std::string scratchDir();

    template <typename... A> std::string cat(const A&... a)
    {
        std::ostringstream s;
        int dummy[] = { 0, ((void)(s << a), 0)... };
        (void)dummy;
        return s.str();
    }
}

#define PBT_REQUIRE(key, cond, ...) do { if (!(cond)) ::pbt::fail(key, ::pbt::cat(__VA_ARGS__)); } while (0)
