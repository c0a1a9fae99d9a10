// Small property-based testing engine: choice sequences, forked workers, span-based shrinking.
//
// A property is a function of a choice source (Src). Every random decision is one draw from the
// source, so a case *is* its choice sequence: it replays exactly, shrinks by deleting / lowering
// choices, and can equally be driven by a coverage-guided fuzzer's bytes (see fuzz mode in pbt.cpp).
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace pbt
{
    struct Fail { std::string msg; };

    // State of the case being run; lives in memory shared with the parent so that it survives a crash.
    struct Shared
    {
        static constexpr size_t MAXC = 1 << 15, MAXS = 1 << 13, MAXT = 1 << 16, MAXL = 400, MAXH = 1 << 19;
        uint64_t caseIndex, batchStart, casesDone, nontrivial, skipped;
        uint64_t nChoices, choices[MAXC];
        uint64_t nSpans; struct { uint32_t a, b; } spans[MAXS];
        uint64_t nText; char text[MAXT];
        uint64_t nLabels; struct { char name[72]; uint64_t count; } labels[MAXL];
        uint64_t nHashes, hashes[MAXH];
        uint64_t nSamples; char samples[3][2048];
        int failed; char failMsg[4096];
        int finished;
        uint64_t digest;       // digest of all observations of the case (see Src::observe)
    };

    extern Shared* g;          // current case
    extern bool g_fuzz;        // driven by libFuzzer: no labels, no samples

    class Src
    {
    public:
        enum Mode { Gen, Replay, Bytes };
        Src(uint64_t seed, unsigned size) : mode(Gen), st(seed), size(size) {}
        Src(const std::vector<uint64_t>& c, unsigned size) : mode(Replay), in(&c), size(size) {}
        Src(const uint8_t* d, size_t n, unsigned size) : mode(Bytes), d(d), n(n), size(size) {}

        // uniform in [0, bound); 0 is the simplest value
        uint64_t draw(uint64_t bound);
        uint64_t bits() { return draw(0); }                       // any 64-bit value
        uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
        bool flag(unsigned num = 1, unsigned den = 2) { return draw(den) >= den - num; }   // simplest: false
        // pick an index with the given weights; simplest: 0
        template<size_t N> unsigned pick(const unsigned (&w)[N])
        {
            unsigned sum = 0; for (unsigned x : w) sum += x;
            uint64_t r = draw(sum);
            for (unsigned i = 0; i < N; i++) { if (r < w[i]) return i; r -= w[i]; }
            return 0;
        }
        template<typename T, size_t N> const T& of(const T (&a)[N]) { return a[draw(N)]; }
        // "another step?" with geometric length of mean about `mean`; simplest: no
        bool more(unsigned mean) { if (steps++ >= maxSteps) return false; return draw(mean + 1) != 0; }

        unsigned maxSteps = 400;
        unsigned sizeHint() const { return size; }

    private:
        uint64_t rnd();
        Mode mode; uint64_t st = 0; const std::vector<uint64_t>* in = nullptr; size_t pos = 0;
        const uint8_t* d = nullptr; size_t n = 0; unsigned size; unsigned steps = 0;
    };

    struct Span   // groups the choices of one step, so that the shrinker can delete the step
    {
        uint64_t i;
        Span() : i(g->nSpans) { if (i < Shared::MAXS) { g->spans[i].a = (uint32_t)g->nChoices; g->spans[i].b = UINT32_MAX; g->nSpans++; } }
        ~Span() { if (i < Shared::MAXS) g->spans[i].b = (uint32_t)g->nChoices; }
    };

    void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));    // trace of the case
    void label(const char* name);                                            // classification counter
    void nontrivial();                                                       // the case is non-trivial
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    void observe(uint64_t v);                                                // feed the case digest

    // Each harness defines these:
    struct Prop { const char* name; void (*fn)(Src&); unsigned weight; const char* rule; };
    extern Prop props[];      // terminated by {nullptr}
    void reset();             // called before and after each case: reset all global state; may fail()
}

#define CHECK(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)
