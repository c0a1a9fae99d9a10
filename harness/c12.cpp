// C12: overflow reports corruption exactly when guard bytes were modified
#include "driver.h"
#include "report.h"
using namespace drv;

namespace
{
    constexpr size_t G = 64;
    template<typename Stream> std::string take(Stream&);
    template<> std::string take<zoo::Sink>(zoo::Sink& k) { std::string t = k.text; k.text.clear(); return t; }
    template<> std::string take<std::ostringstream>(std::ostringstream& k) { std::string t = k.str(); k.str(""); return t; }

    template<typename A, typename Stream, bool Erased = false> void run(Src& s, const char* name)
    {
        typedef ktl::overflow<A, std::conditional_t<Erased, std::ostream, Stream>> O;
        pbt::log("overflow<%s>", name);
        drawPlans(s, 1, s.flag(1, 3));
        Stream out;
        struct B { char* p; size_t n; uint32_t pat; unsigned char before[G], after[G]; };
        std::vector<B> live; uint32_t pats = 0; unsigned reports = 0, clean = 0, oneSided = 0, restored = 0, same = 0;
        {
            O o(out);
            auto verify = [&]
            {
                leaf::checkErrors();
                std::string t = take(out);
                CHECK(t.empty(), "output without a deallocation: %s", t.c_str());
                for (auto& b : live) CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content of a live block changed");
            };
            auto release = [&](size_t k)
            {
                B b = live[k]; live.erase(live.begin() + k);
                long before = 0, after = 0;
                for (size_t i = 0; i < G; i++)
                {
                    if ((unsigned char)b.p[-1 - (long)i] != b.before[i]) before = long(i) + 1;
                    if ((unsigned char)b.p[b.n + i] != b.after[i]) after = long(i) + 1;
                }
                char addr[32]; snprintf(addr, sizeof addr, "%p", (void*)b.p);
                o.deallocate(b.p, b.n);
                std::string t = take(out);
                for (size_t p; (p = t.find(addr)) != t.npos; ) t.replace(p, strlen(addr), "PTR");
                pbt::log("free(%zu) before=%ld after=%ld -> %s", b.n, before, after, t.empty() ? "no report" : "report");
                if (!before && !after) { CHECK(t.empty(), "report although no guard byte was modified: %s", t.c_str()); clean++; }
                else
                {
                    CHECK(!t.empty(), "no report although guard bytes were modified (%ld before, %ld after a block of %zu bytes)", before, after, b.n);
                    CHECK(rep::count(t, "MEMORY CORRUPTION DETECTED") == 1, "expected one corruption report: %s", t.c_str());
                    CHECK(rep::count(t, "PTR") == 1, "report does not name the address of the block: %s", t.c_str());
                    CHECK(rep::aroundSize(t) == (long long)b.n, "report names %lld bytes for a block of %zu bytes: %s", rep::aroundSize(t), b.n, t.c_str());
                    long long rb = rep::number(t, "Before"), ra = rep::number(t, "After");
                    CHECK(rb == (before ? before : -1), "outermost modified byte before the block is at distance %ld, reported %lld: %s", before, rb, t.c_str());
                    CHECK(ra == (after ? after : -1), "outermost modified byte after the block is at distance %ld, reported %lld: %s", after, ra, t.c_str());
                    reports++; if (!before != !after) oneSided++;
                }
                verify();
            };
            s.maxSteps = 10 + 4 * s.sizeHint();
            while (s.more(40))
            {
                pbt::Span sp;
                static const unsigned w[] = { 5, 5, 5, 2, 2 };
                switch (s.pick(w))
                {
                case 0:
                {
                    if (live.size() > 20) break;
                    B b; b.n = s.flag(1, 50) ? drawGiant(s) : drawSize(s);
                    b.p = (char*)o.allocate(b.n);
                    pbt::log("alloc(%zu)=%s", b.n, b.p ? "ok" : "null");
                    if (!b.p) break;
                    for (size_t i = 0; i < G; i++) { b.before[i] = (unsigned char)b.p[-1 - (long)i]; b.after[i] = (unsigned char)b.p[b.n + i]; }
                    b.pat = ++pats; fill(b.p, b.n, b.pat);      // writes inside the block are never reported
                    live.push_back(b);
                    break;
                }
                case 1: if (!live.empty()) release(s.flag() ? live.size() - 1 : s.draw(live.size())); break;
                case 2:   // modify one guard byte (possibly writing the value it has)
                    if (!live.empty())
                    {
                        B& b = live[s.draw(live.size())]; bool front = s.flag();
                        size_t i; switch (s.draw(3)) { case 0: i = s.draw(G); break; case 1: i = 0; break; default: i = G - 1; }
                        unsigned char& c = (unsigned char&)(front ? b.p[-1 - (long)i] : b.p[b.n + i]);
                        unsigned char orig = front ? b.before[i] : b.after[i];
                        unsigned char v;
                        switch (s.draw(5)) { case 0: v = (unsigned char)(orig ^ (1u << s.draw(8))); break; case 1: v = (unsigned char)s.draw(256); break; case 2: v = 0; break; case 3: v = 0xff; break; default: v = orig; }
                        if (v == orig) same++;
                        pbt::log("write %s+%zu: %02x -> %02x (block of %zu)", front ? "before" : "after", i, c, v, b.n);
                        c = v;
                    }
                    break;
                case 3:   // overwrite a stretch adjacent to the block
                    if (!live.empty())
                    {
                        B& b = live[s.draw(live.size())]; bool front = s.flag(); size_t n = s.range(1, G); unsigned char v = (unsigned char)s.draw(256);
                        pbt::log("fill %zu bytes %s with %02x (block of %zu)", n, front ? "before" : "after", v, b.n);
                        memset(front ? b.p - n : b.p + b.n, v, n);
                    }
                    break;
                default:  // put everything back
                    if (!live.empty())
                    {
                        B& b = live[s.draw(live.size())];
                        pbt::log("restore (block of %zu)", b.n);
                        for (size_t i = 0; i < G; i++) { b.p[-1 - (long)i] = (char)b.before[i]; b.p[b.n + i] = (char)b.after[i]; }
                        restored++;
                    }
                    break;
                }
                verify();
            }
            while (!live.empty()) release(live.size() - 1);
        }
        std::string t = take(out);
        CHECK(t.empty(), "output at destruction although everything was deallocated: %s", t.c_str());
        leaf::checkErrors();
        CHECK(leaf::liveBlocks() == 0 && heap::liveBlocks() == g_heapBase, "memory leaked");
        if (reports && clean) pbt::nontrivial();
        if (oneSided) pbt::label("only one side modified");
        if (restored || same) pbt::label("original value written or restored");
    }
}
static void corruption(Src& s)
{
    using namespace ktl;
    switch (s.draw(8))
    {
    case 0: run<leaf::R<0, 0>, zoo::Sink>(s, "leaf"); break;
    case 1: run<mallocator, std::ostringstream, true>(s, "mallocator,ostream"); break;
    case 2: run<linear_allocator<4096>, zoo::Sink>(s, "linear<4096>"); break;
    case 3: run<freelist<0, 256, leaf::R<0, 0>>, zoo::Sink>(s, "freelist<0,256,leaf>"); break;
    case 4: run<cascading<linear_allocator<1024>>, std::ostringstream>(s, "cascading<linear<1024>>"); break;
    case 5: run<fallback<linear_allocator<512>, mallocator>, zoo::Sink>(s, "fallback<linear<512>,mallocator>"); break;
    case 6: run<segragator<160, freelist<0, 160, mallocator>, leaf::R<0, 0>>, zoo::Sink>(s, "segragator<160,freelist<0,160,mallocator>,leaf>"); break;
    default: run<leaf::R<0, leaf::ALL>, std::ostringstream>(s, "leaf"); break;
    }
}
pbt::Prop pbt::props[] = {
    {"corruption", corruption, 1, "non-trivial if both a block with modified guard bytes and one without were deallocated"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
