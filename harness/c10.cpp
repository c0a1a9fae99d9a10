// C10: segragator routes by size, identically on allocate and deallocate
#include "driver.h"
#include "probe.h"
using namespace drv;
using prb::ev;

namespace
{
    template<size_t T, typename P, typename F> void run(Src& s, const char* name)
    {
        typedef ktl::segragator<T, prb::P<0, P>, prb::P<1, F>> A;
        pbt::log("segragator<%zu,%s>", T, name);
        drawPlans(s, 4);
        prb::reset();
        auto a = std::make_unique<A>();
        struct B { char* p; size_t n; uint32_t pat; int k; };
        std::vector<B> live; uint32_t pats = 0; unsigned fromP = 0, fromF = 0, edge = 0, refused = 0;
        auto verify = [&] { prb::check(); for (auto& b : live) CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content of a live block of %zu bytes changed", b.n); };
        s.maxSteps = 10 + 4 * s.sizeHint();
        while (s.more(50))
        {
            pbt::Span sp;
            ev.clear();
            if (s.flag(3, 5))
            {
                size_t n;
                switch (s.draw(6))
                {
                case 0: n = s.range(T > 2 ? T - 2 : 0, T + 2 < T ? T : T + 2); break;
                case 1: n = s.draw(std::min<size_t>(T, 5000) + 1); break;
                case 2: n = std::min<size_t>(T, 5000) + s.range(1, 200); break;
                case 3: n = drawSize(s); break;
                case 4: n = s.range(0, 20); break;
                default: n = s.flag(1, 5) ? drawGiant(s) : s.range(0, 300); break;
                }
                int k = n <= T ? 0 : 1;
                char* p = (char*)a->allocate(n);
                pbt::log("alloc(%zu)=%s [%s]", n, p ? "ok" : "null", prb::str().c_str());
                CHECK(ev.size() == 1 && ev[0].k == k && ev[0].kind != 'F' && ev[0].n == n, "a request of %zu bytes must go to %s and only there, but: %s", n, k ? "the fallback" : "the primary", prb::str().c_str());
                CHECK(p == ev[0].p, "the answer of the chosen side was not returned");
                if (n == T || n == T + 1) edge++;
                if (!p) { refused++; verify(); continue; }
                (k ? fromF : fromP)++;
                fill(p, n, ++pats); live.push_back({p, n, pats, k});
            }
            else if (!live.empty())
            {
                size_t i = s.flag() ? live.size() - 1 : s.draw(live.size());
                B b = live[i]; live.erase(live.begin() + i);
                a->deallocate(b.p, b.n);
                pbt::log("free(%zu) [%s]", b.n, prb::str().c_str());
                CHECK(ev.size() == 1 && ev[0].kind == 'F' && ev[0].k == b.k && ev[0].p == b.p && ev[0].n == b.n, "a block of %zu bytes from %s: deallocation resulted in %s", b.n, b.k ? "the fallback" : "the primary", prb::str().c_str());
            }
            verify();
        }
        if ((T == 0 || fromP) && (T == SIZE_MAX || fromF)) pbt::nontrivial();
        if (edge) pbt::label("request at the threshold");
        if (refused) pbt::label("chosen side refused");
        while (!live.empty())
        {
            size_t i = s.draw(live.size()); B b = live[i]; live.erase(live.begin() + i); ev.clear();
            a->deallocate(b.p, b.n);
            CHECK(ev.size() == 1 && ev[0].kind == 'F' && ev[0].k == b.k, "a block of %zu bytes from %s: deallocation resulted in %s", b.n, b.k ? "the fallback" : "the primary", prb::str().c_str());
            verify();
        }
        a.reset(); verify();
        CHECK(leaf::liveBlocks() == 0 && heap::liveBlocks() == g_heapBase, "memory leaked");
    }
}
static void routes(Src& s)
{
    using namespace ktl;
    typedef leaf::R<0, 0> L0; typedef leaf::R<1, 0> L1; typedef leaf::R<2, leaf::OWNS> L2; typedef leaf::R<3, leaf::OWNS | leaf::MAXS> L3;
    switch (s.draw(12))
    {
    case 0: run<64, L0, L1>(s, "leaf,leaf"); break;
    case 1: run<16, L0, L1>(s, "leaf,leaf"); break;
    case 2: run<0, L0, L1>(s, "leaf,leaf"); break;
    case 3: run<1, L0, L1>(s, "leaf,leaf"); break;
    case 4: run<SIZE_MAX, L0, L1>(s, "leaf,leaf"); break;
    case 5: run<255, L2, L3>(s, "leaf,leaf"); break;
    case 6: run<32, freelist<0, 32, L0>, mallocator>(s, "freelist<0,32,leaf>,mallocator"); break;
    case 7: run<48, linear_allocator<256>, L1>(s, "linear<256>,leaf"); break;
    case 8: run<100, cascading<linear_allocator<256>>, fallback<linear_allocator<512>, L1>>(s, "cascading<linear<256>>,fallback<linear<512>,leaf>"); break;
    case 9: run<64, segragator<16, L0, L2>, L1>(s, "segragator<16,leaf,leaf>,leaf"); break;
    case 10: run<4096, linear_allocator<4096>, mallocator>(s, "linear<4096>,mallocator"); break;
    default: run<40, shared<linear_allocator<200>>, freelist<40, 80, shared<L1>>>(s, "shared<linear<200>>,freelist<40,80,shared<leaf>>"); break;
    }
}
pbt::Prop pbt::props[] = {
    {"routes", routes, 1, "non-trivial if blocks were served by both sides (where the threshold leaves two)"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
