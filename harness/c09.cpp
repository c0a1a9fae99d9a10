// C09: fallback tries the primary first and returns blocks to their origin
#include "driver.h"
#include "probe.h"
using namespace drv;
using prb::ev;

namespace
{
    template<typename P, typename F> void run(Src& s, const char* name, size_t range)
    {
        typedef ktl::fallback<prb::P<0, P>, prb::P<1, F>> A;
        pbt::log("%s", name);
        drawPlans(s, 4);
        prb::reset();
        auto a = std::make_unique<A>();
        struct B { char* p; size_t n; uint32_t pat; int k; };
        std::vector<B> live; uint32_t pats = 0; unsigned fromP = 0, fromF = 0, crossed = 0, both = 0; bool pFullSince = false;
        auto verify = [&] { prb::check(); for (auto& b : live) CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content of a live block of %zu bytes changed", b.n); };
        s.maxSteps = 10 + 4 * s.sizeHint();
        while (s.more(50))
        {
            pbt::Span sp;
            ev.clear();
            if (s.flag(3, 5))
            {
                size_t n = s.flag(1, 10) ? drawSize(s) : s.flag(1, 60) ? drawGiant(s) : s.range(0, range);
                char* p = (char*)a->allocate(n);
                pbt::log("alloc(%zu)=%s [%s]", n, p ? "ok" : "null", prb::str().c_str());
                CHECK(!ev.empty() && ev[0].k == 0 && (ev[0].kind == 'A' || ev[0].kind == 'R'), "the request was not passed to the primary first: %s", prb::str().c_str());
                CHECK(ev[0].n == n, "the primary was asked for %zu bytes instead of %zu", ev[0].n, n);
                if (ev[0].kind == 'A')
                {
                    CHECK(ev.size() == 1, "the primary served the request, but further calls were made: %s", prb::str().c_str());
                    CHECK(p == ev[0].p, "the block of the primary was not returned"); fromP++;
                    if (pFullSince) crossed++;
                }
                else
                {
                    CHECK(ev.size() == 2 && ev[1].k == 1 && ev[1].kind != 'F' && ev[1].n == n, "the primary refused; expected the request to go to the fallback once: %s", prb::str().c_str());
                    CHECK(p == ev[1].p, "%s although the fallback %s", p ? "a block was returned" : "null was returned", ev[1].p ? "served the request" : "refused, too");
                    if (p) { fromF++; pFullSince = true; } else both++;
                }
                if (!p) { verify(); continue; }
                fill(p, n, ++pats); live.push_back({p, n, pats, ev.back().k});
            }
            else if (!live.empty())
            {
                size_t k; switch (s.draw(3)) { case 0: k = live.size() - 1; break; case 1: k = 0; break; default: k = s.draw(live.size()); }
                B b = live[k]; live.erase(live.begin() + k);
                a->deallocate(b.p, b.n);
                pbt::log("free(%zu) [%s]", b.n, prb::str().c_str());
                CHECK(ev.size() == 1 && ev[0].kind == 'F' && ev[0].k == b.k && ev[0].p == b.p && ev[0].n == b.n, "a block of %zu bytes from %s: deallocation resulted in %s", b.n, b.k ? "the fallback" : "the primary", prb::str().c_str());
            }
            verify();
        }
        if (fromP && fromF) pbt::nontrivial();
        if (crossed) pbt::label("primary serves again after the fallback did");
        if (both) pbt::label("both refused");
        while (!live.empty())
        {
            size_t k = s.draw(live.size()); B b = live[k]; live.erase(live.begin() + k); ev.clear();
            a->deallocate(b.p, b.n);
            CHECK(ev.size() == 1 && ev[0].kind == 'F' && ev[0].k == b.k, "a block from %s: deallocation resulted in %s", b.k ? "the fallback" : "the primary", prb::str().c_str());
            verify();
        }
        a.reset(); verify();
        CHECK(leaf::liveBlocks() == 0 && heap::liveBlocks() == g_heapBase, "memory leaked");
    }
}
static void order(Src& s)
{
    using namespace ktl;
    typedef leaf::R<0, leaf::OWNS> L0; typedef leaf::R<1, 0> L1; typedef leaf::R<2, leaf::OWNS> L2;
    switch (s.draw(11))
    {
    case 0: run<L0, L1>(s, "fallback<leaf,leaf>", 300); break;
    case 1: run<linear_allocator<256>, mallocator>(s, "fallback<linear<256>,mallocator>", 120); break;
    case 2: run<linear_allocator<100>, L1>(s, "fallback<linear<100>,leaf>", 60); break;
    case 3: run<freelist<16, 64, L0>, L1>(s, "fallback<freelist<16,64,leaf>,leaf>", 80); break;
    case 4: run<freelist<0, 64, linear_allocator<256>>, freelist<0, 128, mallocator>>(s, "fallback<freelist<0,64,linear<256>>,freelist<0,128,mallocator>>", 140); break;
    case 5: run<cascading<leaf::R<0, leaf::OWNS | leaf::MAXS>>, L1>(s, "fallback<cascading<leaf>,leaf>", 300); break;
    case 6: run<fallback<L0, linear_allocator<128>>, L1>(s, "fallback<fallback<leaf,linear<128>>,leaf>", 200); break;
    case 7: run<linear_allocator<256>, linear_allocator<1024>>(s, "fallback<linear<256>,linear<1024>>", 150); break;
    case 8: run<segragator<48, L0, L2>, cascading<linear_allocator<256>>>(s, "fallback<segragator<48,leaf,leaf>,cascading<linear<256>>>", 200); break;
    case 9: run<shared<linear_allocator<128>>, shared<L1>>(s, "fallback<shared<linear<128>>,shared<leaf>>", 80); break;
    default: run<null_allocator, L1>(s, "fallback<null,leaf>", 80); break;
    }
}
pbt::Prop pbt::props[] = {
    {"order", order, 1, "non-trivial if blocks were served by both the primary and the fallback"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
