// C04: bump allocators give out at most Size bytes and recover all of it
#include "driver.h"
using namespace drv;

namespace
{
    constexpr size_t AL = alignof(std::max_align_t);
    size_t up(size_t n) { return (n + AL - 1) / AL * AL; }

    // Drives one buffer of Size bytes through `alloc`/`dealloc` (which pick a handle each time).
    // The model is the documented one: requests consume the tail, the last block can be taken back, and
    // everything is available once nothing is live. It only says when a request *must* succeed.
    template<size_t Size, typename Al, typename De, typename Ow> void drive(Src& s, const char* base, Al alloc, De dealloc, Ow owns, const char* name)
    {
        pbt::log("%s<%zu>", name, Size);
        struct L { char* p; size_t n; uint32_t pat; };
        std::vector<L> live; size_t tail = 0; uint32_t pats = 0; unsigned lifo = 0, nonLifo = 0, full = 0, refused = 0;
        auto verify = [&]
        {
            size_t sum = 0;
            for (auto& l : live) { size_t d = firstDiff(l.p, l.n, l.pat); CHECK(d == SIZE_MAX, "content of a live block of %zu bytes changed at %zu", l.n, d); sum += l.n; }
            CHECK(sum <= Size, "%zu bytes are live in a buffer of %zu bytes", sum, Size);
        };
        auto request = [&](size_t n)
        {
            bool must = n <= Size && tail < Size && up(n) <= Size - tail;
            char* p = (char*)alloc(n);
            pbt::log("alloc(%zu)=%s", n, p ? "ok" : "null");
            if (!p) { CHECK(!must, "a request of %zu bytes was refused although %zu of %zu bytes of the buffer are unconsumed", n, Size - tail, Size); refused++; return; }
            CHECK(uintptr_t(p) % AL == 0, "misaligned block");
            CHECK(p >= base && p + n <= base + Size, "block of %zu bytes at offset %zd is not inside the buffer of %zu bytes", n, (ssize_t)(p - base), Size);
            CHECK(owns(p), "the allocator does not own the block of %zu bytes it just handed out", n);
            for (auto& l : live) if (l.n && n) CHECK(p + n <= l.p || l.p + l.n <= p, "new block of %zu bytes overlaps a live one", n);
            fill(p, n, ++pats); live.push_back({p, n, pats});
            tail = size_t(p - base) + up(n);
            if (tail == Size) full++;
            verify();
        };
        auto release = [&](size_t k)
        {
            L l = live[k];
            size_t d = firstDiff(l.p, l.n, l.pat); CHECK(d == SIZE_MAX, "content of a live block changed at %zu", d);
            live.erase(live.begin() + k);
            pbt::log("free(#%zu:%zu)", k, l.n);
            dealloc(l.p, l.n);
            if (size_t(l.p - base) + up(l.n) == tail) { tail = size_t(l.p - base); lifo++; } else nonLifo++;
            if (live.empty()) tail = 0;
            verify();
        };
        s.maxSteps = 10 + 4 * s.sizeHint();
        while (s.more(50))
        {
            pbt::Span sp;
            static const unsigned w[] = { 6, 3, 3, 2, 1 };
            switch (s.pick(w))
            {
            case 0:
            {
                size_t n;
                switch (s.draw(5))
                {
                case 0: n = s.range(0, 40); break;
                case 1: n = s.range(0, Size); break;
                case 2: n = Size - std::min(tail, Size); n -= std::min<size_t>(n, s.draw(20)); break;       // about the rest
                case 3: n = Size - std::min(tail, Size) + s.range(0, 2); break;                             // just too much
                default: n = s.range(Size, Size + 40); break;
                }
                request(n);
                break;
            }
            case 1: if (!live.empty()) release(live.size() - 1); break;                       // most recent
            case 2: if (!live.empty()) release(s.draw(live.size())); break;
            case 3:                                                                           // most recent: its space is back at once
                if (!live.empty())
                {
                    size_t n = live.back().n; bool last = size_t(live.back().p - base) + up(n) == tail;
                    release(live.size() - 1);
                    if (last && tail < Size) { char* q = (char*)alloc(n); CHECK(q, "the space of the most recent block (%zu bytes) is not available after its deallocation", n); fill(q, n, ++pats); live.push_back({q, n, pats}); tail = size_t(q - base) + up(n); verify(); pbt::log("again(%zu)", n); }
                }
                break;
            default:                                                                          // everything, in some order
            {
                unsigned mode = unsigned(s.draw(3));
                while (!live.empty()) release(mode == 0 ? 0 : mode == 1 ? live.size() - 1 : s.draw(live.size()));
                size_t n = Size / AL * AL;
                if (n) { request(n); CHECK(!live.empty(), "the whole buffer is not available"); if (s.flag()) release(0); }
                break;
            }
            }
        }
        while (!live.empty()) release(s.draw(live.size()));
        size_t n = Size / AL * AL;
        if (n) { char* p = (char*)alloc(n); CHECK(p, "after every block was deallocated, %zu of %zu bytes cannot be allocated", n, Size); dealloc(p, n); }
        if (pats >= 3 && nonLifo) pbt::nontrivial();
        if (full) pbt::label("buffer filled to the last byte");
        if (refused) pbt::label("some request refused");
        if (lifo) pbt::label("last block taken back");
    }

    template<size_t Size> void linear(Src& s)
    {
        typedef ktl::linear_allocator<Size> A;
        struct Guarded { alignas(16) char before[64]; A a; alignas(16) char after[64]; };
        auto g = std::make_unique<Guarded>();
        memset(g->before, 0x5a, 64); memset(g->after, 0x5a, 64);
        // find the buffer: the address an empty allocator hands out first
        char* base = nullptr;
        if constexpr (Size >= AL) { base = (char*)g->a.allocate(1); CHECK(base, "an empty linear_allocator<%zu> refused 1 byte", Size); g->a.deallocate(base, 1); }
        else { CHECK(!g->a.allocate(1), "more than Size bytes handed out"); base = (char*)&g->a; }
        CHECK(base >= (char*)&g->a && base + Size <= (char*)(&g->a + 1), "the buffer is not inside the allocator");
        CHECK(g->a.max_size() == Size, "max_size() is not Size");
        drive<Size>(s, base, [&](size_t n) { return g->a.allocate(n); }, [&](void* p, size_t n) { g->a.deallocate(p, n); }, [&](void* p) { return g->a.owns(p); }, "linear");
        for (int i = 0; i < 64; i++) CHECK(g->before[i] == 0x5a && g->after[i] == 0x5a, "memory next to the allocator was written");
    }
    template<size_t Size> void stacked(Src& s)
    {
        typedef ktl::stack_allocator<Size> A; typedef ktl::type_allocator<char, A> T;
        struct Guarded { alignas(16) char before[64]; ktl::stack<Size> st; alignas(16) char after[64]; };
        auto g = std::make_unique<Guarded>(); auto other = std::make_unique<ktl::stack<Size>>();
        memset(g->before, 0x5a, 64); memset(g->after, 0x5a, 64);
        std::vector<A> hs; hs.emplace_back(g->st); hs.emplace_back(&g->st);
        A stranger(*other); T typed(g->st); void* keep = nullptr;
        if (Size >= AL) { keep = stranger.allocate(1); CHECK(keep, "an empty stack refused 1 byte"); }
        auto h = [&]() -> A&
        {
            if (s.flag(1, 6) && hs.size() < 8)
                switch (s.draw(6))
                {
                case 4: hs.push_back(A(g->st)); break;
                case 5: hs.push_back(A(&g->st)); break;
                case 0: hs.push_back(A(hs[s.draw(hs.size())])); break;
                case 1: hs.push_back(A(std::move(hs[s.draw(hs.size())]))); break;
                case 2: { A x(*other); x = hs[s.draw(hs.size())]; hs.push_back(x); break; }
                default: { A x(*other); x = std::move(hs[s.draw(hs.size())]); hs.push_back(x); break; }
                }
            return hs[s.draw(hs.size())];
        };
        drive<Size>(s, g->st.Data, [&](size_t n) { return s.flag(1, 4) ? (void*)typed.allocate(n) : h().allocate(n); },
                    [&](void* p, size_t n) { if (s.flag(1, 4)) typed.deallocate((char*)p, n); else h().deallocate(p, n); }, [&](void* p) { return h().owns(p) && !stranger.owns(p); }, "stack");
        for (int i = 0; i < 64; i++) CHECK(g->before[i] == 0x5a && g->after[i] == 0x5a, "memory next to the stack was written");
        if (keep)
        {
            stranger.deallocate(keep, 1);
            void* p = stranger.allocate(Size / AL * AL); CHECK(p, "a stack that was not used lost capacity");
        }
    }
}
static void linearCap(Src& s)
{
    switch (s.draw(7))
    {
    case 0: linear<64>(s); break; case 1: linear<16>(s); break; case 2: linear<100>(s); break; case 3: linear<256>(s); break;
    case 4: linear<1000>(s); break; case 5: linear<4096>(s); break; default: linear<24>(s); break;
    }
}
static void stackCap(Src& s)
{
    switch (s.draw(6))
    {
    case 0: stacked<64>(s); break; case 1: stacked<16>(s); break; case 2: stacked<100>(s); break; case 3: stacked<256>(s); break;
    case 4: stacked<1000>(s); break; default: stacked<4096>(s); break;
    }
}
pbt::Prop pbt::props[] = {
    {"linearCap", linearCap, 1, "non-trivial if at least three blocks were handed out and one was deallocated out of order"},
    {"stackCap", stackCap, 1, "non-trivial if at least three blocks were handed out and one was deallocated out of order"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
