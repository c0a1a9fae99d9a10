// C03: requests that cannot be met return null and change nothing
#include "driver.h"
using namespace drv;

namespace
{
    struct Op { int kind; size_t n; uint64_t ref; int fault; bool refused; long relObj; bool hit = false; };
    // kind 0: allocate n (fault: 0 none, k>0: the k-th heap call from now fails, and all after it during the call)
    // kind 1: deallocate block ref

    // Runs the ops; on the first pass decides what is refused, on the second pass skips what was refused
    // and requires every other outcome to be the same.
    struct Runner
    {
        const zoo::Entry& e; std::vector<Op>& ops; bool second;
        uint64_t refusals = 0, okAfterRefusal = 0, faults = 0;
    };
}

static void* faulty(zoo::Any* a, size_t n, int fault)
{
    if (fault) heap::failFrom(fault - 1, 1000000);
    void* p = a->allocate(n);
    if (fault) heap::failFrom(-1, 0);
    return p;
}

static void refusals(Src& s)
{
    drawPlans(s, 5, false);
    leaf::Plan saved[leaf::NID]; for (int i = 0; i < leaf::NID; i++) saved[i] = leaf::plan[i];
    const zoo::Entry& e = drawEntry(s);
    std::vector<Op> ops;
    uint64_t nRefused = 0, okAfter = 0, giants = 0, faulted = 0;
    uint64_t firstAllocs[leaf::NID];
    {
        History h(e);
        h.create();
        s.maxSteps = 20 + 3 * s.sizeHint();
        while (s.more(40))
        {
            pbt::Span sp;
            static const unsigned w[] = { 8, 5, 3, 2 };
            switch (s.pick(w))
            {
            case 0: case 2: case 3:
            {
                static const unsigned w2[] = { 6, 2, 2 };
                unsigned what = s.pick(w2);
                bool giant = what == 1; int fault = what == 2 ? int(s.range(1, 3)) : 0;
                size_t n = giant ? drawGiant(s) : drawSize(s);
                Op op{0, n, 0, fault, false, 0};
                size_t beforeLeaf = leaf::liveBlocks();
                uint64_t inj = heap::failuresInjected();
                if (giant)
                {
                    giants++;
                    void* p = h.inst[0]->allocate(n);
                    pbt::log("#0.alloc(%zu)=%s", n, p ? "ok" : "null");
                    h.step();
                    CHECK(p == nullptr, "a request of %zu bytes returned a block", n);
                    h.verify();
                    op.refused = true;
                }
                else
                {
                    if (fault) heap::failFrom(fault - 1, 1000000);
                    int k = h.allocate(0, n);
                    if (fault) heap::failFrom(-1, 0);
                    op.hit = fault && heap::failuresInjected() > inj; op.refused = k < 0; op.ref = k < 0 ? 0 : h.live[k].seq;
                    if (fault && heap::failuresInjected() > inj) { faulted++; pbt::log("(heap failed)"); }
                }
                if (op.refused)
                {
                    nRefused++;
                    h.verify();
                    CHECK(leaf::liveBlocks() == beforeLeaf, "a refused request took %zd blocks from an underlying allocator", (ssize_t)(leaf::liveBlocks() - beforeLeaf));
                }
                else if (nRefused) okAfter++;
                ops.push_back(op);
                break;
            }
            default: if (!h.live.empty()) { size_t k = h.pickLive(s); ops.push_back({1, 0, h.live[k].seq, 0, false, 0}); h.deallocate(k); } break;
            }
        }
        h.freeAll(s); h.destroyAll(); h.balance();
        for (int i = 0; i < leaf::NID; i++) firstAllocs[i] = leaf::stat[i].allocs;
    }
    if (nRefused && okAfter) pbt::nontrivial();
    if (giants) pbt::label("arithmetically enormous request");
    if (faulted) pbt::label("injected heap failure");
    if (nRefused) pbt::label("refusal");
    // the same history without some or all of the refused requests: every other request, refused ones included,
    // must have the same outcome
    resetAll();
    for (int i = 0; i < leaf::NID; i++) leaf::plan[i] = saved[i];
    unsigned keep = unsigned(s.draw(3));    // 0: none, 1: the refused ones from a point on, 2: any
    uint64_t from = keep == 1 ? s.range(0, nRefused) : 0, idx = 0;
    pbt::log("-- again without %s refused requests", keep == 0 ? "the" : keep == 1 ? "the first" : "some");
    unsigned kept = 0;
    {
        History h(e);
        h.create();
        std::map<uint64_t, uint64_t> seqOf;
        for (auto& op : ops)
        {
            if (op.kind == 0)
            {
                if (op.refused)
                {
                    idx++;
                    bool again = keep == 1 ? idx > from : keep == 2 ? s.flag() : false;
                    if (!again || op.fault || op.n >= giantFloor()) continue;
                    int k = h.allocate(0, op.n);
                    CHECK(k < 0, "a request of %zu bytes is refused after refused requests but succeeds without them", op.n);
                    kept++;
                    continue;
                }
                uint64_t inj = heap::failuresInjected();
                if (op.fault) heap::failFrom(op.fault - 1, 1000000);
                int k = h.allocate(0, op.n);
                if (op.fault)    // which heap call fails, and so who serves the request, may depend on refused work before: inconclusive, drop
                {
                    heap::failFrom(-1, 0);
                    if (k < 0 || op.hit || heap::failuresInjected() > inj) { h.freeAll(s); h.destroyAll(); pbt::label("dropped: a heap failure hit a served request"); return; }
                }
                CHECK(k >= 0, "a request of %zu bytes succeeded in a history with refused requests but is refused without them", op.n);
                seqOf[op.ref] = h.live[k].seq;
            }
            else
            {
                for (size_t k = 0; k < h.live.size(); k++) if (h.live[k].seq == seqOf[op.ref]) { h.deallocate(k); break; }
            }
        }
        h.freeAll(s); h.destroyAll(); h.balance();
    }
    if (kept) pbt::label("refused requests repeated without earlier ones");
    (void)firstAllocs;
}

// The other direction: insert refused requests (giant sizes, heap failures) into a history in which everything
// succeeds; every original request must still succeed.
static void inserted(Src& s)
{
    drawPlans(s, 5, false);
    leaf::Plan saved[leaf::NID]; for (int i = 0; i < leaf::NID; i++) saved[i] = leaf::plan[i];
    const zoo::Entry& e = drawEntry(s);
    std::vector<Op> ops;
    {
        History h(e);
        h.create();
        s.maxSteps = 20 + 3 * s.sizeHint();
        while (s.more(30))
        {
            pbt::Span sp;
            if (s.flag(2, 3)) { size_t n = drawSize(s); int k = h.allocate(0, n); ops.push_back({0, n, k < 0 ? 0 : h.live[k].seq, 0, k < 0, 0}); }
            else if (!h.live.empty()) { size_t k = h.pickLive(s); ops.push_back({1, 0, h.live[k].seq, 0, false, 0}); h.deallocate(k); }
        }
        h.freeAll(s); h.destroyAll(); h.balance();
    }
    resetAll();
    for (int i = 0; i < leaf::NID; i++) leaf::plan[i] = saved[i];
    pbt::log("-- again with requests that cannot be met inserted");
    History h(e);
    unsigned ins = 0, okAfter = 0;
    h.create();
    std::map<uint64_t, uint64_t> seqOf;
    for (auto& op : ops)
    {
        if (s.flag(1, 3))
        {
            // an impossible request
            size_t n = drawGiant(s);
            size_t before = leaf::liveBlocks();
            int fault = s.flag() ? int(s.range(1, 2)) : 0;
            void* p = faulty(h.inst[0], n, fault);
            pbt::log("#0.alloc(%zu)=%s", n, p ? "ok" : "null");
            h.step(); h.verify();
            CHECK(p == nullptr, "a request of %zu bytes returned a block", n);
            CHECK(leaf::liveBlocks() == before, "a refused request took blocks from an underlying allocator");
            ins++;
        }
        if (op.kind == 0)
        {
            int k = h.allocate(0, op.n);
            CHECK((k >= 0) == !op.refused, "a request of %zu bytes %s, but %s without the refused requests before it", op.n, k >= 0 ? "succeeds" : "is refused", op.refused ? "is refused" : "succeeds");
            if (k >= 0) { seqOf[op.ref] = h.live[k].seq; if (ins) okAfter++; }
        }
        else for (size_t k = 0; k < h.live.size(); k++) if (h.live[k].seq == seqOf[op.ref]) { h.deallocate(k); break; }
    }
    if (ins && okAfter) pbt::nontrivial();
    h.freeAll(s); h.destroyAll(); h.balance();
}

// typed counts whose byte size does not fit in size_t, through type_allocator over real compositions
namespace
{
    template<size_t N> struct Big { char c[N]; };
    template<typename T, typename A> void typedOn(Src& s, A& a, const char* name)
    {
        ktl::type_allocator<T, ktl::reference<A>> t(a);
        // counts around the wrap points k * 2^64 / sizeof(T), k >= 1
        size_t k = s.range(1, sizeof(T) > 1 ? sizeof(T) - 1 : 1);
        unsigned __int128 wrap = ((unsigned __int128)1 << 64) * k;
        size_t n;
        if (sizeof(T) == 1) n = SIZE_MAX - s.draw(300);
        else
        {
            size_t base = size_t(wrap / sizeof(T));      // largest count whose size is below the wrap point
            n = base + 1 + s.draw(12);                   // wraps to a small byte size
            if ((unsigned __int128)n * sizeof(T) <= SIZE_MAX) n = SIZE_MAX - s.draw(100);
        }
        pbt::log("%s: allocate(%zu of %zu bytes; wraps to %zu)", name, n, sizeof(T), size_t(n * sizeof(T)));
        if (size_t(n * sizeof(T)) < 4096) pbt::nontrivial();
        T* p = std::allocator_traits<decltype(t)>::allocate(t, n);
        CHECK(p == nullptr, "%s: allocating %zu elements of %zu bytes (more than size_t can express) returned a block", name, n, sizeof(T));
        size_t m = s.range(1, 4);
        T* q = std::allocator_traits<decltype(t)>::allocate(t, m);
        CHECK(q != nullptr, "%s: %zu elements refused after an impossible request", name, m);
        memset((void*)q, 1, m * sizeof(T));
        std::allocator_traits<decltype(t)>::deallocate(t, q, m);
    }
    template<typename A> void typedAll(Src& s, const char* name)
    {
        zoo::TBox<A> b;
        for (unsigned i = 0; i < 2; i++)
        {
            pbt::Span sp;
            switch (s.draw(8))
            {
            case 0: typedOn<Big<1>>(s, *b.a, name); break;
            case 1: typedOn<Big<2>>(s, *b.a, name); break;
            case 2: typedOn<Big<3>>(s, *b.a, name); break;
            case 3: typedOn<Big<8>>(s, *b.a, name); break;
            case 4: typedOn<Big<12>>(s, *b.a, name); break;
            case 5: typedOn<Big<16>>(s, *b.a, name); break;
            case 6: typedOn<Big<24>>(s, *b.a, name); break;
            default: typedOn<Big<40>>(s, *b.a, name); break;
            }
        }
    }
}
static void typed(Src& s)
{
    using namespace ktl; using namespace zoo;
    switch (s.draw(8))
    {
    case 0: typedAll<mallocator>(s, "mallocator"); break;
    case 1: typedAll<linear_allocator<4096>>(s, "linear<4096>"); break;
    case 2: typedAll<dstack<4096, 9>>(s, "stack<4096>"); break;
    case 3: typedAll<cascading<linear_allocator<4096>>>(s, "cascading<linear<4096>>"); break;
    case 4: typedAll<fallback<linear_allocator<64>, mallocator>>(s, "fallback<linear<64>, mallocator>"); break;
    case 5: typedAll<segragator<64, linear_allocator<512>, leaf::R<0, 0>>>(s, "segragator<64, linear<512>, leaf>"); break;
    case 6: typedAll<doverflow<leaf::R<0, 0>>>(s, "overflow<leaf>"); break;
    default: typedAll<freelist<0, 256, leaf::H<0, 0>>>(s, "freelist<0, 256, leaf>"); break;
    }
    leaf::runHooks(); leaf::checkErrors();
    CHECK(leaf::liveBlocks() == 0 && heap::liveBlocks() == g_heapBase, "memory leaked");
    CHECK(sink().text.empty(), "overflow reported: %s", sink().text.c_str());
}

// the system heap refuses memory at any point, also while allocators are created
static void heapFaults(Src& s)
{
    const zoo::Entry& e = drawEntry(s, [](const zoo::Entry& x) { return strstr(x.name, "mal") || strstr(x.name, "cascading") || strstr(x.name, "shared"); });
    History h(e);
    uint64_t inj = heap::failuresInjected();
    h.contents = true;
    {
        bool f = s.flag();
        if (f) { heap::failFrom(0, 1); pbt::log("(heap fails once)"); }
        h.create();
        heap::failFrom(-1, 0);
    }
    if (heap::failuresInjected() > inj) pbt::label("heap failure while creating the allocator");
    unsigned later = 0;
    s.maxSteps = 60;
    while (s.more(20))
    {
        pbt::Span sp;
        if (s.flag(2, 3))
        {
            bool f = s.flag(1, 3); uint64_t b = heap::failuresInjected();
            if (f) heap::failFrom(int64_t(s.draw(3)), int64_t(s.range(1, 3)));
            int k = h.allocate(0, drawSize(s));
            heap::failFrom(-1, 0);
            if (heap::failuresInjected() > b) { pbt::log("(heap failed)"); pbt::nontrivial(); }
            else if (k >= 0 && heap::failuresInjected() > inj) later++;
        }
        else if (!h.live.empty()) h.deallocate(h.pickLive(s));
    }
    if (later) pbt::label("success after a heap failure");
    h.freeAll(s); h.destroyAll(); h.balance();
}
pbt::Prop pbt::props[] = {
    {"refusals", refusals, 3, "a history is non-trivial if at least one request was refused and a later one succeeded; it is then run again without the refused requests and must behave the same"},
    {"inserted", inserted, 3, "non-trivial if impossible requests were inserted and later original requests succeeded"},
    {"typed", typed, 2, "non-trivial if the byte size of the element count wraps to less than 4096"},
    {"heapFaults", heapFaults, 3, "non-trivial if an injected heap failure hit a request"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
