// C06: max_size() bounds every request and is always callable
#include "driver.h"
using namespace drv;

static void maxZoo(Src& s)
{
    drawPlans(s);
    History h(drawEntry(s, [](const zoo::Entry& e) { return e.maxs; }));
    const zoo::Entry& e = h.e;
    auto report = [&](int i)
    {
        size_t m = h.inst[i]->max_size();
        if (e.maxKnown) CHECK(m == e.maxVal(), "max_size() reports %zu, expected %zu", m, e.maxVal());
        size_t t = h.inst[i]->tMax();
        CHECK(t == m / sizeof(zoo::Obj), "typed max_size() reports %zu for elements of %zu bytes and a limit of %zu bytes", t, sizeof(zoo::Obj), m);
        h.step();
        return m;
    };
    h.create();
    bool asked = s.flag(2, 3);
    if (asked) { report(0); h.verify(); }
    s.maxSteps = 10 + 2 * s.sizeHint();
    unsigned over = 0;
    while (s.more(25))
    {
        pbt::Span sp;
        static const unsigned w[] = { 5, 4, 3, 2 };
        switch (s.pick(w))
        {
        case 0: case 3:
        {
            size_t n = drawSize(s);
            size_t m = s.flag() ? report(0) : SIZE_MAX;
            int k = h.allocate(0, n);
            size_t m2 = report(0);
            if (k >= 0) CHECK(n <= m && n <= m2, "a request of %zu bytes succeeded although max_size() is %zu", n, m == SIZE_MAX ? m2 : m);
            break;
        }
        case 1:
        {
            size_t m = report(0);
            if (m >= (size_t(1) << 26)) break;
            size_t n = m + 1 + (s.flag() ? s.draw(40) : 0);
            int k = h.allocate(0, n); over++;
            CHECK(k < 0, "a request of %zu bytes succeeded although max_size() is %zu", n, m);
            break;
        }
        default: if (!h.live.empty()) h.deallocate(h.pickLive(s)); break;
        }
    }
    if (h.allocs && over) pbt::nontrivial();
    if (asked) pbt::label("asked before the first allocation");
    report(0);
    h.freeAll(s); report(0);
    h.destroyAll(); h.balance();
}

// typed limits for element sizes that do not divide the byte limit, copies, and the STL view
namespace
{
    template<size_t N> struct El { char c[N]; };
    template<size_t Size, size_t N> void one(Src& s)
    {
        pbt::log("limit %zu, elements of %zu", Size, N);
        pbt::nontrivial();
        auto l = std::make_unique<ktl::linear_allocator<Size>>();
        auto st = std::make_unique<ktl::stack<Size>>();
        ktl::type_allocator<El<N>, ktl::reference<ktl::linear_allocator<Size>>> a(*l);
        ktl::type_allocator<El<N>, ktl::stack_allocator<Size>> b(*st);
        ktl::type_allocator<El<N>, ktl::shared<ktl::linear_allocator<Size>>> c;
        ktl::type_shared_cascading_allocator<El<N>, ktl::linear_allocator<Size>> d;
        CHECK(a.max_size() == Size / N && b.max_size() == Size / N && c.max_size() == Size / N && d.max_size() == Size / N, "typed max_size() is %zu/%zu/%zu/%zu, expected %zu", size_t(a.max_size()), size_t(b.max_size()), size_t(c.max_size()), size_t(d.max_size()), Size / N);
        size_t n = Size / N + 1 + s.draw(3);
        CHECK(!a.allocate(n) && !b.allocate(n) && !c.allocate(n) && !d.allocate(n), "more than max_size() elements allocated");
        typename std::allocator_traits<decltype(c)>::template rebind_alloc<El<7>> r(c);
        CHECK(r.max_size() == Size / 7, "rebound max_size() is %zu, expected %zu", size_t(r.max_size()), Size / 7);
        // mallocator has no max_size(): allocator_traits supplies the default
        ktl::type_mallocator<El<N>> m;
        CHECK(std::allocator_traits<decltype(m)>::max_size(m) == SIZE_MAX / N, "default max_size() wrong");
    }
}
static void maxTyped(Src& s)
{
    switch (s.draw(6))
    {
    case 0: one<64, 8>(s); break; case 1: one<100, 8>(s); break; case 2: one<1000, 24>(s); break;
    case 3: one<48, 64>(s); break; case 4: one<16, 3>(s); break; default: one<4096, 40>(s); break;
    }
}
pbt::Prop pbt::props[] = {
    {"maxZoo", maxZoo, 20, "non-trivial if blocks were allocated and requests just above max_size() were made"},
    {"maxTyped", maxTyped, 1, "each case: one byte limit and element size on five typed allocators"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
