// C33: compositions over allocators whose size type is narrower than size_t truncate nothing
#include "driver.h"
#include <list>
#include <map>
using namespace drv;

namespace
{
    // an arena with a size type of its own; what it is asked for is what it gives
    template<int ID, typename S, unsigned F = leaf::OWNS | leaf::MAXS> class N : public leaf::R<ID, F>
    {
        typedef leaf::R<ID, F> Base;
    public:
        typedef S size_type;
        static constexpr size_t most = std::numeric_limits<S>::max();
        void* allocate(S n) noexcept { return Base::allocate(n); }
        void deallocate(void* p, S n) noexcept { Base::deallocate(p, n); }
        template<unsigned X = F> std::enable_if_t<(X & leaf::MAXS) != 0, S> max_size() const noexcept { return S(std::min(most, leaf::plan[ID].maxReq)); }
    };
    template<int ID> using n8 = N<ID, uint8_t>; template<int ID> using n16 = N<ID, uint16_t>; template<int ID> using n32 = N<ID, uint32_t>;
    template<int ID> using m8 = N<ID, uint8_t, 0>; template<int ID> using m16 = N<ID, uint16_t, 0>; template<int ID> using m32 = N<ID, uint32_t, 0>;
    template<int ID> using w = leaf::R<ID, leaf::OWNS | leaf::MAXS>; template<int ID> using wo = leaf::R<ID, 0>;

    // what the composition may be asked for, and the largest request it can possibly serve: that of any leaf
    template<typename A> struct most { static constexpr size_t ask = SIZE_MAX, serve = SIZE_MAX; static constexpr bool maxs = true; };
    template<int ID, typename S, unsigned F> struct most<N<ID, S, F>> { static constexpr size_t ask = std::numeric_limits<S>::max(), serve = ask; };
    template<size_t A, size_t B, typename T> struct most<ktl::freelist<A, B, T>> : most<T> {};
    template<typename T> struct most<ktl::cascading<T>> : most<T> {};
    template<typename T> struct most<ktl::threaded<T>> : most<T> {};
    template<typename T, template<typename> typename At> struct most<ktl::shared<T, At>> : most<T> {};
    template<typename T> struct most<zoo::doverflow<T>> { static constexpr size_t ask = most<T>::ask, serve = most<T>::ask - 128; };
    template<typename P, typename F> struct most<ktl::fallback<P, F>> { static constexpr size_t ask = std::max(most<P>::ask, most<F>::ask), serve = std::max(most<P>::serve, most<F>::serve); };
    template<size_t T, typename P, typename F> struct most<ktl::segragator<T, P, F>> : most<ktl::fallback<P, F>> {};

    size_t drawN(Src& s, size_t ask)
    {
        static const size_t edges[] = { 0x80, 0xff, 0x100, 0x101, 0x110, 0x7fff, 0x8000, 0xff7f, 0xff80, 0xffff, 0x10000, 0x10001, 0x10010, 0x18000, 0x20000 };
        static const size_t far[] = { 0x7fffffff, 0xffffff80, 0xffffffff, 0x100000000, 0x100000008, 0x100000040, 0x10000000000, SIZE_MAX >> 1, SIZE_MAX };
        static const unsigned wt[] = { 4, 4, 3, 2, 2 }; size_t n;
        switch (s.pick(wt))
        {
        case 0: n = s.range(0, 80); break;
        case 1: n = s.of(edges) + s.draw(4); break;
        case 2: n = s.range(0, 700); break;
        case 3: n = s.of(far) - s.draw(3); break;
        default: n = s.range(0, 70000); break;
        }
        return n > ask ? n & ask : n;
    }
    bool narrowed;          // a request met a leaf it cannot be expressed for

    template<typename A> void blocks(Src& s, const char* name, size_t narrow)
    {
        pbt::log("%s", name);
        for (int i = 0; i < 3; i++) { leaf::plan[i].maxReq = s.flag(1, 4) ? s.range(100, 80000) : size_t(1) << 20; leaf::plan[i].budget = s.flag(1, 4) ? s.range(0, 100000) : SIZE_MAX; }
        constexpr size_t ask = most<A>::ask, serve = most<A>::serve;
        static_assert(std::is_same_v<decltype(std::declval<A&>().max_size()), typename A::size_type>);
        CHECK(size_t(std::numeric_limits<typename A::size_type>::max()) >= ask, "the size type of the composition cannot express the requests it should take");
        unsigned big = 0, served = 0;
        {
            auto a = std::make_unique<A>();
            struct B { char* p; size_t n; uint32_t pat; }; std::vector<B> live; uint32_t pats = 0; size_t bytes = 0;
            auto verify = [&] { leaf::checkErrors(); for (auto& b : live) CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content of a live block of %zu bytes changed", b.n); };
            s.maxSteps = 25;
            while (s.more(20))
            {
                pbt::Span sp;
                if (s.flag(2, 3))
                {
                    size_t n = drawN(s, ask); if (bytes > (1u << 20)) n &= 255;
                    typename A::size_type max = a->max_size();
                    char* p = (char*)a->allocate(typename A::size_type(n));
                    pbt::log("alloc(%zu)=%s", n, p ? "ok" : "null"); leaf::checkErrors();
                    CHECK(!p || n <= serve, "a block was given for %zu bytes, which no underlying allocator can be asked for", n);
                    CHECK(!p || n <= max, "max_size() was %zu but %zu bytes were allocated", size_t(max), n);
                    big += n > narrow; if (!p) continue;
                    size_t size = leaf::blockSize(p); CHECK(size >= n, "a block of %zu bytes was given for a request of %zu", size, n);
                    served++; fill(p, n, ++pats); live.push_back({p, n, pats}); bytes += n;
                }
                else if (!live.empty())
                {
                    size_t k = s.draw(live.size()); B b = live[k]; live.erase(live.begin() + k); bytes -= b.n;
                    CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content of a live block changed"); pbt::log("free(%zu)", b.n);
                    a->deallocate(b.p, typename A::size_type(b.n));
                }
                verify();
            }
            while (!live.empty()) { a->deallocate(live.back().p, typename A::size_type(live.back().n)); live.pop_back(); verify(); }
        }
        leaf::checkErrors(); CHECK(leaf::liveBlocks() == 0 && heap::liveBlocks() == g_heapBase, "memory leaked");
        CHECK(zoo::sink().text.empty(), "overflow reported: %s", zoo::sink().text.c_str());
        if (big >= 1 && served >= 2) pbt::nontrivial();
    }
    template<typename T, typename A> void typedBlocks(Src& s, const char* name)
    {
        typedef ktl::type_allocator<T, A> K; pbt::log("%s of %zu bytes", name, sizeof(T));
        unsigned big = 0, served = 0;
        {
            K a; struct B { T* p; size_t n; uint32_t pat; }; std::vector<B> live; uint32_t pats = 0;
            constexpr size_t ask = most<A>::ask, serve = most<A>::serve;
            s.maxSteps = 20;
            while (s.more(15))
            {
                pbt::Span sp;
                if (s.flag(2, 3))
                {
                    size_t n = s.flag() ? drawN(s, ask) : (drawN(s, SIZE_MAX) / sizeof(T) + s.draw(3)) & ask;
                    if (n > SIZE_MAX / sizeof(T) && s.flag()) n /= sizeof(T);
                    T* p = a.allocate(n); pbt::log("alloc(%zu)=%s", n, p ? "ok" : "null"); leaf::checkErrors();
                    CHECK(!p || n <= serve / sizeof(T), "a block was given for %zu objects of %zu bytes", n, sizeof(T));
                    if constexpr (zoo::has_max<A>::value) CHECK(!p || n <= a.max_size(), "max_size() is %zu but %zu objects were allocated", size_t(a.max_size()), n);
                    big += n > ask / sizeof(T); if (!p) continue;
                    CHECK(leaf::blockSize(p) >= n * sizeof(T), "a block of %zu bytes was given for %zu objects of %zu bytes", leaf::blockSize(p), n, sizeof(T));
                    served++; fill((char*)p, n * sizeof(T), ++pats); live.push_back({p, n, pats});
                }
                else if (!live.empty()) { size_t k = s.draw(live.size()); B b = live[k]; live.erase(live.begin() + k); a.deallocate(b.p, b.n); pbt::log("free(%zu)", b.n); }
                for (auto& b : live) CHECK(firstDiff((char*)b.p, b.n * sizeof(T), b.pat) == SIZE_MAX, "content of a live block changed");
                leaf::checkErrors();
            }
            while (!live.empty()) { a.deallocate(live.back().p, live.back().n); live.pop_back(); }
        }
        leaf::checkErrors(); CHECK(leaf::liveBlocks() == 0 && heap::liveBlocks() == g_heapBase, "memory leaked");
        if (served && big) pbt::nontrivial();
    }
    // more handles, or blocks in one instance, than the size type can count
    template<typename H> void handles(Src& s, const char* name)
    {
        size_t n = s.range(200, 600); pbt::log("%zu handles of %s", n, name);
        {
            std::list<H> l(1); void* p = l.front().allocate(8); CHECK(p, "harness");
            bool assign = s.flag();
            for (size_t i = 1; i < n; i++) { if (assign) { l.emplace_back(); l.back() = l.front(); } else l.push_back(l.front()); }
            leaf::checkErrors(); memset(p, 1, 8);
            unsigned order = unsigned(s.draw(3));
            while (l.size() > 1)
            {
                if (order == 0) l.pop_back(); else if (order == 1) l.pop_front(); else l.erase(std::next(l.begin(), s.draw(std::min<size_t>(l.size(), 8))));
                leaf::checkErrors(); CHECK(leaf::liveBlocks() == 1, "the block is gone although %zu handles are left", l.size());
            }
            memset(p, 2, 8); l.front().deallocate(p, 8); leaf::checkErrors();
        }
        CHECK(leaf::ownInstances() == 0 && heap::liveBlocks() == g_heapBase, "the shared instance was never destroyed");
        if (n > 256) pbt::nontrivial();
    }
    template<typename A> void manyBlocks(Src& s, const char* name)
    {
        size_t n = s.range(200, 600); pbt::log("%zu blocks in %s", n, name);
        leaf::plan[0].budget = SIZE_MAX; leaf::plan[0].maxReq = 1000;
        {
            A a; std::vector<void*> v; unsigned order = unsigned(s.draw(3)); size_t z = s.range(1, 16);
            for (size_t i = 0; i < n; i++) { void* p = a.allocate(typename A::size_type(z)); CHECK(p, "harness"); v.push_back(p); memset(p, 3, z); }
            leaf::checkErrors();
            while (!v.empty())
            {
                size_t k = order == 0 ? v.size() - 1 : order == 1 ? 0 : s.draw(v.size()); void* p = v[k]; v.erase(v.begin() + k);
                CHECK(a.owns(p), "a live block is not owned"); a.deallocate(p, typename A::size_type(z)); leaf::checkErrors();
                CHECK(leaf::liveBlocks() == v.size(), "%zu blocks are live, %zu were not deallocated", leaf::liveBlocks(), v.size());
            }
        }
        CHECK(leaf::ownInstances() == 0 && heap::liveBlocks() == g_heapBase, "an instance was never destroyed");
        if (n > 256) pbt::nontrivial();
    }
}

static void requests(Src& s)
{
    using namespace ktl;
#define B(narrow, ...) blocks<__VA_ARGS__>(s, #__VA_ARGS__, narrow)
    switch (s.draw(20))
    {
    case 0: B(255, fallback<n8<0>, w<1>>); break;
    case 1: B(65535, fallback<n16<0>, w<1>>); break;
    case 2: B(65535, fallback<w<0>, n16<1>>); break;
    case 3: B(255, fallback<n16<0>, n8<1>>); break;
    case 4: B(UINT32_MAX, fallback<n32<0>, w<1>>); break;
    case 5: B(255, fallback<n8<0>, fallback<n16<1>, w<2>>>); break;
    case 6: B(255, segragator<1000, n8<0>, w<1>>); break;
    case 7: B(65535, segragator<64, w<0>, n16<1>>); break;
    case 8: B(255, segragator<70000, n16<0>, n8<1>>); break;
    case 9: B(255, segragator<200, n16<0>, n8<1>>); break;
    case 10: B(65535, fallback<freelist<0, 64, n16<0>>, w<1>>); break;
    case 11: B(255, fallback<cascading<n8<0>>, w<1>>); break;
    case 12: B(65535, shared<fallback<n16<0>, w<1>>>); break;
    case 13: B(255, cascading<fallback<n8<0>, n16<1>>>); break;
    case 14: B(65535, freelist<8, 300, fallback<n16<0>, w<1>>>); break;
    case 15: B(255, fallback<n8<0>, shared<w<2>>>); break;
    case 16: B(255, fallback<n8<0>, shared<n16<1>>>); break;
    case 17: B(65535, segragator<100, freelist<0, 100, n8<0>>, fallback<n16<1>, w<2>>>); break;
    case 18: B(255, fallback<atomic_shared<threaded<n8<0>>>, n32<1>>); break;
    default: B(65535, fallback<zoo::doverflow<n16<0>>, w<1>>); break;
    }
#undef B
}
static void typed(Src& s)
{
    using namespace ktl;
#define B(T, ...) typedBlocks<T, __VA_ARGS__>(s, #__VA_ARGS__)
    for (int i = 0; i < 3; i++) leaf::plan[i].maxReq = size_t(1) << 20;
    struct S3 { char c[3]; }; struct S48 { char c[48]; };
    switch (s.draw(10))
    {
    case 0: B(int, shared<m8<0>>); break;
    case 1: B(int, shared<n16<0>>); break;
    case 2: B(S3, shared<n16<0>>); break;
    case 3: B(S48, shared<fallback<n16<0>, w<1>>>); break;
    case 4: B(int, shared<segragator<100, n8<0>, m16<1>>>); break;
    case 5: B(S3, shared<n32<0>>); break;
    case 6: B(char, shared<fallback<n8<0>, m16<1>>>); break;
    case 7: B(double, shared<freelist<0, 64, m16<0>>>); break;
    case 8: B(S48, atomic_shared<threaded<cascading<n16<0>>>>); break;
    default: B(S48, shared<m8<0>>); break;
    }
#undef B
}
static void counts(Src& s)
{
    using namespace ktl;
    for (int i = 0; i < 3; i++) leaf::plan[i].maxReq = size_t(1) << 20;
    switch (s.draw(7))
    {
    case 0: handles<shared<n8<0>>>(s, "shared<n8>"); break;
    case 1: handles<atomic_shared<n8<0>>>(s, "atomic_shared<n8>"); break;
    case 2: handles<shared<fallback<n8<0>, m8<1>>>>(s, "shared<fallback<n8, n8>>"); break;
    case 3: handles<atomic_shared<threaded<freelist<0, 32, n8<0>>>>>(s, "atomic_shared<threaded<freelist<n8>>>"); break;
    case 4: manyBlocks<cascading<n8<0>>>(s, "cascading<n8>"); break;
    case 5: manyBlocks<cascading<fallback<n8<0>, n8<1>>>>(s, "cascading<fallback<n8, n8>>"); break;
    default: manyBlocks<fallback<cascading<n8<0>>, n8<1>>>(s, "fallback<cascading<n8>, n8>"); break;
    }
}
pbt::Prop pbt::props[] = {
    {"requests", requests, 3, "non-trivial if blocks were given and a request exceeded the size type of an underlying allocator"},
    {"typed", typed, 2, "non-trivial if blocks were given and the bytes of a request exceeded the size type below"},
    {"counts", counts, 1, "non-trivial if there were more handles or blocks than the size type can count"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
