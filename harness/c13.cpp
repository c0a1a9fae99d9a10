// C13: overflow's leak and construct accounting is exact
#include "driver.h"
#include "report.h"
#include <optional>
#include <sys/mman.h>
using namespace drv;

namespace
{
    // Underlying allocator that survives unbalanced histories: nothing is reused before the end of the case,
    // and every block has room around it.
    std::vector<char*> slabs; bool refuse; uint64_t seen[2];
    template<bool C> struct Lax
    {
        bool operator==(const Lax&) const { return true; }
        bool operator!=(const Lax&) const { return false; }
        void* allocate(size_t n) noexcept
        {
            if (refuse || n > 1 << 16) return nullptr;
            char* p = (char*)::operator new(n + 16384); memset(p, 0, n + 16384); slabs.push_back(p); return p + 8192;
        }
        void deallocate(void*, size_t) noexcept {}
        size_t max_size() const noexcept { return 1 << 16; }
        template<typename T, typename... X, bool B = C> std::enable_if_t<B> construct(T* p, X&&... x) { seen[0]++; ::new ((void*)p) T(std::forward<X>(x)...); }
        template<typename T, bool B = C> std::enable_if_t<B> destroy(T* p) { seen[1]++; p->~T(); }
    };
    // Blocks of several GiB, of which only the touched pages exist
    std::vector<std::pair<char*, size_t>> maps;
    struct Vast
    {
        bool operator==(const Vast&) const { return true; }
        bool operator!=(const Vast&) const { return false; }
        void* allocate(size_t n) noexcept
        {
            if (refuse || n > size_t(1) << 35) return nullptr;
            void* p = mmap(nullptr, n + 16384, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) return nullptr;
            maps.push_back({(char*)p, n + 16384}); return (char*)p + 8192;
        }
        void deallocate(void*, size_t) noexcept {}
    };
    struct Item { long v; Item(long x = 0) : v(x) {} ~Item() {} };

    template<typename A> void run(Src& s, const char* name, bool strict, bool vast = false, bool moves = true)
    {
        typedef ktl::overflow<A, zoo::Sink> O; typedef ktl::type_allocator<Item, ktl::reference<O>> T; typedef std::allocator_traits<T> Tr;
        pbt::log("overflow<%s>", name);
        leaf::atCaseEnd([] { for (char* p : slabs) ::operator delete(p); slabs.clear(); for (auto& [p, n] : maps) munmap(p, n); maps.clear(); refuse = false; });
        drawPlans(s, 1);
        zoo::Sink out; long long bytes = 0, objs = 0; uint64_t refused = 0, ops = 0;
        struct B { char* p; size_t n; }; std::vector<B> live, dead;
        static Item pool[8]; for (auto& i : pool) i.v = 0;
        {
            auto o = std::make_unique<O>(out); std::optional<T> t(*o);
            bool balanced = s.flag(2, 5);        // respects every precondition and gives everything back
            if (strict) balanced = true;
            bool leak = !balanced && s.flag(), over = !balanced && s.flag();
            std::vector<Item*> built;
            s.maxSteps = 10 + 4 * s.sizeHint();
            auto silent = [&](const char* what) { leaf::checkErrors(); CHECK(out.text.empty(), "%s produced output: %s", what, out.text.c_str()); };
            auto release = [&](size_t k)
            {
                B b = live[k]; live.erase(live.begin() + k); pbt::log("free(%zu)", b.n);
                o->deallocate(b.p, b.n); bytes -= (long long)b.n; dead.push_back(b); silent("a correct deallocation");
            };
            while (s.more(40))
            {
                pbt::Span sp;
                static const unsigned w[] = { 6, 5, 3, 3, 1, 1, 1, 1, 1 };
                switch (s.pick(w))
                {
                case 0:
                {
                    size_t n = s.flag(1, 30) ? drawGiant(s) : drawSize(s);
                    if (vast && s.flag(2, 3)) n = (size_t(1) << s.range(31, 33)) * s.range(1, 3) - 200 + s.draw(400);
                    refuse = s.flag(1, 6);
                    bool typed = s.flag(1, 3) && (vast || n < 4096);
                    char* p; if (typed) { n = n / sizeof(Item); p = (char*)t->allocate(n); n *= sizeof(Item); } else p = (char*)o->allocate(n);
                    refuse = false; ops++;
                    pbt::log("alloc(%zu)=%s", n, p ? "ok" : "null");
                    if (!p) { refused++; silent("a refused request"); break; }
                    bytes += (long long)n; live.push_back({p, n}); silent("an allocation");
                    break;
                }
                case 1: if (!live.empty()) release(s.draw(live.size())); break;
                case 2:   // construct
                {
                    Item* i = &pool[s.draw(8)];
                    bool used = std::find(built.begin(), built.end(), i) != built.end();
                    if (used && balanced) break;
                    pbt::log("construct"); uint64_t k = seen[0]; long v = (long)s.draw(100);
                    if (s.flag()) o->construct(i, v); else Tr::construct(*t, i, v);
                    CHECK(i->v == v, "object not constructed"); (void)k;
                    objs++; if (!used) built.push_back(i); silent("construct");
                    break;
                }
                case 3:   // destroy
                {
                    if (built.empty()) break;
                    size_t k = s.draw(built.size()); Item* i = built[k]; built.erase(built.begin() + k);
                    pbt::log("destroy");
                    if (s.flag()) o->destroy(i); else Tr::destroy(*t, i);
                    objs--; silent("destroy");
                    break;
                }
                case 4: if (over) { pbt::log("extra destroy"); o->destroy(&pool[s.draw(8)]); objs--; silent("destroy"); } break;
                case 5:   // same block once more
                    if (over && !dead.empty()) { B b = dead[s.draw(dead.size())]; pbt::log("free again(%zu)", b.n); o->deallocate(b.p, b.n); bytes -= (long long)b.n; out.text.clear(); }
                    break;
                case 6:   // many at once
                {
                    if (!vast || balanced || !s.flag(1, 4)) break;
                    unsigned n = unsigned(s.range(30000, 140000)); bool up = s.flag();
                    pbt::log("%u times %s", n, up ? "construct" : "destroy");
                    for (unsigned i = 0; i < n; i++) if (up) o->construct(&pool[0], 0L); else o->destroy(&pool[0]);
                    objs += up ? (long long)n : -(long long)n; silent("construct and destroy");
                    break;
                }
                case 7:   // the history goes on in another object; the one moved from has nothing left to report
                {
                    if (!moves) break;
                    pbt::log("move"); pbt::label("moved");
                    auto to = std::make_unique<O>(std::move(*o)); silent("moving the allocator");
                    o.reset(); silent("destroying a moved-from allocator");
                    o = std::move(to); t.emplace(*o);
                    break;
                }
                default:  // wrong size
                    if (over && !live.empty())
                    {
                        size_t k = s.draw(live.size()); B b = live[k]; live.erase(live.begin() + k);
                        size_t n = s.flag() ? b.n + s.range(1, 200) : b.n - s.draw(b.n + 1);
                        pbt::log("free(%zu) with size %zu", b.n, n); o->deallocate(b.p, n); bytes -= (long long)n; out.text.clear();
                    }
                    break;
                }
            }
            if (!leak) while (!live.empty()) release(live.size() - 1);
            if (balanced) while (!built.empty()) { o->destroy(built.back()); objs--; built.pop_back(); }
            silent("the history");
            pbt::log("destroy allocator: bytes %lld, objects %lld", bytes, objs);
            out.text.clear();
            o.reset();
        }
        std::string t = out.text;
        if (ops >= 2) pbt::nontrivial();
        if (bytes || objs) pbt::label("unbalanced history"); else pbt::label("balanced history");
        if (refused) pbt::label("with refused requests");
        if (!bytes && !objs) CHECK(t.empty(), "a balanced history was reported: %s", t.c_str());
        CHECK(rep::count(t, "MEMORY LEAK DETECTED") == (bytes != 0), "allocated minus deallocated is %lld bytes; report: %s", bytes, t.empty() ? "none" : t.c_str());
        CHECK(rep::count(t, "LOGIC ERROR DETECTED") == (objs != 0), "constructed minus destroyed is %lld; report: %s", objs, t.empty() ? "none" : t.c_str());
        CHECK(rep::count(t, "CORRUPTION") == 0, "corruption reported at destruction: %s", t.c_str());
        long long a = rep::number(t, "Allocated memory"), f = rep::number(t, "Too many frees"), c = rep::number(t, "Too many constructor calls"), d = rep::number(t, "Too many destructor calls");
        CHECK(a == (bytes > 0 ? bytes : -1) && f == (bytes < 0 ? -bytes : -1), "allocated minus deallocated is %lld bytes; report: %s", bytes, t.c_str());
        CHECK(c == (objs > 0 ? objs : -1) && d == (objs < 0 ? -objs : -1), "constructed minus destroyed is %lld; report: %s", objs, t.c_str());
        leaf::checkErrors();
        if (strict) CHECK(leaf::liveBlocks() == 0 && heap::liveBlocks() == g_heapBase, "memory leaked");
    }
}
static void accounting(Src& s)
{
    switch (s.draw(4))
    {
    case 0: case 1: run<Lax<false>>(s, "lax leaf", false); break;
    default: run<Lax<true>>(s, "lax leaf with construct", false); break;
    }
}
static void balanced(Src& s)
{
    using namespace ktl;
    switch (s.draw(7))
    {
    case 0: run<leaf::R<0, 0>>(s, "leaf", true); break;
    case 1: run<leaf::R<0, leaf::MAXS>>(s, "leaf with max_size", true); break;
    case 2: run<linear_allocator<2048>>(s, "linear<2048>", true, false, false); break;
    case 3: run<freelist<0, 256, leaf::R<0, 0>>>(s, "freelist<0,256,leaf>", true); break;
    case 4: run<cascading<linear_allocator<512>>>(s, "cascading<linear<512>>", true); break;
    case 5: run<fallback<linear_allocator<512>, leaf::R<0, 0>>>(s, "fallback<linear<512>,leaf>", true, false, false); break;
    default: run<mallocator>(s, "mallocator", true); break;
    }
}
// totals beyond 2^32 bytes, and beyond 2^16 objects
static void large(Src& s) { run<Vast>(s, "blocks of several GiB", false, true); }
pbt::Prop pbt::props[] = {
    {"accounting", accounting, 2, "histories with leaks, double and wrong-size deallocation, surplus construct/destroy; non-trivial if at least two requests were made"},
    {"balanced", balanced, 1, "balanced histories over other compositions, with refusals; non-trivial if at least two requests were made"},
    {"large", large, 1, "totals beyond 2^32 bytes and 2^16 objects; non-trivial if at least two requests were made"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
