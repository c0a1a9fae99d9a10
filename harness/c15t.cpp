// C15 under ThreadSanitizer: generated operation scripts run by real threads; the happens-before analysis
// decides about data races (and about memory orders that are too weak).
#include "pbt.h"
#include "ktl/ktl.h"
#include <atomic>
#include <functional>
#include <memory>
#include <thread>
using pbt::Src;

namespace
{
    struct Op { int kind; size_t a, b, n; };
    std::atomic<int> destroyed, created;
    // plain (unsynchronised) state: any access that is not ordered by the code under test is a race
    template<typename A> class Plain
    {
    public:
        Plain() : m_Calls(0), m_Inside(0) { created++; }
        Plain(const Plain&) = delete; Plain& operator=(const Plain&) = delete;
        ~Plain() { m_Calls = ~0ull; destroyed++; }
        bool operator==(const Plain& o) const noexcept { return this == &o; }
        bool operator!=(const Plain& o) const noexcept { return this != &o; }
        void* allocate(size_t n) noexcept { m_Calls++; m_Inside++; void* p = m_A.allocate(n); m_Inside--; return p; }
        void deallocate(void* p, size_t n) noexcept { m_Calls++; m_Inside++; m_A.deallocate(p, n); m_Inside--; }
        bool owns(void* p) const noexcept { return m_A.owns(p); }
    private:
        A m_A; unsigned long long m_Calls; int m_Inside;
    };
    struct Gate { std::atomic<size_t> n{0}; void wait(size_t t) { n.fetch_add(1, std::memory_order_relaxed); while (n.load(std::memory_order_relaxed) < t) std::this_thread::yield(); } };

    template<typename H> void scripts(Src& s, const char* name)
    {
        destroyed = created = 0;
        static const char* names[] = { "copy", "drop", "assign", "move", "alloc", "free" };
        size_t threads = s.range(2, 4);
        pbt::log("%s, %zu threads", name, threads);
        std::vector<std::vector<Op>> sc(threads); size_t total = 0;
        for (auto& v : sc) for (int k = 0; k < 40 && s.more(15); k++) { pbt::Span sp; v.push_back({int(s.draw(6)), size_t(s.draw(8)), size_t(s.draw(8)), size_t(s.range(1, 60))}); total++; const Op& o = v.back(); pbt::log("t%zu:%s(%zu,%zu)", size_t(&v - sc.data()), names[o.kind], o.a, o.b); }
        bool common = s.flag(1, 4);
        std::atomic<int> bad{0};
        {
            auto root = std::make_unique<H>();
            std::vector<std::vector<std::unique_ptr<H>>> hs(threads);
            for (auto& v : hs) v.push_back(std::make_unique<H>(std::as_const(*root)));
            if (!common) root.reset();
            Gate gate; std::vector<std::thread> ts;
            for (size_t i = 0; i < threads; i++) ts.emplace_back([&, i] {
                auto& v = hs[i]; struct B { char* p; size_t n; }; std::vector<B> blocks;
                gate.wait(threads);
                auto drop = [&](size_t a) { if (v.size() == 1) for (auto& b : blocks) v[0]->deallocate(b.p, b.n); if (v.size() == 1) blocks.clear(); v.erase(v.begin() + a); };
                for (auto& op : sc[i])
                {
                    if (v.empty()) break;
                    size_t a = op.a % v.size(), b = op.b % v.size();
                    switch (op.kind)
                    {
                    case 0: v.push_back(std::make_unique<H>(std::as_const(common && (op.b & 1) ? *root : *v[a]))); break;
                    case 1: if (v.size() > 1) drop(a); break;
                    case 2: *v[a] = std::as_const(*v[b]); break;
                    case 3: { H x(std::as_const(*v[a])); H y(std::move(x)); *v[b] = std::move(y); break; }
                    case 4: { char* p = (char*)v[a]->allocate(op.n); if (p) { for (size_t k = 0; k < op.n; k++) p[k] = char(i + k); blocks.push_back({p, op.n}); } break; }
                    default:
                        if (!blocks.empty())
                        {
                            size_t k = op.b % blocks.size(); B x = blocks[k]; blocks.erase(blocks.begin() + k);
                            for (size_t j = 0; j < x.n; j++) if (x.p[j] != char(i + j)) bad++;
                            v[a]->deallocate(x.p, x.n);
                        }
                        break;
                    }
                }
                while (!v.empty()) drop(v.size() - 1);
            });
            for (auto& t : ts) t.join();
        }
        if (total >= 4) pbt::nontrivial();
        CHECK(!bad, "a block was shared between threads");
        CHECK(created == 1 && destroyed == 1, "the underlying allocator was destroyed %d times", destroyed.load());
    }

    // threaded used directly, without handles
    template<typename A> void direct(Src& s, const char* name)
    {
        destroyed = created = 0;
        size_t threads = s.range(2, 4);
        pbt::log("threaded<%s>, %zu threads", name, threads);
        std::vector<std::vector<Op>> sc(threads); size_t total = 0;
        for (auto& v : sc) for (int k = 0; k < 60 && s.more(20); k++) { pbt::Span sp; v.push_back({int(s.draw(5) >= 3), size_t(s.draw(64)), 0, size_t(s.range(1, 60))}); total++; pbt::log("t%zu:%s", size_t(&v - sc.data()), v.back().kind ? "free" : "alloc"); }
        std::atomic<int> bad{0};
        {
            ktl::threaded<Plain<A>> t;
            Gate gate; std::vector<std::thread> ts;
            for (size_t i = 0; i < threads; i++) ts.emplace_back([&, i] {
                struct B { char* p; size_t n; }; std::vector<B> blocks;
                gate.wait(threads);
                for (auto& op : sc[i])
                    if (op.kind == 0) { char* p = (char*)t.allocate(op.n); if (p) { for (size_t k = 0; k < op.n; k++) p[k] = char(i + k); blocks.push_back({p, op.n}); } }
                    else if (!blocks.empty())
                    {
                        size_t k = op.a % blocks.size(); B x = blocks[k]; blocks.erase(blocks.begin() + k);
                        for (size_t j = 0; j < x.n; j++) if (x.p[j] != char(i + j)) bad++;
                        t.deallocate(x.p, x.n);
                    }
                for (auto& b : blocks) t.deallocate(b.p, b.n);
            });
            for (auto& t2 : ts) t2.join();
        }
        if (total >= 4) pbt::nontrivial();
        CHECK(!bad, "a block was shared between threads");
    }
}
static void raceHandles(Src& s)
{
    using namespace ktl;
    switch (s.draw(3))
    {
    case 0: scripts<atomic_shared<threaded<Plain<freelist<0, 64, linear_allocator<1024>>>>>>(s, "atomic_shared<threaded<freelist>>"); break;
    case 1: scripts<type_shared_threaded<char, Plain<linear_allocator<1024>>>>(s, "type_shared_threaded<linear>"); break;
    default: scripts<type_atomic_shared<char, threaded<Plain<cascading<linear_allocator<256>>>>>>(s, "type_atomic_shared<threaded<cascading>>"); break;
    }
}
static void raceThreaded(Src& s)
{
    using namespace ktl;
    switch (s.draw(3))
    {
    case 0: direct<linear_allocator<2048>>(s, "linear"); break;
    case 1: direct<freelist<0, 64, linear_allocator<2048>>>(s, "freelist"); break;
    default: direct<fallback<linear_allocator<256>, mallocator>>(s, "fallback"); break;
    }
}
pbt::Prop pbt::props[] = {
    {"raceHandles", raceHandles, 1, "non-trivial if the threads ran at least four operations"},
    {"raceThreaded", raceThreaded, 1, "non-trivial if the threads ran at least four operations"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() {}
