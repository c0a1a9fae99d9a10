// C15: threaded and atomic_shared are safe under every thread interleaving (controlled schedules)
#include "driver.h"
#include "ctlsched.h"
using namespace drv;

namespace
{
    // Allocator that counts the threads inside its allocate / deallocate, with scheduling points in between
    struct State { int inside = 0, destroyed = 0; std::map<void*, int> owner; int handles = 0; };
    std::vector<std::unique_ptr<State>> states;
    template<typename A> class Probe
    {
    public:
        Probe() { states.push_back(std::make_unique<State>()); m_S = states.back().get(); }
        Probe(const Probe&) = delete; Probe& operator=(const Probe&) = delete;
        ~Probe()
        {
            sched::yield();
            if (m_S->handles) sched::problem("the underlying allocator is destroyed while %d handles to it exist", m_S->handles);
            if (m_S->inside) sched::problem("the underlying allocator is destroyed while another thread uses it");
            if (!m_S->owner.empty()) sched::problem("the underlying allocator is destroyed while blocks are live");
            if (++m_S->destroyed > 1) sched::problem("the underlying allocator is destroyed twice");
        }
        bool operator==(const Probe& o) const noexcept { return this == &o; }
        bool operator!=(const Probe& o) const noexcept { return this != &o; }
        struct In
        {
            State* s;
            In(State* x, const char* what) : s(x)
            {
                s->inside++;
                if (s->destroyed) sched::problem("%s on the underlying allocator after its destruction", what);
                if (s->inside > 1) sched::problem("%d threads are inside allocate/deallocate of the wrapped allocator at once", s->inside);
                sched::yield();
            }
            ~In() { sched::yield(); s->inside--; }
        };
        void* allocate(size_t n) noexcept
        {
            In in(m_S, "allocate"); void* p = m_A.allocate(n);
            if (p) { if (m_S->owner.count(p)) sched::problem("one block was handed out to two threads"); m_S->owner[p] = sched::self(); }
            return p;
        }
        void deallocate(void* p, size_t n) noexcept
        {
            In in(m_S, "deallocate");
            if (!m_S->owner.erase(p)) sched::problem("a block was deallocated twice");
            m_A.deallocate(p, n);
        }
        bool owns(void* p) const noexcept { return m_A.owns(p); }
        State* state() const { return m_S; }
    private:
        A m_A; State* m_S;
    };

    struct Op { int kind; size_t a, b, n; };

    // ---- one threaded allocator, several threads allocating and deallocating
    template<typename A> void exclusionOf(Src& s, const char* name)
    {
        states.clear();
        size_t threads = s.range(2, 3);
        {
            auto t = std::make_unique<ktl::threaded<Probe<A>>>();
            pbt::log("threaded<%s>, %zu threads", name, threads);
            std::vector<std::vector<Op>> scripts(threads);
            for (size_t i = 0; i < threads; i++)
                for (int k = 0; k < 12 && s.more(5); k++)
                {
                    pbt::Span sp; Op o{int(s.draw(5) >= 3), size_t(s.draw(64)), 0, size_t(s.range(1, 60))};
                    pbt::log("t%zu:%s(%zu)", i, o.kind ? "free" : "alloc", o.kind ? o.a : o.n); scripts[i].push_back(o);
                }
            // blocks may also be deallocated by another thread than the one that allocated them
            struct B { char* p; size_t n; uint32_t pat; }; std::vector<B> pool; uint32_t pats = 0; uint64_t done = 0;
            std::vector<std::function<void()>> bodies;
            for (size_t i = 0; i < threads; i++) bodies.push_back([&, i] {
                for (auto& op : scripts[i])
                {
                    if (op.kind == 0)
                    {
                        char* p = (char*)t->allocate(op.n);
                        if (!p) continue;
                        for (auto& b : pool) if (p + op.n > b.p && b.p + b.n > p) sched::problem("a block overlaps one that is held elsewhere");
                        uint32_t pat = ++pats; fill(p, op.n, pat); pool.push_back({p, op.n, pat}); done++;
                    }
                    else if (!pool.empty())
                    {
                        size_t k = op.a % pool.size(); B b = pool[k]; pool.erase(pool.begin() + k);
                        if (firstDiff(b.p, b.n, b.pat) != SIZE_MAX) sched::problem("content of a live block changed");
                        t->deallocate(b.p, b.n);
                    }
                    sched::yield();
                }
            });
            sched::run(s, bodies);
            pbt::log("%llu switches", (unsigned long long)sched::switches());
            CHECK(states[0]->owner.size() == pool.size(), "%zu blocks are live in the wrapped allocator, %zu are held", states[0]->owner.size(), pool.size());
            if (done >= 2 && sched::switches() >= 2 * threads) pbt::nontrivial();
            for (auto& b : pool) { CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content of a live block changed"); t->deallocate(b.p, b.n); }
        }
        CHECK(states.size() == 1 && states[0]->destroyed == 1, "the wrapped allocator was not destroyed exactly once");
        CHECK(heap::liveBlocks() == g_heapBase, "memory leaked");
    }

    // ---- handles of shared allocators copied, assigned and destroyed in several threads
    template<typename A> void handlesOf(Src& s, const char* name)
    {
        typedef ktl::shared<ktl::threaded<Probe<A>>, sched::Atomic> H;
        states.clear();
        size_t threads = s.range(2, 3), groups = s.range(1, 2); bool keepRoots = s.flag(1, 4);
        pbt::log("shared<threaded<%s>>, %zu threads, %zu allocators%s", name, threads, groups, keepRoots ? ", common handles" : "");
        struct Slot { std::unique_ptr<H> h; State* g = nullptr; };
        std::vector<Slot> roots(groups);
        for (auto& r : roots) { r.h = std::make_unique<H>(); r.g = r.h->get_allocator().get_allocator().state(); r.g->handles++; }
        std::vector<std::vector<Slot>> slots(threads);
        for (size_t i = 0; i < threads; i++)
            for (size_t n = s.range(1, 2); n--; ) { auto& r = roots[s.draw(groups)]; slots[i].push_back({std::make_unique<H>(std::as_const(*r.h)), r.g}); r.g->handles++; }
        if (!keepRoots) { for (auto& r : roots) { r.g->handles--; r.h.reset(); } roots.clear(); }
        std::vector<std::vector<Op>> scripts(threads); size_t total = 0;
        static const char* names[] = { "copy", "drop", "assign", "move-assign", "move", "use", "copy common" };
        for (size_t i = 0; i < threads; i++)
            for (int k = 0; k < 10 && s.more(5); k++)
            {
                pbt::Span sp; Op o{int(s.draw(7)), size_t(s.draw(8)), size_t(s.draw(8)), size_t(s.range(1, 60))};
                pbt::log("t%zu:%s(%zu,%zu)", i, names[o.kind], o.a, o.b); scripts[i].push_back(o); total++;
            }
        std::vector<std::function<void()>> bodies;
        for (size_t i = 0; i < threads; i++) bodies.push_back([&, i] {
            auto& v = slots[i];
            // a handle counts from the end of the operation that makes it to the beginning of the one that ends it
            auto leave = [](Slot& x) { if (x.g) x.g->handles--; };
            auto enter = [](Slot& x, State* g) { x.g = g; if (g) g->handles++; };
            for (auto& op : scripts[i])
            {
                sched::yield();
                if (op.kind == 6 && !roots.empty()) { auto& r = roots[op.a % roots.size()]; Slot x; x.h = std::make_unique<H>(std::as_const(*r.h)); enter(x, r.g); v.push_back(std::move(x)); continue; }
                if (v.empty()) continue;
                size_t a = op.a % v.size(), b = op.b % v.size();
                switch (op.kind)
                {
                case 0: { Slot x; x.h = std::make_unique<H>(std::as_const(*v[a].h)); enter(x, v[a].g); v.push_back(std::move(x)); break; }
                case 1: leave(v[a]); v[a].g = nullptr; v[a].h.reset(); v.erase(v.begin() + a); break;
                case 2: { State* g = v[b].g; if (a != b) { leave(v[a]); v[a].g = nullptr; } *v[a].h = std::as_const(*v[b].h); if (a != b) enter(v[a], g); break; }
                case 3: if (a != b) { State* g = v[b].g; leave(v[a]); v[a].g = g; v[b].g = nullptr; *v[a].h = std::move(*v[b].h); } break;      // b's count passes to a
                case 4: { Slot x; State* g = v[a].g; v[a].g = nullptr; x.h = std::make_unique<H>(std::move(*v[a].h)); x.g = g; v.push_back(std::move(x)); break; }
                case 5:
                    if (v[a].g)
                    {
                        char* p = (char*)v[a].h->allocate(op.n);
                        if (p) { fill(p, op.n, uint32_t(op.n)); sched::yield(); if (firstDiff(p, op.n, uint32_t(op.n)) != SIZE_MAX) sched::problem("content of a live block changed"); v[a].h->deallocate(p, op.n); }
                    }
                    break;
                default: break;
                }
            }
            while (!v.empty()) { sched::yield(); leave(v.back()); v.back().g = nullptr; v.back().h.reset(); v.pop_back(); }
        });
        sched::run(s, bodies);
        pbt::log("%llu switches", (unsigned long long)sched::switches());
        for (auto& r : roots) { CHECK(r.g->destroyed == 0, "the underlying allocator was destroyed while a handle exists"); r.g->handles--; r.h.reset(); }
        if (total >= 2 && sched::switches() >= threads) pbt::nontrivial();
        for (auto& g : states) CHECK(g->destroyed == 1, "the underlying allocator was destroyed %d times", g->destroyed);
        CHECK(heap::liveBlocks() == g_heapBase, "memory leaked");
    }
}
static void exclusion(Src& s)
{
    using namespace ktl;
    switch (s.draw(4))
    {
    case 0: exclusionOf<linear_allocator<512>>(s, "linear<512>"); break;
    case 1: exclusionOf<freelist<0, 64, linear_allocator<512>>>(s, "freelist<0,64,linear<512>>"); break;
    case 2: exclusionOf<cascading<linear_allocator<128>>>(s, "cascading<linear<128>>"); break;
    default: exclusionOf<freelist<0, 64, mallocator>>(s, "freelist<0,64,mallocator>"); break;
    }
}
static void handles(Src& s)
{
    using namespace ktl;
    switch (s.draw(2))
    {
    case 0: handlesOf<freelist<0, 64, linear_allocator<512>>>(s, "freelist<0,64,linear<512>>"); break;
    default: handlesOf<linear_allocator<256>>(s, "linear<256>"); break;
    }
}
pbt::Prop pbt::props[] = {
    {"exclusion", exclusion, 1, "non-trivial if at least two blocks were handed out and the schedule switched threads at least twice per thread"},
    {"handles", handles, 1, "non-trivial if at least two handle operations ran and the schedule switched at least once per thread"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
