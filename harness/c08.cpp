// C08: cascading grows on demand and keeps only instances it needs
#include "driver.h"
#include "scale.h"
using namespace drv;

namespace
{
    // Every instance of the allocator below cascading reports to this registry.
    struct Inst { uint64_t serial; size_t live = 0; bool dead = false; };
    std::vector<std::unique_ptr<Inst>> insts; std::map<void*, std::pair<Inst*, int>> from;   // blocks (zero-sized ones may share an address)
    std::vector<std::pair<char, Inst*>> ev;      // C created, D died, A served, R refused, F freed
    std::string err; bool quiet;
    void note(const char* m) { if (err.empty()) err = m; }

    template<typename A> class Probe
    {
    public:
        Probe() : m_I(nullptr) { if (quiet) return; insts.push_back(std::make_unique<Inst>()); m_I = insts.back().get(); m_I->serial = insts.size(); ev.push_back({'C', m_I}); }
        Probe(const Probe&) = delete; Probe& operator=(const Probe&) = delete;
        ~Probe() { if (!m_I) return; ev.push_back({'D', m_I}); if (m_I->dead) note("an instance was destroyed twice"); if (m_I->live) note("an instance was destroyed while it has live blocks"); m_I->dead = true; }
        bool operator==(const Probe& o) const { return this == &o; }
        bool operator!=(const Probe& o) const { return this != &o; }
        void* allocate(size_t n) noexcept
        {
            void* p = m_A.allocate(n);
            if (!m_I) return p;
            ev.push_back({p ? 'A' : 'R', m_I});
            if (p) { m_I->live++; auto& f = from[p]; if (f.second && f.first != m_I) note("two instances handed out the same address"); f.first = m_I; f.second++; }
            return p;
        }
        void deallocate(void* p, size_t n) noexcept
        {
            if (m_I)
            {
                auto it = from.find(p); ev.push_back({'F', m_I});
                if (it == from.end()) note("a block that is not live was deallocated into an instance");
                else { if (it->second.first != m_I) note("a block was deallocated into another instance than the one that served it"); it->second.first->live--; if (!--it->second.second) from.erase(it); }
            }
            m_A.deallocate(p, n);
        }
        bool owns(void* p) const noexcept { return m_A.owns(p); }
        template<typename B = A> auto max_size() const noexcept -> decltype(std::declval<const B&>().max_size()) { return m_A.max_size(); }
    private:
        A m_A; Inst* m_I;
    };

    // never uses memory twice: an instance without live blocks may have nothing left to give
    template<size_t Size> class Spent
    {
    public:
        Spent() : m_Used(0) {}
        Spent(const Spent&) = delete; Spent& operator=(const Spent&) = delete;
        bool operator==(const Spent& o) const noexcept { return this == &o; }
        bool operator!=(const Spent& o) const noexcept { return this != &o; }
        void* allocate(size_t n) noexcept { size_t k = (n + 15) / 16 * 16; if (n > Size || m_Used >= Size || m_Used + k > Size) return nullptr; m_Used += k; return m_Data + m_Used - k; }
        void deallocate(void*, size_t) noexcept {}
        bool owns(void* p) const noexcept { return (char*)p >= m_Data && (char*)p < m_Data + Size; }
    private:
        alignas(16) char m_Data[Size]; size_t m_Used;
    };
    template<typename A> void run(Src& s, const char* name, size_t range)
    {
        typedef ktl::cascading<Probe<A>> C;
        insts.clear(); from.clear(); ev.clear(); err.clear(); quiet = false;
        drawPlans(s, 2, false);
        pbt::log("cascading<%s>", name);
        bool inUse = false;
        struct B { char* p; size_t n; uint32_t pat; Inst* i; };
        auto c = std::make_unique<C>();
        std::vector<B> live; uint32_t pats = 0; size_t maxInst = 0; unsigned deaths = 0, refusals = 0;
        auto newest = [&] { for (size_t k = insts.size(); k--; ) if (!insts[k]->dead) return insts[k].get(); return (Inst*)nullptr; };
        auto alive = [&] { size_t n = 0; for (auto& i : insts) n += !i->dead; return n; };
        auto count = [&](char k) { size_t n = 0; for (auto& e : ev) n += e.first == k; return n; };
        auto verify = [&]
        {
            if (!err.empty()) { std::string e = err; pbt::fail("%s", e.c_str()); }
            leaf::checkErrors();
            Inst* nw = newest();
            for (auto& i : insts) CHECK(i->dead || i.get() == nw || i->live, "instance #%llu is kept although it has no live block and is not the newest", (unsigned long long)i->serial);
            maxInst = std::max(maxInst, alive());
            for (auto& b : live) { CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content of a live block of %zu bytes changed", b.n); CHECK(c->owns(b.p), "a live block is not owned"); }
        };
        auto freshServes = [&](size_t n) { quiet = true; bool ok; { auto f = std::make_unique<Probe<A>>(); void* p = f->allocate(n); ok = p != nullptr; if (p) f->deallocate(p, n); } quiet = false; return ok; };
        s.maxSteps = 10 + 5 * s.sizeHint();
        while (s.more(60))
        {
            pbt::Span sp;
            static const unsigned w[] = { 10, 7, 1, 1 };
            ev.clear();
            size_t before = alive(), created = insts.size();
            switch (s.pick(w))
            {
            case 0:
            {
                size_t n = s.flag(1, 12) ? drawSize(s) : s.flag(1, 40) ? drawGiant(s) : s.range(0, range);
                bool must = freshServes(n);
                Inst* nw = newest();
                char* p = (char*)c->allocate(n);
                pbt::log("alloc(%zu)=%s", n, p ? "ok" : "null");
                if (!p)
                {
                    CHECK(!must, "a request of %zu bytes was refused although a fresh instance serves it (%zu blocks live)", n, live.size());
                    size_t after = alive();
                    CHECK(after == before || (!inUse && after == 1), "a refused request changed the number of instances from %zu to %zu", before, after);
                    if (nw) CHECK(newest() == nw && !nw->dead, "a refused request replaced the newest instance");
                    inUse = inUse || after; refusals++; break;
                }
                inUse = true;
                auto it = from.find(p);
                CHECK(it != from.end(), "the block handed out was not served by an instance");
                if (nw && insts.size() > created)
                {
                    bool asked = false; for (auto& e : ev) asked |= e.first == 'R' && e.second == nw;
                    CHECK(asked, "a further instance was created although the newest one was not asked");
                }
                CHECK(insts.size() <= created + (nw ? 1 : 2), "several instances were created for one request");
                fill(p, n, ++pats); live.push_back({p, n, pats, it->second.first});
                break;
            }
            case 1:
                if (!live.empty())
                {
                    size_t k; switch (s.draw(3)) { case 0: k = live.size() - 1; break; case 1: k = 0; break; default: k = s.draw(live.size()); }
                    B b = live[k]; live.erase(live.begin() + k);
                    Inst* nw = newest();
                    pbt::log("free(%zu)", b.n);
                    c->deallocate(b.p, b.n);
                    CHECK(count('F') == 1, "the block was not deallocated");
                    for (auto& e : ev) if (e.first == 'D') CHECK(e.second == b.i && b.i->live == 0, "deallocation destroyed an instance other than the block's, or one in use");
                    if (b.i != nw && b.i->live == 0) { CHECK(b.i->dead, "instance #%llu is not destroyed with its last block", (unsigned long long)b.i->serial); deaths++; }
                    CHECK(insts.size() == created, "deallocation created an instance");
                }
                break;
            case 2:
                if constexpr (zoo::has_max<C>::value)
                {
                    size_t m = c->max_size();
                    pbt::log("max_size=%zu", m);
                    CHECK(alive() == before, "max_size() changed the number of instances from %zu to %zu", before, alive());
                }
                break;
            default:   // everything, then a new start
                if (s.flag(1, 3))
                {
                    while (!live.empty()) { size_t k = s.draw(live.size()); B b = live[k]; live.erase(live.begin() + k); c->deallocate(b.p, b.n); verify(); }
                    CHECK(alive() <= 1, "%zu instances are kept although nothing is allocated", alive());
                    pbt::log("freed everything");
                }
                break;
            }
            verify();
        }
        if (maxInst >= 3 && deaths) pbt::nontrivial();
        if (refusals) pbt::label("request even a fresh instance refuses");
        if (maxInst >= 4) pbt::label("four or more instances");
        while (!live.empty()) { size_t k = s.draw(live.size()); B b = live[k]; live.erase(live.begin() + k); c->deallocate(b.p, b.n); verify(); }
        CHECK(alive() <= 1, "%zu instances are kept although nothing is allocated", alive());
        c.reset();
        if (!err.empty()) { std::string e = err; pbt::fail("%s", e.c_str()); }
        CHECK(alive() == 0, "destruction left %zu instances", alive());
        leaf::checkErrors();
        CHECK(leaf::liveBlocks() == 0 && heap::liveBlocks() == g_heapBase, "memory leaked");
    }
}
static void growth(Src& s)
{
    using namespace ktl;
    switch (s.draw(11))
    {
    case 0: run<leaf::R<0, leaf::OWNS>>(s, "leaf", 300); break;
    case 1: run<linear_allocator<256>>(s, "linear<256>", 280); break;
    case 2: run<leaf::R<0, leaf::OWNS | leaf::MAXS>>(s, "leaf with max_size", 300); break;
    case 3: run<fallback<linear_allocator<64>, leaf::R<0, leaf::OWNS>>>(s, "fallback<linear<64>,leaf>", 120); break;
    case 4: run<freelist<0, 64, linear_allocator<256>>>(s, "freelist<0,64,linear<256>>", 66); break;
    case 5: run<segragator<32, linear_allocator<128>, leaf::R<0, leaf::OWNS | leaf::MAXS>>>(s, "segragator<32,linear<128>,leaf>", 100); break;
    case 6: run<linear_allocator<64>>(s, "linear<64>", 40); break;
    case 8: run<Spent<128>>(s, "spent<128>", 100); break;
    case 9: run<Spent<64>>(s, "spent<64>", 66); break;
    case 10: run<fallback<Spent<64>, Spent<256>>>(s, "fallback<spent<64>,spent<256>>", 150); break;
    default: run<cascading<linear_allocator<96>>>(s, "cascading<linear<96>>", 60); break;
    }
}
static void many(Src& s) { if (s.flag()) scale::cascading<64>(s); else scale::cascading<1 << 21>(s); }
pbt::Prop pbt::props[] = {
    {"growth", growth, 400, "non-trivial if at least three instances were alive at once and an instance other than the newest was destroyed with its last block"},
    {"many", many, 1, "hundreds of instances, or instances with 2^17 blocks; non-trivial if at least 50 (2) were alive at once"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
