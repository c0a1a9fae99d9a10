// C14: shared keeps one underlying allocator alive until the last handle goes
#include "driver.h"
#include "scale.h"
#include <array>
using namespace drv;

namespace
{
    struct Reg { bool dead = false; };                     // an underlying allocator
    Reg* served;
    std::vector<std::unique_ptr<Reg>> regs; std::string err;
    template<typename A> class Tracked
    {
    public:
        explicit Tracked(int tag = 0) : m_R(nullptr), m_Tag(tag) { regs.push_back(std::make_unique<Reg>()); m_R = regs.back().get(); }
        Tracked(const Tracked&) = delete; Tracked& operator=(const Tracked&) = delete;
        ~Tracked() { if (m_R->dead && err.empty()) err = "the underlying allocator was destroyed twice"; m_R->dead = true; }
        bool operator==(const Tracked& o) const noexcept { return this == &o; }
        bool operator!=(const Tracked& o) const noexcept { return this != &o; }
        void* allocate(size_t n) noexcept { live(); void* p = m_A.allocate(n); if (p) served = m_R; return p; }
        void deallocate(void* p, size_t n) noexcept { live(); m_A.deallocate(p, n); }
        template<typename B = A> auto owns(void* p) const noexcept -> decltype(std::declval<const B&>().owns(p)) { return m_A.owns(p); }
        Reg* reg() const { return m_R; }
        int tag() const { return m_Tag; }
    private:
        void live() { if (m_R->dead && err.empty()) err = "the underlying allocator was used after its destruction"; }
        Reg* m_R; A m_A; int m_Tag;
    };

    template<typename H, typename = void> struct Plain : std::false_type {};
    template<typename H> struct Plain<H, std::void_t<decltype(std::declval<H&>().get_allocator().reg())>> : std::true_type {};
    // H is a handle, or a composition of K handles and of allocators without state
    template<typename H, size_t K = 1> void run(Src& s, const char* name)
    {
        typedef ktl::type_allocator<int, H> TI; typedef ktl::type_allocator<double, H> TD;
        regs.clear(); err.clear();
        pbt::log("%s", name);
        drawPlans(s, 3, false);
        // a slot holds one handle of one of the three kinds; group -1: moved from
        struct Slot { std::unique_ptr<H> h; std::unique_ptr<TI> i; std::unique_ptr<TD> d; int group = -1; bool used() const { return h || i || d; } };
        std::vector<Slot> sl; std::vector<std::array<Reg*, K>> reg; std::vector<int> tags;
        struct B { char* p; size_t n; uint32_t pat; int group; }; std::vector<B> live; uint32_t pats = 0;
        unsigned assigns = 0, selfs = 0, sameGroup = 0, deaths = 0;
        auto raw = [&](Slot& x) -> H& { return x.h ? *x.h : x.i ? x.i->get_allocator() : x.d->get_allocator(); };
        auto handles = [&](int g) { int n = 0; for (auto& x : sl) if (x.used() && x.group == g) n++; return n; };
        auto verify = [&]
        {
            if (!err.empty()) { std::string e = err; pbt::fail("%s", e.c_str()); }
            leaf::checkErrors();
            size_t groups = 0;
            for (size_t g = 0; g < reg.size(); g++)
            {
                int n = handles(int(g)); groups += n != 0;
                for (Reg* r : reg[g]) CHECK(r->dead == (n == 0), "underlying allocator #%zu is %s although %d handles to it exist", g, r->dead ? "destroyed" : "alive", n);
            }
            if constexpr (Plain<H>::value) for (auto& x : sl) if (x.used() && x.group >= 0) { H& h = raw(x); CHECK(h.get_allocator().reg() == reg[x.group][0], "a handle operates on another underlying allocator than its copies"); CHECK(h.get_allocator().tag() == tags[x.group], "constructor argument lost"); }
            for (auto& b : live) CHECK(firstDiff(b.p, b.n, b.pat) == SIZE_MAX, "content of a live block changed");
        };
        // before the last handle of a group goes, its blocks have to be deallocated
        auto drop = [&](Slot& x)
        {
            if (x.group < 0 || handles(x.group) != 1) return;
            for (size_t k = 0; k < live.size(); ) if (live[k].group == x.group) { raw(x).deallocate(live[k].p, live[k].n); live.erase(live.begin() + k); } else k++;
            deaths++;
        };
        auto add = [&](Slot&& x) { sl.push_back(std::move(x)); };
        auto fresh = [&]
        {
            Slot x; int tag = !Plain<H>::value || s.flag() ? 0 : int(s.range(1, 9)); bool typed = s.flag();
            if constexpr (Plain<H>::value) if (tag) { if (typed) x.i = std::make_unique<TI>(tag); else x.h = std::make_unique<H>(tag); }
            if (!tag) { if (typed) x.i = std::make_unique<TI>(); else x.h = std::make_unique<H>(); }
            x.group = int(reg.size()); CHECK(regs.size() == (reg.size() + 1) * K, "constructing a handle did not construct exactly one underlying allocator");
            reg.emplace_back(); for (size_t k = 0; k < K; k++) { Reg* r = regs[regs.size() - K + k].get(); CHECK(!r->dead, "the underlying allocator of a new handle was destroyed"); reg.back()[k] = r; }
             tags.push_back(tag);
            pbt::log("%zu=new(%d) g%d", sl.size(), tag, x.group);
            add(std::move(x));
        };
        fresh();
        s.maxSteps = 15 + 4 * s.sizeHint();
        while (s.more(50))
        {
            pbt::Span sp;
            if (sl.empty()) fresh();
            size_t a = s.draw(sl.size()), b = s.draw(sl.size());
            static const unsigned w[] = { 4, 4, 2, 5, 4, 2, 4, 3, 3 };
            switch (s.pick(w))
            {
            case 0:  // copy construct (same kind, or converted to another type)
            {
                if (sl.size() > 12) break;
                Slot x; x.group = sl[a].group; int to = int(s.draw(3));
                const Slot& f = sl[a];
                if (f.h) { if (to == 0) x.h = std::make_unique<H>(std::as_const(*f.h)); else if (to == 1) x.i = std::make_unique<TI>(std::as_const(*f.h)); else x.d = std::make_unique<TD>(std::as_const(*f.h)); }
                else if (f.i) { if (to == 0) x.h = std::make_unique<H>(std::as_const(f.i->get_allocator())); else if (to == 1) x.i = std::make_unique<TI>(std::as_const(*f.i)); else x.d = std::make_unique<TD>(std::as_const(*f.i)); }
                else { if (to == 0) x.h = std::make_unique<H>(std::as_const(f.d->get_allocator())); else if (to == 1) x.i = std::make_unique<TI>(std::as_const(*f.d)); else x.d = std::make_unique<TD>(std::as_const(*f.d)); }
                pbt::log("%zu=copy %zu", sl.size(), a);
                add(std::move(x));
                break;
            }
            case 1:  // move construct: a typed handle stays valid, an untyped one gives its state away
            {
                if (sl.size() > 12) break;
                Slot x; x.group = sl[a].group; Slot& f = sl[a];
                if (f.h) { x.h = std::make_unique<H>(std::move(*f.h)); f.group = -1; }
                else if (f.i) { if (s.flag()) x.i = std::make_unique<TI>(std::move(*f.i)); else x.d = std::make_unique<TD>(std::move(*f.i)); }
                else { if (s.flag()) x.d = std::make_unique<TD>(std::move(*f.d)); else x.i = std::make_unique<TI>(std::move(*f.d)); }
                pbt::log("%zu=move %zu", sl.size(), a);
                add(std::move(x));
                break;
            }
            case 2: if (sl.size() <= 12) fresh(); break;
            case 3:  // copy assign
            case 4:  // move assign
            {
                bool copy = s.flag();
                if (s.flag(1, 4)) b = a;
                Slot& x = sl[a]; Slot& y = sl[b];
                if ((x.h != nullptr) != (y.h != nullptr) || (x.i != nullptr) != (y.i != nullptr)) break;
                if (x.group != y.group) drop(x);
                pbt::log("%zu=%s%zu", a, copy ? "" : "move ", b);
                assigns++; if (a == b) selfs++; else if (x.group == y.group) sameGroup++;
                int g = y.group;
                if (x.h) { if (copy) *x.h = std::as_const(*y.h); else { *x.h = std::move(*y.h); if (a != b) y.group = -1; } }
                else if (x.i) { if (copy) *x.i = std::as_const(*y.i); else *x.i = std::move(*y.i); }
                else { if (copy) *x.d = std::as_const(*y.d); else *x.d = std::move(*y.d); }
                x.group = g;
                break;
            }
            case 5:  // destroy
            {
                drop(sl[a]);
                pbt::log("destroy %zu", a);
                sl.erase(sl.begin() + a);
                break;
            }
            case 6:
            {
                if (sl[a].group < 0) { if (Plain<H>::value || !strstr(name, "mallocator")) CHECK(!raw(sl[a]).allocate(8), "a moved-from handle hands out memory"); break; }
                served = nullptr; size_t n = s.range(0, 100); char* p = (char*)raw(sl[a]).allocate(n);
                if (p) { CHECK(!served || std::find(reg[sl[a].group].begin(), reg[sl[a].group].end(), served) != reg[sl[a].group].end(), "a block was served by an underlying allocator of other handles"); fill(p, n, ++pats); live.push_back({p, n, pats, sl[a].group}); }
                break;
            }
            case 7:
                if (!live.empty())
                {
                    size_t k = s.draw(live.size()); std::vector<size_t> c; for (size_t i = 0; i < sl.size(); i++) if (sl[i].group == live[k].group) c.push_back(i);
                    raw(sl[c[s.draw(c.size())]]).deallocate(live[k].p, live[k].n); live.erase(live.begin() + k);
                }
                break;
            default:  // equality of handles
            {
                H& x = raw(sl[a]); H& y = raw(sl[b]); bool eq = sl[a].group == sl[b].group;
                CHECK((x == y) == eq && (x != y) == !eq, "handles of %s underlying allocator compare %s", eq ? "the same" : "different", x == y ? "equal" : "unequal");
                break;
            }
            }
            verify();
        }
        if (assigns && reg.size() >= 2 && sl.size() + deaths >= 3) pbt::nontrivial();
        if (selfs) pbt::label("self-assignment");
        if (sameGroup) pbt::label("assignment between handles of one allocator");
        if (deaths) pbt::label("last handle went mid-history");
        while (!sl.empty()) { size_t a = s.draw(sl.size()); drop(sl[a]); sl.erase(sl.begin() + a); verify(); }
        for (auto& r : regs) CHECK(r->dead, "an underlying allocator outlives its last handle");
        CHECK(heap::liveBlocks() == g_heapBase, "the shared state was not released");
        CHECK(leaf::liveBlocks() == 0, "memory leaked");
    }
}
static void lifetime(Src& s)
{
    using namespace ktl;
    switch (s.draw(6))
    {
    case 0: run<shared<Tracked<leaf::R<0, 0>>>>(s, "shared<leaf>"); break;
    case 1: run<atomic_shared<Tracked<leaf::R<0, leaf::OWNS>>>>(s, "atomic_shared<leaf>"); break;
    case 2: run<shared<Tracked<cascading<leaf::R<0, leaf::OWNS>>>>>(s, "shared<cascading<leaf>>"); break;
    case 3: run<atomic_shared<Tracked<freelist<0, 128, mallocator>>>>(s, "atomic_shared<freelist<0,128,mallocator>>"); break;
    case 4: run<shared<Tracked<linear_allocator<512>>>>(s, "shared<linear<512>>"); break;
    default: run<atomic_shared<Tracked<threaded<linear_allocator<512>>>>>(s, "atomic_shared<threaded<linear<512>>>"); break;
    }
}
// a composition of handles is a handle to all that they share
static void composed(Src& s)
{
    using namespace ktl; typedef Tracked<leaf::R<0, leaf::OWNS>> A; typedef Tracked<leaf::R<1, leaf::OWNS>> B; typedef Tracked<leaf::R<2, leaf::OWNS>> C; typedef Tracked<linear_allocator<256>> L;
    switch (s.draw(9))
    {
    case 8: run<fallback<null_allocator, shared<B>>>(s, "fallback<null,shared<leaf>>"); break;
    case 6: run<segragator<32, mallocator, shared<B>>>(s, "segragator<32,mallocator,shared<leaf>>"); break;
    case 7: run<segragator<32, shared<A>, segragator<64, atomic_shared<L>, mallocator>>, 2>(s, "segragator<32,shared<leaf>,segragator<64,atomic_shared<linear<256>>,mallocator>>"); break;
    case 0: run<fallback<shared<A>, shared<B>>, 2>(s, "fallback<shared<leaf>,shared<leaf>>"); break;
    case 1: run<segragator<32, atomic_shared<A>, shared<B>>, 2>(s, "segragator<32,atomic_shared<leaf>,shared<leaf>>"); break;
    case 2: run<fallback<shared<L>, atomic_shared<B>>, 2>(s, "fallback<shared<linear<256>>,atomic_shared<leaf>>"); break;
    case 3: run<segragator<40, fallback<shared<L>, shared<B>>, shared<C>>, 3>(s, "segragator<40,fallback<shared<linear<256>>,shared<leaf>>,shared<leaf>>"); break;
    case 4: run<fallback<segragator<24, shared<A>, shared<B>>, atomic_shared<C>>, 3>(s, "fallback<segragator<24,shared<leaf>,shared<leaf>>,atomic_shared<leaf>>"); break;
    default: run<fallback<shared<A>, fallback<shared<L>, shared<C>>>, 3>(s, "fallback<shared<leaf>,fallback<shared<linear<256>>,shared<leaf>>>"); break;
    }
}
static void many(Src& s) { if (s.flag()) scale::handles<ktl::shared<scale::Only>>(s, "shared"); else scale::handles<ktl::atomic_shared<scale::Only>>(s, "atomic_shared"); }
pbt::Prop pbt::props[] = {
    {"lifetime", lifetime, 1000, "non-trivial if at least two underlying allocators, an assignment and three handles occurred"},
    {"composed", composed, 1000, "non-trivial if at least two groups of underlying allocators, an assignment and three handles occurred"},
    {"many", many, 1, "up to 2^17 handles; non-trivial if there were more than 1000"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
