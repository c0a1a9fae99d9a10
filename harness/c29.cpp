// C29: reference and global forward to exactly one shared state
#include "c29.h"
#include <algorithm>
#include <thread>
using namespace fw;
using pbt::Src;
namespace fw
{
    std::vector<Ev>& evs() { static auto* v = new std::vector<Ev>; return *v; }
    std::map<int, State>& states() { static auto* s = new std::map<int, State>; return *s; }
    int Obj::ctors, Obj::dtors;
}
namespace
{
    struct B { char* p; size_t n; int id; };
    std::vector<B> live; unsigned calls, rebinds;

    void quiet(const char* what) { if (!evs().empty()) pbt::fail("%s made %zu calls to an allocator (first: %c on #%d)", what, evs().size(), evs()[0].kind, evs()[0].id); }
    void one(char kind, int id, const void* p, bool checkP, size_t n, const char* what)
    {
        CHECK(evs().size() == 1, "%s made %zu calls to the allocators", what, evs().size());
        Ev e = evs()[0]; evs().clear();
        CHECK(e.kind == kind && e.id == id, "%s reached #%d as %c instead of #%d as %c", what, e.id, e.kind, id, kind);
        CHECK(!checkP || e.p == p, "%s passed on another address", what);
        CHECK(e.n == n, "%s passed on the size %zu instead of %zu", what, e.n, n);
        calls++;
    }
    // one call through anything that behaves like the allocator with state `id`
    template<typename R> void use(Src& s, R& r, int id, const char* who)
    {
        evs().clear();
        switch (s.draw(6))
        {
        case 0:
        {
            size_t n = s.flag(1, 5) ? states()[id].limit + s.draw(3) : s.draw(40);
            pbt::log("%s.allocate(%zu)", who, n);
            char* p = (char*)r.allocate(n); Ev e = evs().empty() ? Ev{'-', 0, nullptr, 0} : evs()[0];
            one('a', id, nullptr, false, n, "allocate"); CHECK(e.p == p, "allocate returned another address than the allocator gave");
            if (p) live.push_back({p, n, id});
            break;
        }
        case 1:
        {
            std::vector<size_t> mine; for (size_t i = 0; i < live.size(); i++) if (live[i].id == id) mine.push_back(i);
            if (mine.empty()) break;
            size_t k = mine[s.draw(mine.size())]; B b = live[k]; live.erase(live.begin() + k);
            pbt::log("%s.deallocate(%zu)", who, b.n); r.deallocate(b.p, b.n); one('d', id, b.p, true, b.n, "deallocate"); break;
        }
        case 2:
        {
            char x; char* p = live.empty() || s.flag(1, 4) ? &x : live[s.draw(live.size())].p; bool want = false;
            for (auto& b : live) if (b.id == id && b.n && p == b.p) want = true;
            pbt::log("%s.owns", who); bool got = std::as_const(r).owns(p); one('o', id, p, true, 0, "owns"); CHECK(got == want, "owns() is %d, the allocator says %d", got, want); break;
        }
        case 3: { pbt::log("%s.max_size", who); size_t m = std::as_const(r).max_size(); one('m', id, nullptr, false, 0, "max_size"); CHECK(m == states()[id].limit, "max_size() is %zu, the allocator says %zu", m, states()[id].limit); break; }
        case 4:
        {
            alignas(Obj) char mem[sizeof(Obj)]; Obj* o = reinterpret_cast<Obj*>(mem); int ref = 5, c0 = Obj::ctors, d0 = Obj::dtors;
            pbt::log("%s.construct/destroy", who);
            r.construct(o, 7, ref); one('c', id, o, true, sizeof(Obj), "construct"); CHECK(Obj::ctors == c0 + 1 && ref == 6 && o->v == 7, "construct did not pass on its arguments");
            r.destroy(o); one('x', id, o, true, sizeof(Obj), "destroy"); CHECK(Obj::dtors == d0 + 1, "destroy ran %d destructors", Obj::dtors - d0); break;
        }
        default: { pbt::log("%s.get_allocator", who); CHECK(std::as_const(r).get_allocator().id == id && r.get_allocator().id == id, "get_allocator() gives another allocator"); quiet("get_allocator"); break; }
        }
    }
    int newState(Src& s) { static int ids = 0; int id = ++ids; states()[id].limit = s.range(20, 60); return id; }
    void drain() { for (auto& b : live) ::operator delete(b.p); live.clear(); }
}
template<int Tag> static void references(Src& s)
{
    typedef Rec<Tag> A; typedef ktl::reference<A> R;
    size_t n = s.range(2, 3); std::vector<std::unique_ptr<A>> as;
    for (size_t i = 0; i < n; i++) as.push_back(std::make_unique<A>(newState(s)));
    struct Slot { std::unique_ptr<R> r; size_t t; }; std::vector<Slot> rs;
    rs.push_back({std::make_unique<R>(*as[0]), 0});
    std::vector<int> ids; for (auto& a : as) ids.push_back(a->id);
    s.maxSteps = 15 + s.sizeHint();
    while (s.more(25))
    {
        pbt::Span sp; evs().clear();
        size_t i = s.draw(rs.size()), j = s.draw(rs.size()), t = s.draw(n);
        static const unsigned w[] = { 10, 3, 2, 2, 2, 3, 3, 1, 2 };
        switch (s.pick(w))
        {
        case 0: use(s, *rs[i].r, ids[rs[i].t], "ref"); break;
        case 1: { ktl::type_allocator<int, R> ta(*rs[i].r); evs().clear(); pbt::log("typed"); int* p = ta.allocate(3); Ev e = evs().empty() ? Ev{} : evs()[0]; one('a', ids[rs[i].t], p, true, 3 * sizeof(int), "typed allocate"); (void)e; if (p) { ta.deallocate(p, 3); one('d', ids[rs[i].t], p, true, 3 * sizeof(int), "typed deallocate"); } break; }
        case 2: if (rs.size() < 5) { pbt::log("new ref to %zu", t); rs.push_back({std::make_unique<R>(*as[t]), t}); quiet("constructing a reference"); } break;
        case 3: if (rs.size() < 5) { pbt::log("copy ref %zu", i); rs.push_back({std::make_unique<R>(std::as_const(*rs[i].r)), rs[i].t}); quiet("copying a reference"); } break;
        case 4: if (rs.size() < 5) { pbt::log("move ref %zu", i); rs.push_back({std::make_unique<R>(std::move(*rs[i].r)), rs[i].t}); quiet("moving a reference"); } break;
        case 5: pbt::log("ref %zu=ref %zu", i, j); *rs[i].r = std::as_const(*rs[j].r); rs[i].t = rs[j].t; quiet("assigning a reference"); rebinds++; break;
        case 6: pbt::log("ref %zu=move(ref %zu)", i, j); *rs[i].r = std::move(*rs[j].r); rs[i].t = rs[j].t; quiet("assigning a reference"); rebinds++; break;
        case 7: if (rs.size() > 1) { pbt::log("drop ref %zu", i); rs.erase(rs.begin() + i); quiet("destroying a reference"); } break;
        default: use(s, *new (static_cast<void*>(alloca(sizeof(R)))) R(*as[t]), ids[t], "fresh ref"); break;
        }
        for (auto& r : rs) CHECK(&r.r->get_allocator() == as[r.t].get(), "a reference denotes another allocator than the one it was given");
        for (auto& r : rs) for (auto& q : rs)
        {
            bool same = &r == &q || r.t == q.t;
            CHECK((std::as_const(*r.r) == *q.r) == same && (std::as_const(*r.r) != *q.r) == !same, "references to %s compare %d / %d", same ? "the same allocator" : "different allocators", *r.r == *q.r, *r.r != *q.r);
        }
        for (size_t k = 0; k < n; k++) CHECK(as[k]->id == ids[k], "an allocator behind a reference changed");
    }
    evs().clear(); rs.clear(); quiet("destroying a reference");
    if (calls >= 4 && rebinds >= 1) pbt::nontrivial();
}
namespace
{
    template<int Tag> struct Glob
    {
        typedef ktl::global<Rec<Tag>> G; std::vector<std::unique_ptr<G>> gs; int cur;
        explicit Glob(Src& s)
        {
            gs.push_back(std::make_unique<G>()); cur = newState(s); pbt::log("global %d", Tag); evs().clear();
            gs[0]->set_allocator(Rec<Tag>(cur));
        }
        ~Glob() { G().set_allocator(Rec<Tag>()); }
        void dropLive() { for (size_t i = live.size(); i--; ) if (live[i].id == cur) { ::operator delete(live[i].p); live.erase(live.begin() + i); } states()[cur].blocks.clear(); }
        void step(Src& s)
        {
            evs().clear(); size_t i = s.draw(gs.size()), j = s.draw(gs.size());
            static const unsigned w[] = { 12, 3, 1, 2, 1, 1, 3, 1 };
            switch (s.pick(w))
            {
            case 0: use(s, *gs[i], cur, Tag ? "global1" : "global0"); break;
            case 1:     // a new state for everyone, possibly with a block allocated before
            {
                dropLive(); int old = cur, id = newState(s); Rec<Tag> a(id); evs().clear(); bool other = s.flag(1, 4);
                pbt::log("global%d.set_allocator%s", Tag, other ? " elsewhere" : "");
                if (!other && s.flag()) { char* p = (char*)a.allocate(9); live.push_back({p, 9, id}); evs().clear(); }
                if (other) { a.id = -1; otherSet(Tag, id); } else gs[i]->set_allocator(std::move(a));
                CHECK(evs().size() == 1 && evs()[0].kind == 'D' && evs()[0].id == old, "set_allocator did not end the former state exactly once"); evs().clear();
                cur = id; rebinds++; break;
            }
            case 2: if (gs.size() < 5) { gs.push_back(std::make_unique<G>()); quiet("constructing a global"); } break;
            case 3: if (gs.size() < 5) { if (s.flag()) gs.push_back(std::make_unique<G>(std::as_const(*gs[i]))); else gs.push_back(std::make_unique<G>(std::move(*gs[i]))); quiet("copying a global"); } break;
            case 4: if (s.flag()) *gs[i] = std::as_const(*gs[j]); else *gs[i] = std::move(*gs[j]); quiet("assigning a global"); break;
            case 5: if (gs.size() > 1) { gs.erase(gs.begin() + i); quiet("destroying a global"); } break;
            case 6:
            {
                size_t n = s.draw(20); pbt::log("global%d elsewhere", Tag);
                char* p = (char*)otherAllocate(Tag, n); one('a', cur, p, true, n, "allocate in another translation unit");
                if (p)
                {
                    bool own = gs[i]->owns(p); one('o', cur, p, true, 0, "owns"); CHECK(own == (n > 0), "a block allocated in another translation unit is not owned"); own = otherOwns(Tag, p); one('o', cur, p, true, 0, "owns in another translation unit");
                    if (s.flag()) { gs[i]->deallocate(p, n); one('d', cur, p, true, n, "deallocate"); } else { otherDeallocate(Tag, p, n); one('d', cur, p, true, n, "deallocate in another translation unit"); }
                }
                break;
            }
            default:
            {
                pbt::log("global%d in another thread", Tag); void* p = nullptr; std::thread t([&] { p = G().allocate(5); }); t.join();
                one('a', cur, p, true, 5, "allocate in another thread"); live.push_back({(char*)p, 5, cur}); break;
            }
            }
            for (auto& g : gs) CHECK(g->get_allocator().id == cur && &g->get_allocator() == &gs[0]->get_allocator(), "two instances of global denote different states");
            CHECK(G().get_allocator().id == cur, "a new instance of global denotes another state");
        }
    };
}
static void globals(Src& s)
{
    Glob<0> a(s); Glob<1> b(s);
    s.maxSteps = 15 + s.sizeHint();
    while (s.more(25)) { pbt::Span sp; if (s.flag()) a.step(s); else b.step(s); }
    if (calls >= 4 && rebinds >= 1) pbt::nontrivial();
}
pbt::Prop pbt::props[] = {
    {"references", [](Src& s) { if (s.flag()) references<6>(s); else references<7>(s); }, 1, "non-trivial if at least four calls were forwarded and a reference was assigned"},
    {"globals", globals, 1, "non-trivial if at least four calls were forwarded and a state was replaced"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { drain(); calls = rebinds = 0; for (auto& st : states()) st.second.blocks.clear(); states().clear(); evs().clear(); }
