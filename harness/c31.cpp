// C31: an exception from below passes through every composition and leaves nothing behind
#include "driver.h"
#include <regex>
#include <list>
#include <map>
using namespace drv;
using zoo::Obj;
using leaf::Boom;

namespace
{
    [[noreturn]] void escaped() { fputs("std::terminate: an exception met a function declared noexcept\n", stderr); abort(); }
    unsigned thrown, kinds; bool after;

    // Runs f with the 1st, 2nd, ... call that can throw throwing, until it gets through or `limit` were tried; f is then
    // (or at once) run undisturbed. `intact` is checked after each exception.
    template<typename F, typename G> bool inject(Src& s, const char* what, unsigned kind, F f, G intact)
    {
        unsigned limit = s.flag(2, 3) ? unsigned(s.range(1, 6)) : 0;
        for (unsigned k = 1; k <= limit; k++)
        {
            uint64_t seq = leaf::booms + 1; leaf::fuse = k;
            try { f(); leaf::fuse = 0; CHECK(leaf::booms + 1 == seq, "%s: an exception thrown below did not reach the caller", what); return true; }
            catch (const Boom& b)
            {
                leaf::fuse = 0;
                CHECK(b.n == seq && leaf::booms == seq, "%s: another exception than the one thrown reached the caller", what);
                pbt::log("%s: threw at %u", what, k);
                thrown++; kinds |= 1u << kind; after = true;
                leaf::checkErrors();
                intact();
            }
        }
        f();
        return false;
    }
    bool twinable(const char* name)
    {
        static const std::regex shared("dstack|dref|dglobal|leaf::H|\\bh<|\\bho<|\\bhom<|\\bhoc<|\\bhomc<");
        return !std::regex_search(name, shared);
    }
}

static void compositions(Src& s)
{
    drawPlans(s, 5, false);
    const zoo::Entry& e = drawEntry(s);
    History h(e), t(e);               // h meets exceptions, t is its twin that does not
    bool twin = twinable(e.name);
    thrown = kinds = 0; after = false; unsigned ok = 0;
    Obj::hook = [] { leaf::tick(); };
    auto make = [&](History& x) { x.create(); };
    inject(s, "constructor", 0, [&] { make(h); }, [&] { CHECK(h.inst.empty(), "harness"); });
    if (twin) make(t);
    struct Typed { Obj* p; size_t n; }; std::vector<Typed> typed, ttyped;
    s.maxSteps = 12 + 2 * s.sizeHint();
    auto intact = [&] { h.verify(); if (e.owns) for (auto& l : h.live) if (l.n) CHECK(h.inst[0]->owns(l.p), "a live block is not owned any more after an exception"); CHECK(Obj::ctors == Obj::dtors, "an object was built although its construction threw, or destroyed although it was not built"); };
    while (s.more(25))
    {
        pbt::Span sp;
        zoo::Any* a = h.inst[0]; zoo::Any* b = twin ? t.inst[0] : nullptr;
        static const unsigned w[] = { 8, 5, 4, 2, 3, 2, 1 };
        switch (s.pick(w))
        {
        case 0:
        {
            size_t n = drawSize(s); int r = -1, q = -1;
            inject(s, "allocate", 1, [&] { r = h.allocate(0, n); }, intact);
            if (r >= 0 && after) ok++;
            if (twin) { q = t.allocate(0, n); CHECK((r >= 0) == (q >= 0), "allocate(%zu) is %s; it would be %s, had no call thrown before", n, r >= 0 ? "served" : "refused", q >= 0 ? "served" : "refused"); }
            break;
        }
        case 1: if (!h.live.empty()) { size_t k = h.pickLive(s); h.deallocate(k); if (twin) t.deallocate(k); } break;
        case 2:     // construct in a block, then destroy
        {
            if (h.live.empty()) break;
            Live& l = h.live[s.draw(h.live.size())];
            if (l.n < sizeof(Obj) || (uintptr_t(l.p) % alignof(Obj))) break;
            Obj* o = reinterpret_cast<Obj*>(l.p); int how = int(s.draw(4)); bool ty = s.flag(1, 3); Obj::Tok tok(5); uint64_t ref = 0, c0 = Obj::ctors;
            auto refill = [&] { fill(l.p, l.n, l.pat); };
            inject(s, "construct", 2, [&]
            {
                if (ty) a->tConstruct(o, how, 7, &tok, &ref);
                else if (!a->construct(o, how, 7, &tok, &ref)) ::new (o) Obj();
            }, [&] { CHECK(Obj::ctors == c0 && Obj::ctors == Obj::dtors, "an object was built although its construction threw"); refill(); intact(); });
            CHECK(Obj::ctors == c0 + 1, "construct did not build one object");
            if (ty) a->tDestroy(o); else if (!a->destroy(o)) o->~Obj();
            CHECK(Obj::dtors == c0 + 1, "destroy did not end one object");
            refill(); h.step(); break;
        }
        case 3:
        {
            if (!e.maxs) break;
            // (std::allocator_traits::max_size is noexcept itself)
            inject(s, "max_size", 3, [&] { a->max_size(); }, intact); a->tMax(); h.step();
            break;
        }
        case 4:     // typed
        {
            size_t n = s.range(1, 8); Obj* p = nullptr;
            inject(s, "typed allocate", 4, [&] { p = a->tAllocate(n); }, intact);
            pbt::log("typed(%zu)=%s", n, p ? "ok" : "null");
            h.step();
            if (twin) { Obj* q = b->tAllocate(n); CHECK(!p == !q, "typed allocate(%zu) is %s; it would be %s, had no call thrown before", n, p ? "served" : "refused", q ? "served" : "refused"); if (q) ttyped.push_back({q, n}); }
            if (p) { memset((void*)p, 0x77, n * sizeof(Obj)); typed.push_back({p, n}); if (after) ok++; h.verify(); }
            break;
        }
        case 5: if (!typed.empty()) { size_t k = s.draw(typed.size()); a->tDeallocate(typed[k].p, typed[k].n); typed.erase(typed.begin() + k); if (twin) { b->tDeallocate(ttyped[k].p, ttyped[k].n); ttyped.erase(ttyped.begin() + k); } h.step(); h.verify(); } break;
        default:
            if (h.inst.size() < 2) { inject(s, "another instance", 0, [&] { make(h); }, intact); delete h.inst.back(); h.inst.pop_back(); h.step(); }
            break;
        }
        if (twin && e.owns) for (size_t i = 0; i < h.live.size(); i++) CHECK(h.inst[0]->owns(h.live[i].p) == t.inst[0]->owns(t.live[i].p), "owns() of a live block depends on a call that threw");
    }
    if (thrown >= 2 && ok >= 1) pbt::nontrivial();
    if (kinds & 1) pbt::label("instance construction threw"); if (kinds & 2) pbt::label("allocate threw"); if (kinds & 4) pbt::label("construct threw"); if (kinds & 8) pbt::label("max_size threw");
    if (twin) pbt::label("compared with a twin");
    for (size_t i = 0; i < typed.size(); i++) h.inst[0]->tDeallocate(typed[i].p, typed[i].n);
    for (size_t i = 0; i < ttyped.size(); i++) t.inst[0]->tDeallocate(ttyped[i].p, ttyped[i].n);
    h.freeAll(s); while (!t.live.empty()) t.deallocate(t.live.size() - 1);
    h.destroyAll(); t.destroyAll(); h.balance();
    CHECK(leaf::ownInstances() == 0, "%lld instances of the underlying allocators were never destroyed", (long long)leaf::ownInstances());
}

// construction with arguments for the allocators below
namespace
{
    struct Num { int v; Num(int x = 0) noexcept : v(x) {} };            // constructible from what the allocators are, without throwing
    template<typename M> void building(Src& s, const char* name, M make)
    {
        pbt::log("%s", name);
        auto nothing = [&]
        {
            leaf::checkErrors();
            CHECK(leaf::liveBlocks() == 0, "%s: a block was never given back", name);
            CHECK(leaf::ownInstances() == 0, "%s: %lld instances were not destroyed", name, (long long)leaf::ownInstances());
            CHECK(heap::liveBlocks() == g_heapBase, "%s: %zd heap blocks leaked", name, (ssize_t)heap::liveBlocks() - (ssize_t)g_heapBase);
            CHECK(zoo::sink().text.empty(), "%s: overflow reported %s", name, zoo::sink().text.c_str());
        };
        inject(s, name, 0, [&]
        {
            make([&](auto&& a)
            {
                void* p = a.allocate(16);
                if (p) a.deallocate(static_cast<decltype(a.allocate(16))>(p), 16);
            });
        }, nothing);
        nothing();
        if (thrown) pbt::nontrivial();
    }
    // allocates while its destructor undoes it: an exception from allocate is not lost
    using X0 = leaf::X<0, leaf::ALL>; using X1 = leaf::X<1, leaf::ALL>; using XN = leaf::X<2, 0>;
}
static void constructors(Src& s)
{
    using namespace ktl;
    thrown = kinds = 0; after = false;
#define MK(...) building(s, #__VA_ARGS__, [&](auto use) { __VA_ARGS__ a; use(a); })
#define MKA(args, ...) building(s, #__VA_ARGS__ #args, [&](auto use) { __VA_ARGS__ a args; use(a); })
    switch (s.draw(33))
    {
    case 0: MK(shared<X0>); break;
    case 1: MKA((5), shared<X0>); break;
    case 2: MK(atomic_shared<threaded<X0>>); break;
    case 3: MKA((5), atomic_shared<threaded<X0>>); break;
    case 4: MKA((5), freelist<0, 64, X0>); break;
    case 5: MKA((5), fallback<X0, X1>); break;
    case 6: MKA((5, 6), fallback<X0, X1>); break;
    case 7: MKA((std::make_tuple(5), std::make_tuple(6)), fallback<X0, X1>); break;
    case 8: MKA((std::make_tuple(5)), fallback<X0, X1>); break;
    case 9: MKA((5), segragator<8, X0, X1>); break;
    case 10: MKA((5, 6), segragator<8, X0, X1>); break;
    case 11: MKA((std::make_tuple(5), std::make_tuple(6)), segragator<8, X0, X1>); break;
    case 12: MKA((std::make_tuple(5)), segragator<64, X0, X1>); break;
    case 13: MKA((zoo::sink(), 5), overflow<X0, zoo::Sink>); break;
    case 14: MKA((zoo::sink()), overflow<X0, zoo::Sink>); break;
    case 15: MKA((5), threaded<X0>); break;
    case 16: MKA((5), shared<freelist<0, 64, X0>>); break;
    case 17: MKA((5), shared<fallback<freelist<0, 8, X0>, X1>>); break;
    case 18: MK(cascading<X0>); break;
    case 19: MK(cascading<shared<X0>>); break;
    case 20: MK(cascading<freelist<0, 64, X0>>); break;
    case 21: MK(shared<cascading<fallback<X0, X1>>>); break;
    // typed, also with a value type that can be constructed from the same arguments without throwing
    case 22: MK(type_allocator<Num, shared<X0>>); break;
    case 23: MKA((5), type_allocator<Num, shared<X0>>); break;
    case 24: MKA((5), type_allocator<Num, freelist<0, 256, X0>>); break;
    case 25: MKA((5), type_allocator<int, shared<X0>>); break;
    case 26: MKA((5), type_allocator<Obj, shared<X0>>); break;
    case 27: MKA((5, 6), type_allocator<std::pair<int, int>, fallback<X0, X1>>); break;
    case 28: MKA((zoo::sink(), 5), type_allocator<Num, overflow<X0, zoo::Sink>>); break;
    case 29: building(s, "type_allocator<int, reference<X>> rebound", [&](auto use) { X0 x; type_allocator<int, reference<X0>> a(x); type_allocator<double, reference<X0>> b(a); auto c(b); use(b); use(c); use(a); }); break;
    case 30: building(s, "global<cascading<X>>", [&](auto use) { zoo::dglobal<cascading<leaf::X<4, leaf::ALL>>> a; struct End { ~End() { leaf::runHooks(); } } end; use(a); }); break;
    case 31: building(s, "shared<X>, copied, moved and assigned", [&](auto use) { shared<X0> a(5); shared<X0> b(a), c(std::move(a)); shared<X0> d; d = b; b = std::move(c); use(d); use(b); }); break;
    default: MK(type_allocator<Num, shared<cascading<X0>>>); break;
    }
}

// questions that throw: ownership and comparison
namespace
{
    enum : unsigned { EQ = 1, NE = 2, OWN = 4 };
    template<int ID, unsigned Q> class Ask : public leaf::R<ID, leaf::ALL>
    {
        typedef leaf::R<ID, leaf::ALL> Base;
        static void maybe(unsigned f) { if (Q & f) leaf::tick(); }
    public:
        bool operator==(const Ask& o) const noexcept(!(Q & EQ)) { maybe(EQ); return Base::operator==(o); }
        bool operator!=(const Ask& o) const noexcept(!(Q & NE)) { maybe(NE); return Base::operator!=(o); }
        bool owns(void* p) const noexcept(!(Q & OWN)) { maybe(OWN); return Base::owns(p); }
    };
    template<typename A> struct inner { typedef A type; };
    template<typename T, typename A> struct inner<ktl::type_allocator<T, A>> { typedef A type; };
    // same: both compare equal although they are two.
    template<typename A> void asking(Src& s, const char* name, A& a, A& b, bool same)
    {
        pbt::log("%s", name);
        for (A* x : {&a, &b}) { auto* p = x->allocate(8); if (p) x->deallocate(p, 8); }       // in use, from here on
        Obj::hook = nullptr; struct B { char* p; size_t n; uint32_t pat; }; std::vector<B> live; uint32_t pats = 0; const A& ca = a; const A& cb = b;
        auto intact = [&] { leaf::checkErrors(); for (auto& l : live) CHECK(firstDiff(l.p, l.n, l.pat) == SIZE_MAX, "the content of a live block changed"); CHECK(Obj::ctors == Obj::dtors, "harness"); };
        unsigned ok = 0; s.maxSteps = 25;
        while (s.more(12))
        {
            pbt::Span sp; size_t k = live.empty() ? 0 : s.draw(live.size()); bool r = false;
            switch (s.draw(6))
            {
            case 0: { size_t n = s.range(1, 64); char* p = (char*)a.allocate(n); if (p) { fill(p, n, ++pats); live.push_back({p, n, pats}); } break; }
            case 1: if (s.flag()) { inject(s, "==", 1, [&] { r = ca == cb; }, intact); CHECK(r == same, "== is wrong"); } else { inject(s, "== itself", 1, [&] { r = ca == ca; }, intact); CHECK(r, "an allocator is not equal to itself"); } ok++; break;
            case 2: if (s.flag()) { inject(s, "!=", 2, [&] { r = ca != cb; }, intact); CHECK(r == !same, "!= is wrong"); } else { inject(s, "!= itself", 2, [&] { r = ca != ca; }, intact); CHECK(!r, "an allocator is not equal to itself"); } ok++; break;
            case 3: if constexpr (zoo::has_owns<A>::value) if (!live.empty()) { inject(s, "owns", 3, [&] { r = ca.owns(live[k].p); }, intact); CHECK(r, "a live block is not owned"); ok++; } break;
            case 4: if (!live.empty()) { auto l = live[k]; inject(s, "deallocate", 4, [&] { a.deallocate(l.p, l.n); }, intact); live.erase(live.begin() + k); ok++; } break;
            default:
                if (!live.empty() && live[k].n >= sizeof(Obj))
                {
                    Obj* o = reinterpret_cast<Obj*>(live[k].p); auto& l = live[k]; uint64_t c0 = Obj::ctors;
                    if constexpr (std::is_same_v<A, ktl::type_allocator<char, typename inner<A>::type>>) {} else if constexpr (ktl::detail::has_construct_v<A, Obj*>)
                    {
                        inject(s, "construct", 5, [&] { a.construct(o); }, [&] { CHECK(Obj::ctors == c0, "an object was built although its construction threw"); intact(); });
                        CHECK(Obj::ctors == c0 + 1, "construct did not build one object");
                        inject(s, "destroy", 6, [&] { a.destroy(o); }, [&] { leaf::checkErrors(); CHECK(Obj::dtors == c0, "an object was destroyed although destroy threw"); });
                        CHECK(Obj::dtors == c0 + 1, "destroy did not end one object"); fill(l.p, l.n, l.pat); ok++;
                    }
                }
            }
            intact();
        }
        while (!live.empty()) { a.deallocate(live.back().p, live.back().n); live.pop_back(); }
        intact(); if (thrown >= 2 && ok >= 3) pbt::nontrivial();
    }
    template<unsigned Q> void questions(Src& s)
    {
        using namespace ktl; using A0 = Ask<0, Q>; using A1 = Ask<1, Q>;
#define ASK(...) { typedef __VA_ARGS__ T; T a, b; asking(s, #__VA_ARGS__, a, b, false); break; }
        switch (s.draw(15))
        {
        case 0: ASK(freelist<0, 64, A0>)
        case 1: ASK(fallback<A0, A1>)
        case 2: ASK(segragator<24, A0, A1>)
        case 3: ASK(zoo::doverflow<A0>)
        case 4: ASK(cascading<A0>)
        case 5: ASK(threaded<A0>)
        case 6: ASK(shared<A0>)
        case 7: ASK(atomic_shared<threaded<A0>>)
        case 8: ASK(fallback<cascading<A0>, threaded<A1>>)
        case 9: ASK(segragator<24, freelist<0, 24, A0>, zoo::doverflow<A1>>)
        case 10: ASK(shared<fallback<threaded<A0>, segragator<32, A1, Ask<2, Q>>>>)
        case 11: ASK(cascading<fallback<A0, A1>>)
        case 12: { A0 x, y; reference<A0> a(x), b(y); asking(s, "reference<A>", a, b, false); break; }
        case 13: { fallback<A0, A1> x; reference<fallback<A0, A1>> a(x), b(x); asking(s, "reference<fallback<A, A>>, twice the same", a, b, true); break; }
        default: { typedef type_allocator<char, shared<fallback<A0, A1>>> T; T a; T b(a); asking(s, "type_allocator<char, shared<fallback<A, A>>>, copied", a, b, true); break; }
        }
#undef ASK
    }
}
static void questions(Src& s)
{
    thrown = kinds = 0; after = false;
    for (int i = 0; i < 3; i++) if (s.flag(1, 3)) leaf::plan[i].budget = s.range(50, 300);
    switch (s.draw(5)) { case 0: questions<EQ>(s); break; case 1: questions<NE>(s); break; case 2: questions<OWN>(s); break; case 3: questions<EQ | NE>(s); break; default: questions<EQ | NE | OWN>(s); break; }
    leaf::checkErrors();
    CHECK(leaf::liveBlocks() == 0 && heap::liveBlocks() == g_heapBase, "memory leaked");
    CHECK(leaf::ownInstances() == 0, "instances leaked");
    CHECK(zoo::sink().text.empty(), "overflow reported on a correct history: %s", zoo::sink().text.c_str());
}

// standard containers over an allocator that throws, with elements that throw
namespace
{
    struct El
    {
        static int64_t live; int* v;
        El(int x) : v(nullptr) { leaf::tick(); v = new int(x); live++; }
        El(const El& o) : v(nullptr) { leaf::tick(); v = new int(*o.v); live++; }
        El(El&& o) noexcept : v(new int(*o.v)) { live++; }
        El& operator=(const El& o) { leaf::tick(); *v = *o.v; return *this; }
        ~El() { delete v; v = nullptr; live--; }
        bool operator==(int x) const { return *v == x; }
        bool operator<(const El& o) const { return *v < *o.v; }
    };
    int64_t El::live = 0;
    template<typename A> void stdc(Src& s, const char* name, A al)
    {
        using V = std::vector<El, typename std::allocator_traits<A>::template rebind_alloc<El>>;
        using L = std::list<El, typename std::allocator_traits<A>::template rebind_alloc<El>>;
        using M = std::map<int, El, std::less<int>, typename std::allocator_traits<A>::template rebind_alloc<std::pair<const int, El>>>;
        typename V::allocator_type va(al); typename L::allocator_type la(al); typename M::allocator_type ma(al);
        pbt::log("%s", name);
        {
            V v(va); L l(la); M m(ma); std::vector<int> mv, ml; std::map<int, int> mm; unsigned ok = 0;
            auto same = [&]
            {
                CHECK(v.size() == mv.size() && std::equal(v.begin(), v.end(), mv.begin()), "%s: std::vector changed although the operation threw", name);
                CHECK(l.size() == ml.size() && std::equal(l.begin(), l.end(), ml.begin()), "%s: std::list changed although the operation threw", name);
                CHECK(m.size() == mm.size() && std::equal(m.begin(), m.end(), mm.begin(), [](auto& x, auto& y) { return x.first == y.first && x.second == y.second; }), "%s: std::map changed although the operation threw", name);
                CHECK(El::live == int64_t(mv.size() + ml.size() + mm.size()), "%s: %lld elements are alive instead of %zu", name, (long long)El::live, mv.size() + ml.size() + mm.size());
            };
            s.maxSteps = 30;
            while (s.more(15))
            {
                pbt::Span sp; int x = int(s.draw(40));
                switch (s.draw(6))
                {
                case 0: inject(s, "vector.push_back", 1, [&] { v.emplace_back(x); }, same); mv.push_back(x); break;
                case 1: inject(s, "list.push_back", 2, [&] { l.emplace_back(x); }, same); ml.push_back(x); break;
                case 2: inject(s, "map.emplace", 3, [&] { m.emplace(x, x + 1); }, same); mm.emplace(x, x + 1); break;
                case 3: inject(s, "vector copy", 4, [&] { V c(v); CHECK(c.size() == v.size(), "copy differs"); }, same); break;
                case 4: inject(s, "list copy", 5, [&] { L c(l); CHECK(c.size() == l.size(), "copy differs"); }, same); break;
                default: if (!mv.empty()) { v.pop_back(); mv.pop_back(); } if (!ml.empty()) { l.pop_front(); ml.erase(ml.begin()); } if (!mm.empty()) { m.erase(m.begin()); mm.erase(mm.begin()); } break;
                }
                same(); leaf::checkErrors(); if (after) ok++;
            }
            if (thrown >= 2 && ok >= 2) pbt::nontrivial();
        }
        CHECK(El::live == 0, "%s: %lld elements were never destroyed", name, (long long)El::live);
    }
}
static void containers(Src& s)
{
    using namespace ktl;
    thrown = kinds = 0; after = false; El::live = 0;
    switch (s.draw(6))
    {
    case 0: stdc(s, "type_shared<X>", type_shared<int, XN>()); break;
    case 1: stdc(s, "type_shared_threaded<X>", type_shared_threaded<int, X0>()); break;
    case 2: stdc(s, "type shared<segragator<freelist<X>, X>>", type_allocator<int, shared<segragator<64, freelist<0, 64, X0>, X1>>>()); break;
    case 3: stdc(s, "type shared<fallback<freelist<X>, X>>", type_allocator<int, shared<fallback<freelist<0, 32, X0>, X1>>>()); break;
    case 4: stdc(s, "type shared<fallback<linear, overflow<X>>>", type_allocator<int, shared<fallback<linear_allocator<256>, zoo::doverflow<X1>>>>()); break;
    default: { cascading<X0> c; c.deallocate(c.allocate(8), 8); stdc(s, "type reference<cascading<X>>", type_allocator<int, reference<cascading<X0>>>(c)); break; }
    }
    leaf::checkErrors();
    CHECK(leaf::liveBlocks() == 0 && heap::liveBlocks() == g_heapBase, "memory leaked");
    CHECK(leaf::ownInstances() == 0, "instances leaked");
    CHECK(zoo::sink().text.empty(), "overflow reported on a correct history: %s", zoo::sink().text.c_str());
}
pbt::Prop pbt::props[] = {
    {"compositions", compositions, 4, "non-trivial if at least two calls threw and memory was allocated afterwards"},
    {"constructors", constructors, 1, "non-trivial if a call threw while the allocator was being built or used"},
    {"containers", containers, 2, "non-trivial if at least two container operations threw and two succeeded afterwards"},
    {"questions", questions, 1, "ownership and comparison may throw; non-trivial if at least two calls threw and three got through"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); std::set_terminate(escaped); }
