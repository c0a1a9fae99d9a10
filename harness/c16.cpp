// C16: allocator equality means interchangeable, and != is its negation
#include "driver.h"
using namespace drv;

static void laws(zoo::Any& a, zoo::Any& b, const char* what)
{
    bool e1 = a.eq(b), e2 = b.eq(a), n1 = a.ne(b), n2 = b.ne(a);
    CHECK(n1 == !e1 && n2 == !e2, "%s: == gives %d but != gives %d", what, e1, n1);
    CHECK(e1 == e2, "%s: == is not symmetric", what);
    CHECK(a.eq(a) && b.eq(b), "%s: == is not reflexive", what);
    CHECK(!a.ne(a) && !b.ne(b), "%s: an allocator is != itself", what);
}

static void equality(Src& s)
{
    drawPlans(s);
    History h(drawEntry(s));
    const zoo::Entry& e = h.e;
    std::vector<int> group; int groups = 0;
    h.create(); group.push_back(groups++);
    h.create(); group.push_back(groups++);
    unsigned swaps = 0, copies = 0, moved = 0;
    std::vector<zoo::Any*> husks;       // moved from: still comparable
    std::vector<bool> used(8, false);
    struct Clean { std::vector<zoo::Any*>& h; ~Clean() { for (auto* a : h) delete a; } } clean{husks};
    s.maxSteps = 10 + 2 * s.sizeHint();
    while (s.more(25))
    {
        pbt::Span sp;
        static const unsigned w[] = { 5, 4, 2, 4, 1 };
        switch (s.pick(w))
        {
        case 0: { int i = int(s.draw(h.inst.size())); used[i] = true; h.allocate(i, drawSize(s)); break; }
        case 1: if (!h.live.empty()) h.deallocate(h.pickLive(s)); break;
        case 2:
            if (e.handle && e.copyable && h.inst.size() < 6)
            {
                int i = int(s.draw(h.inst.size()));
                pbt::log("#%zu=copy #%d", h.inst.size(), i);
                h.inst.push_back(h.inst[i]->copy()); group.push_back(group[i]); copies++; used[h.inst.size() - 1] = true;
                CHECK(h.inst[i]->eq(*h.inst.back()), "a copy does not compare equal to its original");
                h.step();
            }
            break;
        case 4:
        {
            int i = int(s.draw(h.inst.size()));
            if (!e.movable || husks.size() >= 3) break;
            if (e.handle && e.copyable) { zoo::Any* c = h.inst[i]->copy(); zoo::Any* m = c->moveOut(); husks.push_back(c); pbt::log("move of a copy of #%d", i);
                CHECK(m->eq(*h.inst[i]), "what a copy was moved into does not compare equal to the original"); laws(*c, *m, e.name); delete m; moved++; }
            else if (!used[i]) { zoo::Any* m = h.inst[i]->moveOut(); husks.push_back(h.inst[i]); h.inst[i] = m; pbt::log("move of #%d", i); laws(*husks.back(), *m, e.name); moved++; }
            h.step();
            break;
        }
        default:
        {
            int i = int(s.draw(h.inst.size())), j = int(s.draw(h.inst.size()));
            laws(*h.inst[i], *h.inst[j], e.name);
            bool eq = h.inst[i]->eq(*h.inst[j]);
            if (e.handle) CHECK(eq == (e.always || group[i] == group[j]), "#%d %s #%d although they %s", i, eq ? "==" : "!=", j, eq ? "denote different state" : "denote the same state");
            // interchangeable: a block of one is deallocated through the other
            if (eq && i != j && !e.over)
                for (auto& l : h.live) if (l.inst == i) { l.inst = j; used[j] = true; swaps++; pbt::log("hand over %llu to #%d", (unsigned long long)l.seq, j); break; }
            break;
        }
        }
    }
    for (size_t i = 0; i < h.inst.size(); i++) for (size_t j = 0; j <= i; j++) laws(*h.inst[i], *h.inst[j], e.name);
    for (auto* a : husks) { for (auto* b : h.inst) laws(*a, *b, e.name); for (auto* b : husks) laws(*a, *b, e.name); }
    if (moved) pbt::label("moved-from allocator compared");
    if (h.allocs >= 1 && (swaps || copies)) pbt::nontrivial();
    if (swaps) pbt::label("block handed over to an equal allocator");
    h.freeAll(s);
    for (size_t i = 0; i < h.inst.size(); i++) for (size_t j = 0; j <= i; j++) laws(*h.inst[i], *h.inst[j], e.name);
    for (auto* a : husks) delete a;
    husks.clear();
    h.destroyAll(); h.balance();
}

// typed allocators: value types differ, handles copied, moved, rebound
namespace
{
    template<typename A, typename Make> void typedEq(Src& s, const char* name, Make make, bool always)
    {
        using TI = ktl::type_allocator<int, A>; using TD = ktl::type_allocator<double, A>;
        std::vector<std::unique_ptr<TI>> is; std::vector<std::unique_ptr<TD>> ds; std::vector<int> gi, gd; int groups = 0;
        struct B { int* p; size_t n; size_t inst; }; std::vector<B> live;
        is.emplace_back(make(0)); gi.push_back(groups++); is.emplace_back(make(1)); gi.push_back(groups++);
        pbt::log("%s", name);
        s.maxSteps = 40; unsigned work = 0, moves = 0;
        while (s.more(20))
        {
            pbt::Span sp;
            switch (s.draw(9))
            {
            case 7: { size_t i = s.draw(is.size()); ds.push_back(std::make_unique<TD>(std::move(*is[i]))); gd.push_back(gi[i]); pbt::log("d%zu=rebind move(i%zu)", ds.size() - 1, i); moves++;
                      CHECK(*is[i] == *ds.back(), "%s: after rebinding from an rvalue the source differs from the result", name); break; }
            case 8: { if (ds.empty()) break; size_t i = s.draw(ds.size()); is.push_back(std::make_unique<TI>(std::move(*ds[i]))); gi.push_back(gd[i]); pbt::log("i%zu=rebind move(d%zu)", is.size() - 1, i); moves++;
                      CHECK(*ds[i] == *is.back(), "%s: after rebinding from an rvalue the source differs from the result", name); break; }
            case 0: { size_t i = s.draw(is.size()); is.push_back(std::make_unique<TI>(std::as_const(*is[i]))); gi.push_back(gi[i]); pbt::log("i%zu=copy i%zu", is.size() - 1, i); break; }
            case 1: { size_t i = s.draw(is.size()); ds.push_back(std::make_unique<TD>(std::as_const(*is[i]))); gd.push_back(gi[i]); pbt::log("d%zu=rebind i%zu", ds.size() - 1, i); break; }
            case 2: { if (ds.empty()) break; size_t i = s.draw(ds.size()); is.push_back(std::make_unique<TI>(std::as_const(*ds[i]))); gi.push_back(gd[i]); pbt::log("i%zu=rebind d%zu", is.size() - 1, i); break; }
            case 3: { size_t i = s.draw(is.size()); is.push_back(std::make_unique<TI>(std::move(*is[i]))); gi.push_back(gi[i]); pbt::log("i%zu=move i%zu", is.size() - 1, i);
                      CHECK(*is[i] == *is.back(), "%s: after move construction the source differs from the result", name); break; }
            case 4: { size_t i = s.draw(is.size()), j = s.draw(is.size());
                      bool last = false; for (auto& b : live) if (b.inst == i) last = true;    // keep the state of live blocks reachable
                      if (last) break;
                      pbt::log("i%zu=i%zu", i, j); if (s.flag()) *is[i] = std::as_const(*is[j]); else *is[i] = std::move(*is[j]); gi[i] = gi[j]; break; }
            case 5: { size_t i = s.draw(is.size()); size_t n = s.range(1, 8); int* p = is[i]->allocate(n); if (p) { memset(p, 1, n * sizeof(int)); live.push_back({p, n, i}); } break; }
            default:
                if (!live.empty())
                {
                    size_t k = s.draw(live.size()); auto b = live[k];
                    std::vector<size_t> c; for (size_t i = 0; i < is.size(); i++) if (*is[i] == *is[b.inst]) c.push_back(i);
                    size_t j = c[s.draw(c.size())];
                    if (j != b.inst) { work++; pbt::log("block of i%zu freed through i%zu", b.inst, j); }
                    is[j]->deallocate(b.p, b.n); live.erase(live.begin() + k);
                    leaf::checkErrors();
                }
                break;
            }
            for (size_t i = 0; i < is.size(); i++)
            {
                for (size_t j = 0; j < is.size(); j++)
                {
                    bool want = always || gi[i] == gi[j];
                    CHECK((*is[i] == *is[j]) == want, "%s: i%zu == i%zu gives %d, expected %d", name, i, j, *is[i] == *is[j], want);
                    CHECK((*is[i] != *is[j]) == !want, "%s: i%zu != i%zu gives %d, expected %d", name, i, j, *is[i] != *is[j], !want);
                }
                for (size_t j = 0; j < ds.size(); j++)
                {
                    bool want = always || gi[i] == gd[j];
                    CHECK((*is[i] == *ds[j]) == want && (*ds[j] == *is[i]) == want, "%s: i%zu == d%zu wrong, expected %d", name, i, j, want);
                    CHECK((*is[i] != *ds[j]) == !want && (*ds[j] != *is[i]) == !want, "%s: i%zu != d%zu wrong, expected %d", name, i, j, !want);
                }
            }
        }
        if (is.size() + ds.size() >= 4) pbt::nontrivial();
        if (moves) pbt::label("rebound from an rvalue");
        if (work) pbt::label("typed block freed through an equal handle");
        for (auto& b : live) is[b.inst]->deallocate(b.p, b.n);
        leaf::checkErrors();
    }
}
static void typedEquality(Src& s)
{
    using namespace ktl;
    switch (s.draw(9))
    {
    case 0: typedEq<mallocator>(s, "type_mallocator", [](int) { return new type_mallocator<int>(); }, true); break;
    case 1: typedEq<shared<leaf::R<0, 0>>>(s, "type_shared<leaf>", [](int) { return new type_shared<int, leaf::R<0, 0>>(); }, false); break;
    case 2: typedEq<atomic_shared<threaded<leaf::R<0, 0>>>>(s, "type_shared_threaded<leaf>", [](int) { return new type_shared_threaded<int, leaf::R<0, 0>>(); }, false); break;
    case 3: { ktl::stack<512> st[2]; typedEq<stack_allocator<512>>(s, "type_stack_allocator", [&](int i) { return new type_stack_allocator<int, 512>(st[i]); }, false); break; }
    case 4: { leaf::R<1, 0> l[2]; typedEq<reference<leaf::R<1, 0>>>(s, "type reference<leaf>", [&](int i) { return new type_allocator<int, reference<leaf::R<1, 0>>>(l[i]); }, false); break; }
    case 5: typedEq<zoo::dglobal<linear_allocator<512>>>(s, "type global<linear>", [](int) { return new type_allocator<int, zoo::dglobal<linear_allocator<512>>>(); }, true); break;
    // two allocators that compare equal to each other, but are not the same state
    case 6: { mallocator m[2]; typedEq<reference<mallocator>>(s, "type reference<mallocator>", [&](int i) { return new type_allocator<int, reference<mallocator>>(m[i]); }, false); break; }
    case 7: { typedef freelist<0, 64, mallocator> F; F f[2]; typedEq<reference<F>>(s, "type reference<freelist<mallocator>>", [&](int i) { return new type_allocator<int, reference<F>>(f[i]); }, false); break; }
    default: typedEq<shared<cascading<linear_allocator<128>>>>(s, "type_shared_cascading_allocator<linear>", [](int) { return new type_shared_cascading_allocator<int, linear_allocator<128>>(); }, false); break;
    }
    leaf::runHooks(); leaf::checkErrors();
    CHECK(leaf::liveBlocks() == 0 && heap::liveBlocks() == g_heapBase, "memory leaked");
}
pbt::Prop pbt::props[] = {
    {"equality", equality, 3, "non-trivial if memory was allocated and a copy was made or a block was deallocated through an equal allocator"},
    {"typedEquality", typedEquality, 2, "non-trivial if at least four typed handles (copies, moves, rebinds) existed"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
