// C17: construct/destroy reach the owning allocator exactly once
#include "driver.h"
using namespace drv;
using zoo::Obj;

namespace
{
    struct Slot { int how = -1; uint64_t v = 0; };             // how < 0: no object there
    struct Block { Obj* p; size_t bytes; bool typed; size_t count; size_t off; std::vector<Slot> slots; };
}

static void routing(Src& s)
{
    drawPlans(s, 5, s.flag(1, 3));
    const zoo::Entry& e = drawEntry(s);
    History h(e);
    h.create();
    zoo::Any* a = h.inst[0];
    leaf::recording = true;
    std::vector<Block> blocks; unsigned objects = 0, routed = 0, plain = 0; uint64_t live = 0;

    auto checkSlot = [&](Obj* o, const Slot& sl)
    {
        CHECK(o->self == o && o->how == sl.how && o->v == sl.v, "an object constructed earlier changed (expected how=%d v=%llu, found how=%d v=%llu%s)", sl.how, (unsigned long long)sl.v, o->how, (unsigned long long)o->v, o->self == o ? "" : ", not its own address");
    };
    auto verify = [&]
    {
        for (auto& b : blocks) for (size_t i = 0; i < b.count; i++) if (b.slots[i].how >= 0) checkSlot(b.p + i, b.slots[i]);
        CHECK(Obj::ctors - Obj::dtors == live, "%llu constructors and %llu destructors ran, %llu objects expected alive", (unsigned long long)Obj::ctors, (unsigned long long)Obj::dtors, (unsigned long long)live);
        h.step();
    };
    // the events of one construct or destroy call
    auto events = [&](leaf::Kind k, unsigned flag, Obj* o, bool offered)
    {
        const leaf::Arena* owner = leaf::find(o);
        size_t n = 0, right = 0;
        for (auto& ev : leaf::events) if (ev.kind == leaf::Construct || ev.kind == leaf::Destroy)
        {
            n++;
            if (ev.kind == k && owner && ev.serial == owner->serial && ev.p == o && ev.n == sizeof(Obj)) right++;
            else pbt::fail("%s of an object %s was seen by leaf %d #%llu at %s address as %s", k == leaf::Construct ? "construct" : "destroy", owner ? "in memory of another allocator" : "in memory of no leaf",
                           ev.id, (unsigned long long)ev.serial, ev.p == o ? "its" : "another", ev.kind == leaf::Construct ? "construct" : "destroy");
        }
        bool want = offered && owner && (owner->flags & flag);
        CHECK(n == (want ? 1u : 0u), "%s reached the owning allocator (leaf %d) %zu times, expected %d", k == leaf::Construct ? "construct" : "destroy", owner ? owner->id : -1, n, want);
        if (want) routed++; else plain++;
        leaf::events.clear();
    };
    auto construct = [&](Block& b, size_t i)
    {
        Obj* o = b.p + i; Slot& sl = b.slots[i];
        int how = int(s.draw(4)); uint64_t v = 1 + s.draw(1000); Obj::Tok tok(v); uint64_t ref = v * 3;
        bool typed = b.typed || s.flag(1, 3);
        pbt::log("construct how=%d%s", how, typed ? " typed" : "");
        uint64_t c0 = Obj::ctors, d0 = Obj::dtors;
        memset((void*)o, 0xee, sizeof(Obj));
        leaf::events.clear();
        bool offered = e.cons;
        if (typed) a->tConstruct(o, how, v, &tok, &ref);
        else if (!a->construct(o, how, v, &tok, &ref)) { offered = false; ::new (o) Obj(); how = 0; }
        CHECK(Obj::ctors == c0 + 1 && Obj::dtors == d0, "construct ran %llu constructors and %llu destructors", (unsigned long long)(Obj::ctors - c0), (unsigned long long)(Obj::dtors - d0));
        sl.how = how; sl.v = how == 0 ? 0 : v; live++; objects++;
        CHECK(o->self == o, "construct built the object at another address");
        CHECK(o->how == how, "constructor form %d was called although form %d was asked for (0 default, 1 lvalue, 2 rvalue, 3 two arguments)", o->how, how);
        CHECK(o->v == sl.v, "constructor received %llu instead of %llu", (unsigned long long)o->v, (unsigned long long)sl.v);
        CHECK(tok.movedFrom == (how == 2), "value category of the argument was not preserved");
        CHECK(ref == v * 3 + (how == 3), "reference argument was not forwarded as a reference");
        events(leaf::Construct, leaf::CONS, o, offered);
        verify();
    };
    auto destroy = [&](Block& b, size_t i)
    {
        Obj* o = b.p + i;
        checkSlot(o, b.slots[i]);
        bool typed = b.typed || s.flag(1, 3);
        pbt::log("destroy%s", typed ? " typed" : "");
        uint64_t c0 = Obj::ctors, d0 = Obj::dtors;
        leaf::events.clear();
        b.slots[i].how = -1; live--;
        bool offered = e.dest;
        if (typed) a->tDestroy(o);
        else if (!a->destroy(o)) { offered = false; o->~Obj(); }
        CHECK(Obj::ctors == c0 && Obj::dtors == d0 + 1, "destroy ran %llu destructors and %llu constructors", (unsigned long long)(Obj::dtors - d0), (unsigned long long)(Obj::ctors - c0));
        events(leaf::Destroy, leaf::DEST, o, offered);
        verify();
    };
    auto release = [&](size_t k)
    {
        Block& b = blocks[k];
        for (size_t i = 0; i < b.count; i++) if (b.slots[i].how >= 0) destroy(b, i);
        pbt::log("free(%zu)", b.bytes);
        if (b.typed) a->tDeallocate(b.p, b.count); else a->deallocate((char*)b.p - b.off, b.bytes);
        blocks.erase(blocks.begin() + k);
        verify();
    };

    s.maxSteps = 10 + 3 * s.sizeHint();
    while (s.more(35))
    {
        pbt::Span sp;
        static const unsigned w[] = { 5, 8, 4, 3 };
        switch (s.pick(w))
        {
        case 0:
        {
            Block b; b.typed = s.flag();
            if (b.typed) { b.count = s.range(1, s.flag(1, 4) ? 12 : 4); b.bytes = b.count * sizeof(Obj); b.off = 0; b.p = a->tAllocate(b.count); }
            else
            {
                b.bytes = drawSize(s, false); b.off = 0;
                char* p = (char*)a->allocate(b.bytes);
                if (p && b.bytes >= sizeof(Obj)) b.off = alignof(Obj) * s.draw((b.bytes - sizeof(Obj)) / alignof(Obj) + 1) % (b.bytes - sizeof(Obj) + 1) / alignof(Obj) * alignof(Obj);
                b.p = (Obj*)(p ? p + b.off : nullptr); b.count = std::min<size_t>((b.bytes - b.off) / sizeof(Obj), 16);
            }
            pbt::log("%s(%zu)=%s", b.typed ? "tAlloc" : "alloc", b.typed ? b.count : b.bytes, b.p ? "ok" : "null");
            if (!b.p) break;
            b.slots.resize(b.count); blocks.push_back(b);
            verify();
            break;
        }
        case 1: case 2:
        {
            if (blocks.empty()) break;
            Block& b = blocks[s.draw(blocks.size())];
            if (!b.count) break;
            size_t i = s.draw(b.count);
            if (b.slots[i].how < 0) construct(b, i); else destroy(b, i);
            break;
        }
        default: if (!blocks.empty()) release(s.draw(blocks.size())); break;
        }
    }
    if (objects >= 2) pbt::nontrivial();
    if (routed) pbt::label("reached an owner that defines it");
    if (plain) pbt::label("owner does not define it: plain construction");
    while (!blocks.empty()) release(s.draw(blocks.size()));
    CHECK(Obj::ctors == Obj::dtors, "constructors and destructors do not balance");
    h.destroyAll(); h.balance();
}
pbt::Prop pbt::props[] = {
    {"routing", routing, 1, "non-trivial if at least two objects were constructed through the composition and destroyed through it"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { resetAll(); }
