// C27: results do not depend on language level, compiler, optimisation or debug checks.
// The same cases are run by several builds of this file; every observation goes into the digest of the
// case and, in words, into its trace. No oracle besides the other builds (and that no assertion fires).
// Draws are sequenced explicitly, so that all builds generate the same case.
#include "driver.h"
#include "cont.h"
#include <map>
using namespace drv;

namespace
{
    void obs(const char* what, uint64_t v) { for (const char* c = what; *c; c++) pbt::observe(uint64_t(*c)); pbt::observe(v); pbt::log("%s=%llx", what, (unsigned long long)v); }
    void obsText(const std::string& t) { for (char c : t) pbt::observe(uint8_t(c)); pbt::log("<%s>", t.c_str()); }
    void obsEvents()
    {
        uint64_t h = leaf::events.size();
        for (auto& e : leaf::events) { h = h * 0x100000001b3ull ^ uint64_t(e.kind); h = h * 0x100000001b3ull ^ uint64_t(e.id * 64 + int(e.serial)); h = h * 0x100000001b3ull ^ uint64_t(e.n); }
        obs("events", h); leaf::events.clear();
        if (!leaf::clean()) { obs("misuse", 1); }
    }
    // reports name addresses: replace each by the order of its first appearance
    std::string normal(const std::string& t)
    {
        std::map<std::string, int> seen; std::string o;
        for (size_t i = 0; i < t.size();)
        {
            if (t.compare(i, 2, "0x") == 0)
            {
                size_t j = i + 2; while (j < t.size() && isxdigit((unsigned char)t[j])) j++;
                auto it = seen.emplace(t.substr(i, j - i), int(seen.size())).first; o += "@" + std::to_string(it->second); i = j;
            }
            else o += t[i++];
        }
        return o;
    }

    struct Place   // where a block lies, in terms that do not depend on the memory layout of the process
    {
        std::map<std::pair<int, uint64_t>, char*> first; std::map<const void*, uint64_t> names;
        void of(const std::vector<zoo::Any*>& inst, char* p, size_t n)
        {
            int kind = 0; uint64_t id = 0;
            if (const leaf::Arena* a = n ? leaf::find(p) : nullptr) { kind = 1; id = a->serial; }
            else for (size_t i = 0; i < inst.size(); i++) if (inst[i] && p >= (char*)inst[i]->obj && p < (char*)inst[i]->obj + inst[i]->objSize) { kind = 2; id = i; }
            if (!kind && heap::sizeOf(p) != SIZE_MAX) kind = 3;
            obs("in", kind); obs("", kind == 1 ? id : 0);
            if (kind == 2)
            {
                auto it = first.emplace(std::make_pair(kind, id), p).first;
                obs("at", uint64_t(p - it->second));
            }
            if (kind == 1) obs("size", leaf::blockSize(p));
        }
    };
}

static void zooSame(Src& s)
{
    drawPlans(s);
    const zoo::Entry& e = drawEntry(s);
    pbt::log("%s", e.name);
    bool over = strstr(e.name, "doverflow") != nullptr;
    leaf::recording = true;
    struct B { char* p; size_t n; int i; uint32_t pat; };
    std::vector<zoo::Any*> inst; std::vector<B> live; Place place; uint32_t pats = 0; unsigned allocs = 0, frees = 0;
    auto fresh = [&]
    {
        zoo::Any* a = e.make(); inst.push_back(a);
        obs("offers", a->hasOwns + 2 * a->hasMax + 4 * a->hasCons + 8 * a->hasDest + 16 * e.copyable + 32 * e.movable);
    };
    fresh(); if (s.flag(1, 3)) fresh();
    std::vector<bool> freed(16, false);
    s.maxSteps = 20 + 3 * s.sizeHint();
    while (s.more(40))
    {
        pbt::Span sp;
        static const unsigned w[] = { 9, 6, 2, 2, 2, 2, 1, 1, 1 };
        unsigned op = s.pick(w); int i = int(s.draw(inst.size())); size_t n = s.flag(1, 24) ? drawGiant(s) : drawSize(s); size_t k = live.empty() ? 0 : s.draw(live.size());
        if (!inst[i]) continue;
        switch (op)
        {
        case 0:
        {
            bool typed = s.flag(1, 4); char* p;
            if (typed) { n = n / sizeof(zoo::Obj) + 1; pbt::log("#%d.typed(%zu)", i, n); p = (char*)inst[i]->tAllocate(n); n *= sizeof(zoo::Obj); }
            else { pbt::log("#%d.alloc(%zu)", i, n); p = (char*)inst[i]->allocate(n); }
            obs("got", p != nullptr);
            if (!p) break;
            allocs++; obs("mod", uint64_t(reinterpret_cast<uintptr_t>(p) % 16));
            if (n > 100000) break;      // a wrongly served giant request: seen in "got"
            place.of(inst, p, n); fill(p, n, ++pats); live.push_back({p, n, i, pats});
            break;
        }
        case 1:
            if (!live.empty())
            {
                B b = live[k]; live.erase(live.begin() + k); pbt::log("#%d.free(%u)", b.i, b.pat);
                size_t d = firstDiff(b.p, b.n, b.pat); obs("content", d);
                if (over && s.flag(1, 3))
                {
                    // modify guard bytes; with some other layer in between these are still inside the leaf's block only if the leaf is directly below
                    if (const leaf::Arena* a = leaf::find(b.p)) if (a->blocks.count(reinterpret_cast<uintptr_t>(b.p) - 64) && leaf::blockSize(b.p) == b.n + 128)
                    {
                        size_t q = s.draw(64); bool front = s.flag(); (front ? b.p[-1 - int(q)] : b.p[b.n + q]) ^= 0x11; pbt::log("corrupt %s %zu", front ? "front" : "back", q);
                    }
                }
                inst[b.i]->deallocate(b.p, b.n); frees++; freed[b.i] = true;
            }
            break;
        case 2: if (e.owns && !live.empty()) obs("owns", inst[i]->owns(live[k].p) + 2 * inst[i]->owns(live[k].p + live[k].n / 2)); break;
        case 3: if (e.maxs) { obs("max", inst[i]->max_size()); obs("tmax", inst[i]->tMax()); } break;
        case 4:
            if (!live.empty() && live[k].n >= sizeof(zoo::Obj))
            {
                B& b = live[k]; auto* o = reinterpret_cast<zoo::Obj*>(b.p); int how = int(s.draw(4)); zoo::Obj::Tok t(s.draw(1000)); uint64_t ref = 0; bool viaType = s.flag();
                pbt::log("#%d.construct(%d,%s)", b.i, how, viaType ? "typed" : "raw");
                if (viaType) inst[b.i]->tConstruct(o, how, 7, &t, &ref); else if (!inst[b.i]->construct(o, how, 7, &t, &ref)) { ::new (o) zoo::Obj(); }
                obs("v", o->v); obs("how", o->how); obs("moved", t.movedFrom); obs("ref", ref);
                if (viaType) inst[b.i]->tDestroy(o); else if (!inst[b.i]->destroy(o)) o->~Obj();
                obs("ctors", zoo::Obj::ctors); obs("dtors", zoo::Obj::dtors); fill(b.p, sizeof(zoo::Obj), b.pat);
            }
            break;
        case 5: if (inst.size() > 1 && inst[1 - (i & 1)]) { obs("eq", inst[i]->eq(*inst[1 - (i & 1)]) + 2 * inst[i]->ne(*inst[1 - (i & 1)]) + 4 * inst[i]->eq(*inst[i])); } break;
        case 6:
            if (e.movable && inst.size() < 12)
            {
                bool busy = false; for (auto& b : live) busy |= b.i == i;
                if ((e.bump && busy) || (e.flnh && freed[i])) break;
                pbt::log("#%zu=move #%d", inst.size(), i);
                zoo::Any* a = inst[i]->moveOut(); inst.push_back(a); freed[inst.size() - 1] = freed[i];
                for (auto& b : live) if (b.i == i) b.i = int(inst.size()) - 1;
                delete inst[i]; inst[i] = nullptr;
            }
            break;
        case 7:
            if (e.handle && e.copyable && inst.size() < 12)
            {
                pbt::log("#%zu=copy #%d", inst.size(), i); inst.push_back(inst[i]->copy());
                for (auto& b : live) if (b.i == i && s.flag()) b.i = int(inst.size()) - 1;
            }
            break;
        default: if (inst.size() < 12) { pbt::log("#%zu=new", inst.size()); fresh(); } break;
        }
        obsEvents();
    }
    if (allocs >= 2 && frees) pbt::nontrivial();
    for (auto& b : live) { obs("content", firstDiff(b.p, b.n, b.pat)); }
    bool forget = over && s.flag(1, 3);          // leave a leak for the report; the leaves' misuse list then is cleared by reset()
    size_t keep = forget && !live.empty() ? 1 : 0;
    while (live.size() > keep) { B b = live.back(); live.pop_back(); inst[b.i]->deallocate(b.p, b.n); }
    obsEvents();
    if (keep)   // give the block back behind the allocator's back is not possible: end the case without destroying what holds it
    {
        if (e.handle || strstr(e.name, "cascading")) { inst[live[0].i]->deallocate(live[0].p, live[0].n); live.clear(); }
        else { B b = live[0]; const leaf::Arena* a = leaf::find(b.p); bool direct = a && a->blocks.count(reinterpret_cast<uintptr_t>(b.p) - 64); if (!direct) { inst[b.i]->deallocate(b.p, b.n); live.clear(); } }
    }
    for (auto* a : inst) delete a;
    obsText(normal(zoo::sink().text));
    obs("heap", heap::liveBlocks() - g_heapBase);
    leaf::runHooks(); obsEvents();
    leaf::recording = false;
}

// ---- containers -------------------------------------------------------------------------------------
namespace
{
    template<typename T> uint64_t hashOf(const T& t) { unsigned char b[sizeof(T)]; memcpy(b, (const void*)&t, sizeof t); uint64_t h = 1469598103934665603ull; for (unsigned char c : b) h = (h ^ c) * 0x100000001b3ull; return h; }
    typedef cont::Acct<int, 0> AI;

    template<typename K> uint64_t contentsOf(const K& k) { uint64_t h = k.size(); for (size_t i = 0; i < k.size(); i++) h = h * 31 + hashOf(k[i]); size_t n = 0; for (auto it = k.rbegin(); it != k.rend(); ++it) h = h * 37 + hashOf(*it) + n++; return h; }

    template<typename T, typename A> void vec(Src& s, const char* name)
    {
        typedef ktl::trivial_vector<T, A> K; pbt::log("vector<%s>", name);
        A al[3] = { cont::Maker<A>::make(0), cont::Maker<A>::make(1), cont::Maker<A>::make(2) };
        std::vector<std::unique_ptr<K>> v; v.emplace_back(new K(al[0]));
        unsigned muts = 0; s.maxSteps = 20 + 2 * s.sizeHint();
        auto rd = [&](size_t from, K& k) { for (size_t i = from; i < k.size(); i++) k[i] = cont::mk<T>(i); };
        while (s.more(30))
        {
            pbt::Span sp;
            unsigned op = unsigned(s.draw(16)); size_t i = s.draw(v.size()); size_t a = s.draw(16); size_t b = s.draw(16); uint64_t val = s.draw(1000);
            K& k = *v[i]; size_t n = k.size(); T t = cont::mk<T>(val); pbt::log("%zu:op%u(%zu,%zu,%llu)", i, op, a, b, (unsigned long long)val); muts++;
            if (n > 200) op = 7;
            switch (op)
            {
            case 0: obs("r", uint64_t(k.push_back(std::as_const(t)) - k.begin())); break;
            case 1: { T u = t; obs("r", uint64_t(k.push_back(std::move(u)) - k.begin())); break; }
            case 2: obs("r", uint64_t(k.emplace_back(t) - k.begin())); break;
            case 3: { std::vector<T> q; for (size_t z = 0; z < a; z++) q.push_back(cont::mk<T>(val + z)); auto it = k.push_back(q.data(), q.data() + a); if (a) obs("r", uint64_t(it - k.begin())); break; }
            case 4: k.emplace(k.begin() + a % (n + 1), t); break;
            case 5: if (n) obs("r", uint64_t(k.erase(k.begin() + a % n) - k.begin())); break;
            case 6: { size_t f = a % (n + 1); size_t l = f + b % (n - f + 1); obs("r", uint64_t(k.erase(k.begin() + f, k.begin() + l) - k.begin())); break; }
            case 7: k.clear(); break;
            case 8: if (n) obs("pop", hashOf(k.pop_back())); break;
            case 9: k.resize(a * 2); rd(n, k); break;
            case 10: k.reserve(a * 3); break;
            case 11: if (n) k.at(a % n) = t; break;
            case 12: if (v.size() < 4) { size_t c = a % 4; v.emplace_back(c == 0 ? new K(std::as_const(k)) : c == 1 ? new K(std::move(k)) : c == 2 ? new K(std::as_const(k), al[b % 3]) : new K(std::move(k), al[b % 3])); } break;
            case 13: { K& o = *v[a % v.size()]; if (b % 2 || &o == &k) k = std::as_const(o); else k = std::move(o); break; }
            case 14: if (v.size() < 4) { std::vector<T> q; for (size_t z = 0; z < b; z++) q.push_back(cont::mk<T>(val + z)); const T* f = q.data(); v.emplace_back(a % 3 == 0 ? new K(f, f + b, al[1]) : a % 3 == 1 ? new K(b, t, al[2]) : new K({t, t, cont::mk<T>(val + 1)}, al[0])); } break;
            default: if (v.size() > 1) v.erase(v.begin() + i); break;
            }
            for (auto& x : v) { obs("size", x->size()); obs("cap", x->capacity()); obs("is", contentsOf(*x)); }
            if constexpr (cont::Maker<A>::tracked) for (auto& x : v) if (x->capacity()) obs("g", uint64_t(cont::groupOf(x->data())));
        }
        if (muts >= 3) pbt::nontrivial();
        v.clear(); obs("left", cont::blocks.size());
    }
    template<typename T, typename A> void arr(Src& s, const char* name)
    {
        typedef ktl::trivial_array<T, A> K; pbt::log("array<%s>", name);
        A al[3] = { cont::Maker<A>::make(0), cont::Maker<A>::make(1), cont::Maker<A>::make(2) };
        std::vector<std::unique_ptr<K>> v; v.emplace_back(new K(al[0]));
        unsigned muts = 0; s.maxSteps = 20 + 2 * s.sizeHint();
        while (s.more(30))
        {
            pbt::Span sp;
            unsigned op = unsigned(s.draw(8)); size_t i = s.draw(v.size()); size_t a = s.draw(16); size_t b = s.draw(16); uint64_t val = s.draw(1000);
            K& k = *v[i]; size_t n = k.size(); T t = cont::mk<T>(val); pbt::log("%zu:op%u(%zu,%zu,%llu)", i, op, a, b, (unsigned long long)val); muts++;
            std::vector<T> q; for (size_t z = 0; z < a; z++) q.push_back(cont::mk<T>(val + z));
            switch (op)
            {
            case 0: k.resize(b * 2); for (size_t z = n; z < k.size(); z++) k[z] = cont::mk<T>(z); break;
            case 1: k.assign(q.data(), q.data() + a); break;
            case 2: if (n) k.at(b % n) = t; break;
            case 3: if (n) obs("e", hashOf(std::as_const(k)[b % n])); break;
            case 4: if (v.size() < 4) { size_t c = a % 4; v.emplace_back(c == 0 ? new K(std::as_const(k)) : c == 1 ? new K(std::move(k)) : c == 2 ? new K(std::as_const(k), al[b % 3]) : new K(std::move(k), al[b % 3])); } break;
            case 5: { K& o = *v[a % v.size()]; if (b % 2 || &o == &k) k = std::as_const(o); else k = std::move(o); break; }
            case 6: if (v.size() < 4) { const T* f = q.data(); v.emplace_back(b % 3 == 0 ? new K(f, f + a, al[1]) : b % 3 == 1 ? new K(a, t, al[2]) : new K({t, t, cont::mk<T>(val + 1)}, al[0])); } break;
            default: if (v.size() > 1) v.erase(v.begin() + i); break;
            }
            for (auto& x : v) { obs("size", x->size()); obs("empty", x->empty()); obs("is", contentsOf(*x)); }
            if constexpr (cont::Maker<A>::tracked) for (auto& x : v) if (x->size()) obs("g", uint64_t(cont::groupOf(x->data())));
        }
        if (muts >= 3) pbt::nontrivial();
        v.clear(); obs("left", cont::blocks.size());
    }
    template<typename T, size_t N> void buf(Src& s, const char* name)
    {
        typedef ktl::trivial_buffer<T, N> K; pbt::log("buffer<%s,%zu>", name, N);
        K k(cont::mk<T>(1)); unsigned muts = 0; s.maxSteps = 20 + s.sizeHint(); obs("sizeof", sizeof(K)); obs("alignof", alignof(K));
        while (s.more(20))
        {
            pbt::Span sp;
            unsigned op = unsigned(s.draw(5)); size_t a = size_t(s.bits()); if (s.flag()) a %= 4 * N; uint64_t val = s.draw(1000); T t = cont::mk<T>(val); muts++;
            std::vector<T> q; for (size_t z = 0; z < N; z++) q.push_back(cont::mk<T>(val + z));
            pbt::log("op%u(%zu,%llu)", op, a, (unsigned long long)val);
            switch (op)
            {
            case 0: k[a] = t; break;
            case 1: k.at(a) = t; break;
            case 2: k.assign(q.data(), q.data() + N); break;
            case 3: { K c(std::as_const(k)); c[a] = t; if (val % 2) k = c; else k = std::move(c); break; }
            default: { K c(q.data(), q.data() + N); k = std::as_const(c); break; }
            }
            obs("is", contentsOf(k)); obs("e", hashOf(std::as_const(k).at(a)));
        }
        if (muts >= 3) pbt::nontrivial();
    }
    struct Num { int v; unsigned tag; explicit Num(int x = 0, unsigned t = 0) : v(x), tag(t) {} bool operator<(const Num& o) const { return v < o.v; } bool operator>(const Num& o) const { return v > o.v; } bool operator==(const Num& o) const { return v == o.v; } };
    template<typename T, typename C, typename A> void pq(Src& s, const char* name)
    {
        typedef ktl::binary_heap<T, C, A> K; pbt::log("heap<%s>", name);
        A al[3] = { cont::Maker<A>::make(0), cont::Maker<A>::make(1), cont::Maker<A>::make(2) };
        std::vector<std::unique_ptr<K>> v; v.emplace_back(new K(al[0]));
        unsigned muts = 0; s.maxSteps = 20 + 2 * s.sizeHint();
        while (s.more(40))
        {
            pbt::Span sp;
            unsigned op = unsigned(s.draw(10)); size_t i = s.draw(v.size()); size_t a = s.draw(16); size_t b = s.draw(3); int val = int(s.draw(12));
            K& k = *v[i]; pbt::log("%zu:op%u(%zu,%zu,%d)", i, op, a, b, val); muts++;
            switch (op)
            {
            case 0: case 1: { T t(val); obs("r", uint64_t(k.insert(t) - k.begin())); break; }
            case 2: obs("r", uint64_t(k.insert(T(val)) - k.begin())); break;
            case 3: { const T t(val); k.insert(t); break; }
            case 4: if (!k.empty()) { obs("peek", hashOf(k.peek())); obs("pop", hashOf(k.pop())); } break;
            case 5: { auto it = k.find(T(val)); obs("find", it == k.end() ? 999 : uint64_t(it - k.begin())); break; }
            case 6: if (a < 2) k.clear(); else k.reserve(a * 2); break;
            case 7: if (v.size() < 4) { size_t c = a % 4; v.emplace_back(c == 0 ? new K(std::as_const(k)) : c == 1 ? new K(std::move(k)) : c == 2 ? new K(std::as_const(k), al[b]) : new K(std::move(k), al[b])); } break;
            case 8: { K& o = *v[a % v.size()]; if (b % 2 || &o == &k) k = std::as_const(o); else k = std::move(o); break; }
            default: if (v.size() > 1) v.erase(v.begin() + i); break;
            }
            for (auto& x : v) { obs("size", x->size()); obs("cap", x->capacity()); uint64_t h = 0; for (auto it = x->begin(); it != x->end(); ++it) h = h * 31 + hashOf(*it); obs("is", h); if (!x->empty()) obs("top", hashOf(x->peek())); }
        }
        if (muts >= 3) pbt::nontrivial();
        v.clear(); obs("left", cont::blocks.size());
    }
    struct alignas(8) P8 { char c[8]; }; struct alignas(64) P64 { char c[64]; };
    template<typename T, size_t B> void packed(Src& s, const char* name)
    {
        typedef ktl::packed_ptr<T*, B> K; pbt::log("packed_ptr<%s,%zu>", name, B);
        static T pool[4]; K k; unsigned n = 0; s.maxSteps = 20; obs("sizeof", sizeof(K));
        while (s.more(10))
        {
            pbt::Span sp;
            unsigned op = unsigned(s.draw(3)); size_t a = s.draw(5); size_t x = size_t(s.bits()); T* p = a < 4 ? &pool[a] : nullptr; n++;
            if (op == 0) k.set_ptr(p); else if (op == 1) k.set_int(x); else k = K(p, x);
            obs("ptr", uint64_t(k.get_ptr() ? k.get_ptr() - pool : -1)); obs("int", k.template get_int<uint64_t>());
        }
        if (n >= 2) pbt::nontrivial();
    }
}
#define V(i, fn, ...) case i: fn<__VA_ARGS__>(s, #__VA_ARGS__); break;
static void contSame(Src& s)
{
    cont::nullForZero = s.flag(1, 3);
    typedef ktl::type_linear_allocator<int, 8192> lin; typedef ktl::type_mallocator<int> mal;
    switch (s.draw(19))
    {
    V(0, vec, int, cont::Acct<int, 0>)
    V(1, vec, cont::S3, cont::Acct<cont::S3, 0>)
    V(2, vec, cont::Big, cont::Acct<cont::Big, 3>)
    V(3, vec, int, mal)
    V(4, vec, uint8_t, ktl::type_mallocator<uint8_t>)
    V(5, arr, int, cont::Acct<int, 0>)
    V(6, arr, cont::S3, cont::Acct<cont::S3, 1>)
    V(7, arr, double, ktl::type_mallocator<double>)
    V(8, buf, int, 5)
    V(9, buf, uint8_t, 3)
    V(10, buf, cont::Wide, 4)
    V(11, pq, Num, std::less<Num>, cont::Acct<Num, 0>)
    V(12, pq, Num, std::greater<Num>, cont::Acct<Num, 1>)
    V(13, pq, int, std::greater<int>, mal)
    V(14, packed, P8, 3)
    V(15, packed, P64, 6)
    V(16, packed, P64, 2)
    V(17, vec, float, ktl::type_mallocator<float>)
    V(18, packed, int, 2)
    default: break;
    }
}
pbt::Prop pbt::props[] = {
    {"zooSame", zooSame, 3, "non-trivial if at least two blocks were allocated and one deallocated"},
    {"contSame", contSame, 2, "non-trivial if at least three operations were made"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { drv::resetAll(); cont::reset(); }
