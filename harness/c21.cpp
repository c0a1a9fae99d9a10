// C21: trivial_buffer is an aligned fixed array with rolling index
#include "cont.h"
#include "driver.h"
using namespace cont;

template<typename T, size_t N> struct Buf
{
    typedef ktl::trivial_buffer<T, N> K;
    // surroundings that make misalignment and stray writes visible
    struct Cell { char before; K k; char after[9]; template<typename... X> Cell(X&&... x) : before(0x5a), k(std::forward<X>(x)...) { memset(after, 0xa5, sizeof after); } };
    struct Slot { std::unique_ptr<Cell> c; std::vector<T> m; };
    std::vector<Slot> v; unsigned muts = 0, rolled = 0, transfers = 0;

    void check(Slot& x, uint64_t probe)
    {
        K& k = x.c->k; const K& c = k; auto& m = x.m;
        CHECK(x.c->before == 0x5a, "a byte before the buffer was changed");
        for (char ch : x.c->after) CHECK(ch == char(0xa5), "a byte after the buffer was changed");
        CHECK(k.size() == N && c.size() == N, "size() is %zu, expected %zu", k.size(), N);
        CHECK(reinterpret_cast<uintptr_t>(k.data()) % alignof(T) == 0, "the elements are not aligned to %zu", alignof(T));
        CHECK((const char*)c.data() >= (const char*)&k && (const char*)(c.data() + N) <= (const char*)(&k + 1), "the elements do not lie inside the buffer");
        CHECK(static_cast<const T*>(k.begin()) == c.begin() && k.data() == k.begin() && c.data() == c.begin() && size_t(k.end() - k.begin()) == N && size_t(c.end() - c.begin()) == N, "begin/end/data disagree");
        for (size_t i = 0; i < N; i++)
            CHECK(eq(k[i], m[i]) && eq(c[i], m[i]) && eq(k.at(i), m[i]) && eq(c.at(i), m[i]) && eq(c.data()[i], m[i]), "element %zu of %zu is wrong", i, N);
        size_t p = size_t(probe), r = p % N;
        CHECK(&k[p] == k.data() + r && &c[p] == c.data() + r && &k.at(p) == k.data() + r && &c.at(p) == c.data() + r, "index %zu does not refer to element %zu", p, r);
        size_t i = 0; for (const T& t : c) { CHECK(i < N && eq(t, m[i]), "iteration gives another sequence"); i++; }
        CHECK(i == N, "iteration visits %zu elements", i);
        i = N; for (auto it = k.rbegin(); it != k.rend(); ++it) { i--; CHECK(i < N && eq(*it, m[i]), "reverse iteration gives another sequence"); }
        CHECK(i == 0, "reverse iteration visits another number of elements");
        i = N; for (auto it = c.rbegin(); it != c.rend(); ++it) { i--; CHECK(i < N && eq(*it, m[i]), "reverse iteration gives another sequence"); }
        CHECK(i == 0, "reverse iteration visits another number of elements");
    }
    static size_t index(Src& s)
    {
        switch (s.draw(5))
        {
        case 0: return s.draw(N); case 1: return s.draw(4 * N + 3); case 2: return SIZE_MAX - s.draw(2 * N + 1);
        case 3: return (size_t(1) << s.draw(64)) + s.draw(3) - 1; default: return size_t(s.bits());
        }
    }
    void construct(Src& s)
    {
        uint64_t val = s.draw(1000); unsigned how = unsigned(s.draw(6)); size_t j = v.empty() ? 0 : s.draw(v.size()); if (v.empty() && how > 3) how = 1;
        static const char* names[] = { "default", "value", "list", "range", "copy", "move" };
        pbt::log("%zu=%s(%llu)", v.size(), names[how], (unsigned long long)val);
        Slot x;
        auto adopt = [&](size_t from) { for (size_t i = from; i < N; i++) x.m.push_back(x.c->k[i]); };
        switch (how)
        {
        case 0: x.c.reset(new Cell()); adopt(0); break;                                       // unspecified values
        case 1: x.c.reset(new Cell(mk<T>(val))); x.m.assign(N, mk<T>(val)); break;
        case 2:
        {
            T a = mk<T>(val), b = mk<T>(val + 1), c = mk<T>(val + 2); size_t n = size_t(val) % (std::min<size_t>(N, 3) + 1);
            if (n == 0) x.c.reset(new Cell(std::initializer_list<T>{})); else if (n == 1) { x.c.reset(new Cell(std::initializer_list<T>{a})); x.m = {a}; }
            else if (n == 2) { x.c.reset(new Cell(std::initializer_list<T>{a, b})); x.m = {a, b}; } else { x.c.reset(new Cell(std::initializer_list<T>{a, b, c})); x.m = {a, b, c}; }
            adopt(n); break;
        }
        case 3: { std::vector<T> r; for (size_t i = 0; i < N; i++) r.push_back(mk<T>(val + i)); const T* f = r.data(); x.c.reset(new Cell(f, f + N)); x.m = r; break; }
        case 4: x.c.reset(new Cell(std::as_const(v[j].c->k))); x.m = v[j].m; transfers++; break;
        default: x.c.reset(new Cell(std::move(v[j].c->k))); x.m = v[j].m; transfers++; break;
        }
        v.push_back(std::move(x));
    }
    static void run(Src& s, const char* name)
    {
        pbt::log("trivial_buffer<%s,%zu>", name, N);
        Buf b; b.construct(s);
        s.maxSteps = 15 + s.sizeHint();
        while (s.more(20))
        {
            pbt::Span sp;
            size_t probe = index(s);
            if (b.v.size() < 4 && s.flag(1, 4)) { b.construct(s); }
            else
            {
                size_t i = s.draw(b.v.size()), j = s.draw(b.v.size()), at = index(s); uint64_t val = s.draw(1000); Slot& x = b.v[i]; K& k = x.c->k; T t = mk<T>(val);
                static const unsigned w[] = { 6, 2, 2, 1 };
                unsigned op = s.pick(w);
                switch (op)
                {
                case 0:
                    pbt::log("%zu[%zu]=%llu", i, at, (unsigned long long)val);
                    switch (s.draw(4)) { case 0: k[at] = t; break; case 1: k.begin()[at % N] = t; break; case 2: k.data()[at % N] = t; break; default: *(k.rbegin() + (N - 1 - at % N)) = t; break; }
                    x.m[at % N] = t; b.muts++; b.rolled += at >= N; break;
                case 1: { std::vector<T> r; for (size_t q = 0; q < N; q++) r.push_back(mk<T>(val + q)); pbt::log("%zu.assign", i); k.assign(r.data(), r.data() + N); x.m = r; b.muts++; break; }
                case 2: pbt::log("%zu=%zu", i, j); if (s.flag()) k = std::as_const(b.v[j].c->k); else k = std::move(b.v[j].c->k); if (i != j) x.m = b.v[j].m; b.transfers++; break;
                default: if (b.v.size() > 1) { pbt::log("drop %zu", i); b.v.erase(b.v.begin() + i); } break;
                }
            }
            for (auto& x : b.v) b.check(x, probe);
        }
        if (b.muts >= 3 && b.transfers >= 1) pbt::nontrivial();
    }
};
#define B(T, N) case __LINE__ - base: Buf<T, N>::run(s, #T); break;
static void buffer(Src& s)
{
    constexpr int base = __LINE__ + 3;
    switch (s.draw(16))
    {
    B(int32_t, 4)
    B(uint8_t, 1)
    B(uint8_t, 5)
    B(uint8_t, 16)
    B(uint64_t, 3)
    B(double, 7)
    B(S3, 6)
    B(Big, 2)
    B(Big, 5)
    B(Def, 3)
    B(Wide, 1)
    B(Wide, 4)
    B(int16_t, 33)
    B(const char*, 2)
    B(float, 64)
    B(char, 3)
    default: break;
    }
}
pbt::Prop pbt::props[] = {
    {"buffer", buffer, 1, "non-trivial if at least three writes or assigns and one copy, move or assignment were made"},
    {nullptr, nullptr, 0, nullptr}};
void pbt::reset() { drv::resetAll(); cont::reset(); }
