// Two compositions that ought to be the same, side by side
#pragma once
#include "zoo.h"
#include "driver.h"
#include <deque>

namespace tw
{
    using pbt::Src;
    enum : unsigned { OWNS = 1, MAXS = 2, CONS = 4 };
    struct Ev { int n, serial; char kind; size_t size, at; bool operator==(const Ev& o) const { return n == o.n && serial == o.serial && kind == o.kind && size == o.size && at == o.at; } bool operator<(const Ev& o) const { return std::tie(n, serial, kind, size, at) < std::tie(o.n, o.serial, o.kind, o.size, o.at); } };
    std::string show(const Ev&);
    struct Inst { int n, side, serial; std::unique_ptr<char[]> mem; char* arena; size_t used, bytes; std::map<char*, size_t> live; };
    struct Plan { size_t maxReq, cap, every; };
    constexpr size_t ARENA = 1 << 15; constexpr int LEAVES = 24;
    extern Plan plan[LEAVES]; extern size_t asked[2][LEAVES]; extern int side; extern std::vector<Ev> seen[2];
    extern std::deque<Inst> insts;
    Inst& fresh(int n);
    Inst* holds(const void* p);
    void* take(Inst& i, size_t n);
    void give(Inst* i, int leaf, void* p, size_t n);
    void built(int leaf, int side, const void* p, char kind, size_t v);
    Ev where(const void* p);             // which leaf, instance and offset a block has
    void draw(Src& s, int leaves);

    struct Obj { long v; explicit Obj(long x) : v(x) {} ~Obj() { v = -1; } };
    template<int N, unsigned F> class L
    {
    public:
        L() noexcept = default;
        L(L&& o) noexcept : m_I(o.m_I) { o.m_I = nullptr; }
        L& operator=(L&& o) noexcept { if (this != &o) { m_I = o.m_I; o.m_I = nullptr; } return *this; }
        bool operator==(const L& o) const noexcept { return m_I == o.m_I; }
        bool operator!=(const L& o) const noexcept { return m_I != o.m_I; }
        void* allocate(size_t n) noexcept { if (!m_I) m_I = &fresh(N); return take(*m_I, n); }
        void deallocate(void* p, size_t n) noexcept { give(m_I, N, p, n); }
        template<unsigned G = F> std::enable_if_t<(G & OWNS) != 0, bool> owns(void* p) const noexcept { return m_I && p >= m_I->arena && p < m_I->arena + ARENA; }
        template<unsigned G = F> std::enable_if_t<(G & MAXS) != 0, size_t> max_size() const noexcept { return plan[N].maxReq; }
        template<typename T, typename... X, unsigned G = F> std::enable_if_t<(G & CONS) != 0> construct(T* p, X&&... x) { built(N, m_I ? m_I->side : -1, p, 'C', sizeof...(x)); ::new ((void*)p) T(std::forward<X>(x)...); }
        template<typename T, unsigned G = F> std::enable_if_t<(G & CONS) != 0> destroy(T* p) { built(N, m_I ? m_I->side : -1, p, 'D', 0); p->~T(); }
    private:
        Inst* m_I = nullptr;
    };

    template<typename A, typename = void> struct value { typedef void type; static constexpr bool typed = false; };
    template<typename A> struct value<A, std::void_t<typename A::value_type>> { typedef typename A::value_type type; static constexpr bool typed = true; };
    template<typename A, typename P, typename = void> struct hasOwns : std::false_type {};
    template<typename A, typename P> struct hasOwns<A, P, std::void_t<decltype(std::declval<const A&>().owns(std::declval<P>()))>> : std::true_type {};

    // one composition, type-erased
    struct Any
    {
        virtual ~Any() = default;
        virtual void* allocate(size_t) = 0; virtual void deallocate(void*, size_t) = 0;
        virtual void construct(void*, long) = 0; virtual void destroy(void*) = 0;
        virtual int owns(void*) = 0; virtual bool maxs(size_t&) = 0;
        virtual Any* copy() = 0; virtual bool same(Any&) = 0;
    };
    template<typename A> struct Is final : Any
    {
        A a;
        typedef typename value<A>::type V; typedef std::conditional_t<value<A>::typed, V, Obj> O;     // what it can build
        Is() = default;
        template<typename... X> explicit Is(int, X&... x) : a(x...) {}
        void* allocate(size_t n) override { return a.allocate(n); }
        void deallocate(void* p, size_t n) override { a.deallocate(static_cast<V*>(p), n); }
        void construct(void* p, long v) override { if constexpr (ktl::detail::has_construct_v<A, O*, O>) a.construct(static_cast<O*>(p), O(v)); else ::new (p) O(v); CHECK(!memcmp(p, &v, std::min(sizeof(O), sizeof v)), "the object was not constructed"); }
        void destroy(void* p) override { if constexpr (ktl::detail::has_destroy_v<A, O*>) a.destroy(static_cast<O*>(p)); else static_cast<O*>(p)->~O(); }
        int owns(void* p) override { if constexpr (hasOwns<A, V*>::value) return a.owns(static_cast<V*>(p)); else return (void)p, -1; }
        bool maxs(size_t& n) override { if constexpr (ktl::detail::has_max_size_v<A>) { n = a.max_size(); return true; } else return (void)n, false; }
        Any* copy() override { if constexpr (std::is_copy_constructible_v<A>) return new Is(0, std::as_const(a)); else return nullptr; }
        bool same(Any& o) override { if constexpr (std::is_copy_constructible_v<A>) return a == static_cast<Is&>(o).a; else return (void)o, true; }
    };
    template<typename A> Any* make() { return new Is<A>(); }
    template<typename A, typename X> Any* with(X& x) { return new Is<A>(0, x); }
    inline std::ostream& stream() { static std::ostringstream o; return o; }
    struct Reg { Reg(const char* plain, const char* other, Any* (*a)(), Any* (*b)(), int leaves, bool handles, int laws, const std::vector<size_t>& sizes); };
}
