// Type-erased access to compositions of KTL allocators ("the zoo"): a curated list and, per run, a list
// generated from a grammar (see gen.py). Drivers treat every composition through the same interface.
#pragma once
#include "leaf.h"
#include "heap.h"
#include "ktl/ktl.h"
#include <memory>
#include <new>
#include <optional>
#include <ostream>
#include <sanitizer/asan_interface.h>
#include <sstream>

namespace zoo
{
    // Stream handed to overflow allocators
    struct Sink
    {
        std::string text;
        Sink& operator<<(const char* s) { text += s; return *this; }
        Sink& operator<<(const void* p) { char b[32]; snprintf(b, sizeof b, "%p", p); text += b; return *this; }
        Sink& operator<<(long v) { text += std::to_string(v); return *this; }
        Sink& operator<<(long long v) { text += std::to_string(v); return *this; }
        Sink& operator<<(int v) { text += std::to_string(v); return *this; }
        Sink& operator<<(unsigned long v) { text += std::to_string(v); return *this; }
        Sink& operator<<(unsigned long long v) { text += std::to_string(v); return *this; }
        Sink& operator<<(unsigned v) { text += std::to_string(v); return *this; }
        Sink& operator<<(char c) { text += c; return *this; }
        Sink& operator<<(const std::string& s) { text += s; return *this; }
    };
    Sink& sink();

    // default-constructible helpers ----------------------------------------------------------------
    // Memory for one A that ends with the block it is in (so that AddressSanitizer sees every overrun) and is aligned for
    // an A, but not more than that by accident
    template<typename A> struct Place
    {
        static constexpr size_t al = alignof(A) < 64 ? 64 : alignof(A), off = alignof(A) < 8 || alignof(A) >= 64 ? 0 : alignof(A);
        static void* get()
        {
            char* m = static_cast<char*>(::operator new(off + sizeof(A), std::align_val_t(al)));
            memset(m, 0xbd, off + sizeof(A));
            if (off) ASAN_POISON_MEMORY_REGION(m, off);
            return m + off;
        }
        static void put(void* p)
        {
            char* m = static_cast<char*>(p) - off;
            if (off) ASAN_UNPOISON_MEMORY_REGION(m, off);
            ::operator delete(m, std::align_val_t(al));
        }
        template<typename... X> static A* make(X&&... x)
        {
            void* m = get();
            try { return ::new (m) A(std::forward<X>(x)...); }
            catch (...) { put(m); throw; }
        }
    };
    template<typename A> A& perCase()       // one A per case, destroyed at the end of the case
    {
        static A* a;
        if (!a) { a = Place<A>::template make<>(); leaf::atCaseEnd([] { a->~A(); Place<A>::put(a); a = nullptr; }); }
        return *a;
    }
    template<size_t Size, int N> struct dstack : ktl::stack_allocator<Size>
    {
        struct holder : ktl::stack<Size> {};
        dstack() noexcept : ktl::stack_allocator<Size>(perCase<holder>()) {}
    };
    template<typename A, int N> struct tagged : A { using A::A; };
    template<typename A, int N> struct dref : ktl::reference<tagged<A, N>>
    {
        dref() noexcept(std::is_nothrow_default_constructible_v<A>) : ktl::reference<tagged<A, N>>(perCase<tagged<A, N>>()) {}
    };
    template<typename A> struct doverflow : ktl::overflow<A, Sink>
    {
        doverflow() noexcept(std::is_nothrow_default_constructible_v<A>) : ktl::overflow<A, Sink>(sink()) {}
    };
    // a global whose state is put back at the end of the case
    template<typename A> struct dglobal : ktl::global<A>
    {
        static bool& armed() { static bool a = false; return a; }
        dglobal() noexcept(std::is_nothrow_default_constructible_v<A>) { if (!armed()) { armed() = true; leaf::atCaseEnd([] { armed() = false; ktl::global<A>().set_allocator(A()); }); } }
    };

    // what each composition is expected to offer -----------------------------------------------------
    template<typename A> struct traits { static constexpr bool owns = false, maxs = false, cons = false, dest = false; };
    template<int I, unsigned F> struct traits<leaf::R<I, F>> { static constexpr bool owns = F & leaf::OWNS, maxs = F & leaf::MAXS, cons = F & leaf::CONS, dest = F & leaf::DEST; };
    template<int I, unsigned F> struct traits<leaf::H<I, F>> : traits<leaf::R<I, F>> {};
    template<int I, unsigned F> struct traits<leaf::X<I, F>> : traits<leaf::R<I, F>> {};
    template<size_t S> struct traits<ktl::linear_allocator<S>> { static constexpr bool owns = true, maxs = true, cons = false, dest = false; };
    template<size_t S, int N> struct traits<dstack<S, N>> : traits<ktl::linear_allocator<S>> {};
    template<> struct traits<ktl::null_allocator> { static constexpr bool owns = true, maxs = false, cons = false, dest = false; };
    template<size_t A, size_t B, typename T> struct traits<ktl::freelist<A, B, T>> : traits<T> {};
    template<typename T> struct traits<ktl::cascading<T>> : traits<T> { static constexpr bool owns = true; };
    template<typename T, template<typename> typename At> struct traits<ktl::shared<T, At>> : traits<T> {};
    template<typename T> struct traits<ktl::threaded<T>> : traits<T> {};
    template<typename T> struct traits<dglobal<T>> : traits<T> {};
    template<typename T, int N> struct traits<dref<T, N>> : traits<T> {};
    template<typename T> struct traits<doverflow<T>> : traits<T> { static constexpr bool cons = true, dest = true; };
    template<typename P, typename F> struct traits<ktl::fallback<P, F>>
    { static constexpr bool owns = traits<P>::owns && traits<F>::owns, maxs = traits<P>::maxs && traits<F>::maxs, cons = traits<P>::cons || traits<F>::cons, dest = traits<P>::dest || traits<F>::dest; };
    template<size_t T, typename P, typename F> struct traits<ktl::segragator<T, P, F>> : traits<ktl::fallback<P, F>>        // whose object it is must be known
    { static constexpr bool cons = traits<P>::owns && traits<ktl::fallback<P, F>>::cons, dest = traits<P>::owns && traits<ktl::fallback<P, F>>::dest; };

    // semantic classification of a composition (all by structural recursion over the type):
    //  handle    copies denote the same state; blocks may be deallocated through any copy
    //  always    all instances of the type denote the same state (equal whatever their history)
    //  exclusive distinct instances never share memory
    //  bump      contains a bump allocator by value: may only be moved while nothing is allocated
    //  xfer      a moved-to instance can take back everything the moved-from instance gave out (all but the bump allocators)
    //  flnh      contains, by value, a freelist over an allocator that does not hand over its state: may only be moved while its list is empty
    //  over      contains an overflow allocator by value (it counts what it gave out itself)
    //  thr       cannot be moved
    //  maxKnown / maxVal: max_size() pinned down by C06 (no freelist / overflow involved)
    template<typename A> struct sem;
    template<typename A> struct semLeafBase { static constexpr bool bump = false, flnh = false, over = false, freel = false, maxKnown = true; };
    template<int I, unsigned F> struct sem<leaf::R<I, F>> : semLeafBase<void> { static constexpr bool xfer = true, handle = false, always = false, exclusive = true; static size_t maxVal() { return leaf::plan[I].maxReq; } };
    template<int I, unsigned F> struct sem<leaf::X<I, F>> : sem<leaf::R<I, F>> {};
    template<int I, unsigned F> struct sem<leaf::H<I, F>> : semLeafBase<void> { static constexpr bool xfer = true, handle = true, always = true, exclusive = false; static size_t maxVal() { return leaf::plan[I].maxReq; } };
    template<size_t S> struct sem<ktl::linear_allocator<S>> : semLeafBase<void> { static constexpr bool xfer = false, handle = false, always = false, exclusive = true, bump = true; static size_t maxVal() { return S; } };
    template<size_t S, int N> struct sem<dstack<S, N>> : semLeafBase<void> { static constexpr bool xfer = true, handle = true, always = true, exclusive = false; static size_t maxVal() { return S; } };
    template<> struct sem<ktl::mallocator> : semLeafBase<void> { static constexpr bool xfer = true, handle = true, always = true, exclusive = false; static size_t maxVal() { return 0; } };
    template<> struct sem<ktl::null_allocator> : semLeafBase<void> { static constexpr bool xfer = true, handle = true, always = true, exclusive = true; static size_t maxVal() { return 0; } };
    template<size_t A, size_t B, typename T> struct sem<ktl::freelist<A, B, T>> : sem<T>
    { static constexpr bool handle = false, always = false, freel = true, maxKnown = false, flnh = sem<T>::flnh || !sem<T>::xfer; };
    template<typename T> struct sem<ktl::cascading<T>> : sem<T> { static constexpr bool xfer = true, handle = false, always = false, bump = false, flnh = false, over = false, freel = false; };
    template<typename T, template<typename> typename At> struct sem<ktl::shared<T, At>> : sem<T> { static constexpr bool xfer = true, handle = true, always = false, bump = false, flnh = false, over = false, freel = false; };
    template<typename T> struct sem<ktl::threaded<T>> : sem<T> { static constexpr bool handle = false, always = false; };
    template<typename T> struct sem<dglobal<T>> : sem<T> { static constexpr bool xfer = true, handle = true, always = true, exclusive = false, bump = false, flnh = false, over = false, freel = false; };
    template<typename T, int N> struct sem<dref<T, N>> : sem<T> { static constexpr bool xfer = true, handle = true, always = true, exclusive = false, bump = false, flnh = false, over = false, freel = false; };
    template<typename T> struct sem<doverflow<T>> : sem<T> { static constexpr bool handle = false, always = false, over = true, maxKnown = false; };
    template<typename P, typename F> struct sem<ktl::fallback<P, F>>
    {
        typedef sem<P> p; typedef sem<F> f;
        static constexpr bool xfer = p::xfer && f::xfer, handle = p::handle && f::handle, always = p::always && f::always, exclusive = p::exclusive && f::exclusive,
            bump = p::bump || f::bump, flnh = p::flnh || f::flnh, over = p::over || f::over, freel = p::freel || f::freel, maxKnown = p::maxKnown && f::maxKnown;
        static size_t maxVal() { return p::maxVal() > f::maxVal() ? p::maxVal() : f::maxVal(); }
    };
    template<size_t T, typename P, typename F> struct sem<ktl::segragator<T, P, F>> : sem<ktl::fallback<P, F>> {};

    // detection of what a composition really offers (independent of the library's own detection)
    template<typename A, typename = void> struct has_owns : std::false_type {};
    template<typename A> struct has_owns<A, std::void_t<decltype(std::declval<const A&>().owns((void*)nullptr))>> : std::true_type {};
    template<typename A, typename = void> struct has_max : std::false_type {};
    template<typename A> struct has_max<A, std::void_t<decltype(std::declval<const A&>().max_size())>> : std::true_type {};
    template<typename A, typename P, typename... X> struct has_cons_i
    {
        template<typename B> static auto t(int) -> decltype(std::declval<B&>().construct(std::declval<P>(), std::declval<X>()...), std::true_type());
        template<typename B> static std::false_type t(...);
        static constexpr bool value = decltype(t<A>(0))::value;
    };
    template<typename A, typename P, typename = void> struct has_dest : std::false_type {};
    template<typename A, typename P> struct has_dest<A, P, std::void_t<decltype(std::declval<A&>().destroy(std::declval<P>()))>> : std::true_type {};

    // move assignment usable (freelist's is declared even if its underlying allocator cannot be assigned)
    template<typename A> struct assignable : std::is_move_assignable<A> {};
    template<size_t A, size_t B, typename T> struct assignable<ktl::freelist<A, B, T>> : assignable<T> {};
    template<typename T> struct assignable<doverflow<T>> : std::false_type {};
    template<typename P, typename F> struct assignable<ktl::fallback<P, F>> : std::conjunction<assignable<P>, assignable<F>> {};
    template<size_t T, typename P, typename F> struct assignable<ktl::segragator<T, P, F>> : std::conjunction<assignable<P>, assignable<F>> {};

    // 64 guard bytes of an overflow allocator lie directly around every block, whoever modifies them
    template<typename A> struct guarded : std::false_type {};
    template<typename T> struct guarded<doverflow<T>> : std::true_type {};
    template<typename T> struct guarded<ktl::cascading<T>> : guarded<T> {};
    template<typename T> struct guarded<ktl::threaded<T>> : guarded<T> {};
    template<typename T, template<typename> typename At> struct guarded<ktl::shared<T, At>> : guarded<T> {};
    template<typename T> struct guarded<dglobal<T>> : guarded<T> {};
    template<typename T, int N> struct guarded<dref<T, N>> : guarded<T> {};
    template<typename P, typename F> struct guarded<ktl::fallback<P, F>> : std::conjunction<guarded<P>, guarded<F>> {};
    template<size_t T, typename P, typename F> struct guarded<ktl::segragator<T, P, F>> : std::conjunction<guarded<P>, guarded<F>> {};

    // objects constructed through allocators
    struct Obj
    {
        uint64_t v; Obj* self; int how;       // how: 0 default, 1 copy-ish lvalue arg, 2 rvalue arg, 3 two args
        static uint64_t ctors, dtors;
        static void (*hook)();                // called at the beginning of every construction; may throw
        struct Tok { uint64_t v; bool movedFrom = false; Tok(uint64_t x) : v(x) {} Tok(const Tok& t) : v(t.v) {} Tok(Tok&& t) : v(t.v) { t.movedFrom = true; } };
        Obj() : v(0), self(this), how(0) { if (hook) hook(); ctors++; }
        explicit Obj(const Tok& t) : v(t.v), self(this), how(1) { if (hook) hook(); ctors++; }
        explicit Obj(Tok&& t) : v(t.v), self(this), how(2) { if (hook) hook(); t.movedFrom = true; ctors++; }
        Obj(uint64_t a, uint64_t& b) : v(a), self(this), how(3) { if (hook) hook(); b++; ctors++; }
        Obj(const Obj&) = delete;
        ~Obj() { self = nullptr; dtors++; }
    };

    struct Any
    {
        virtual ~Any() {}
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual bool owns(void*) { return false; }
        virtual size_t max_size() { return 0; }
        virtual bool construct(Obj*, int how, uint64_t v, Obj::Tok* tok, uint64_t* ref) = 0;  // false: not offered
        virtual bool destroy(Obj*) = 0;
        virtual Any* copy() { return nullptr; }
        virtual Any* moveOut() { return nullptr; }            // move-constructs a new one from this
        virtual bool copyAssign(Any&) { return false; }
        virtual bool moveAssign(Any&) { return false; }
        virtual bool eq(Any&) = 0;
        virtual bool ne(Any&) = 0;
        // through type_allocator<Obj, reference<A>> and std::allocator_traits
        virtual Obj* tAllocate(size_t n) = 0;
        virtual void tDeallocate(Obj* p, size_t n) = 0;
        virtual void tConstruct(Obj*, int how, uint64_t v, Obj::Tok* tok, uint64_t* ref) = 0;
        virtual void tDestroy(Obj*) = 0;
        virtual size_t tMax() = 0;
        virtual bool tOwns(Obj*) = 0;
        bool hasOwns, hasMax, hasCons, hasDest;
        void* obj; size_t objSize;
    };

    template<typename A> struct Box : Any
    {
        A* a;
        template<typename... X> explicit Box(X&&... x)
        {
            a = Place<A>::template make<>(std::forward<X>(x)...);
            hasOwns = has_owns<A>::value; hasMax = has_max<A>::value;
            hasCons = has_cons_i<A, Obj*, const Obj::Tok&>::value; hasDest = has_dest<A, Obj*>::value; obj = a; objSize = sizeof(A);
        }
        ~Box() override { a->~A(); Place<A>::put(a); }
        void* allocate(size_t n) override { return a->allocate(n); }
        void deallocate(void* p, size_t n) override { a->deallocate(p, n); }
        bool owns(void* p) override { if constexpr (has_owns<A>::value) return std::as_const(*a).owns(p); else return false; }
        size_t max_size() override { if constexpr (has_max<A>::value) return std::as_const(*a).max_size(); else return SIZE_MAX; }
        bool construct(Obj* p, int how, uint64_t v, Obj::Tok* tok, uint64_t* ref) override
        {
            if constexpr (has_cons_i<A, Obj*, const Obj::Tok&>::value)
            {
                if (how == 0) a->construct(p);
                else if (how == 1) a->construct(p, std::as_const(*tok));
                else if (how == 2) a->construct(p, std::move(*tok));
                else a->construct(p, v, *ref);
                return true;
            }
            else return false;
        }
        bool destroy(Obj* p) override { if constexpr (has_dest<A, Obj*>::value) { a->destroy(p); return true; } else return false; }
        bool copyAssign(Any& o) override { if constexpr (std::is_copy_assignable_v<A>) { *a = std::as_const(*static_cast<Box&>(o).a); return true; } else return false; }
        bool moveAssign(Any& o) override { if constexpr (assignable<A>::value) { *a = std::move(*static_cast<Box&>(o).a); return true; } else return false; }
        bool eq(Any& o) override { return std::as_const(*a) == std::as_const(*static_cast<Box&>(o).a); }
        bool ne(Any& o) override { return std::as_const(*a) != std::as_const(*static_cast<Box&>(o).a); }
    };

    template<typename A> struct TBox : Box<A>
    {
        typedef ktl::type_allocator<Obj, ktl::reference<A>> TA; typedef std::allocator_traits<TA> Tr;
        TA ta() { return TA(*this->a); }
        using Box<A>::Box;
        Any* copy() override { if constexpr (std::is_copy_constructible_v<A>) return new TBox(std::as_const(*this->a)); else return nullptr; }
        Any* moveOut() override { if constexpr (std::is_move_constructible_v<A>) return new TBox(std::move(*this->a)); else return nullptr; }
        Obj* tAllocate(size_t n) override { TA t = ta(); return Tr::allocate(t, n); }
        void tDeallocate(Obj* p, size_t n) override { TA t = ta(); Tr::deallocate(t, p, n); }
        void tConstruct(Obj* p, int how, uint64_t v, Obj::Tok* tok, uint64_t* ref) override
        {
            TA t = ta();
            if (how == 0) Tr::construct(t, p);
            else if (how == 1) Tr::construct(t, p, std::as_const(*tok));
            else if (how == 2) Tr::construct(t, p, std::move(*tok));
            else Tr::construct(t, p, v, *ref);
        }
        void tDestroy(Obj* p) override { TA t = ta(); Tr::destroy(t, p); }
        size_t tMax() override { return Tr::max_size(ta()); }
        bool tOwns(Obj* p) override { if constexpr (has_owns<A>::value) return ta().owns(p); else { (void)p; return false; } }
    };

    struct Entry
    {
        const char* name; Any* (*make)();
        bool owns, maxs, cons, dest;      // expected to be offered
        bool copyable, movable;
        unsigned long weight;
        bool handle, always, exclusive, bump, flnh, over, freel, massign, maxKnown; size_t (*maxVal)();
        bool mentionsNull, guarded;
    };
    std::vector<Entry>& entries();
    struct Reg
    {
        Reg(Entry e) { entries().push_back(e); }
    };
    template<typename A> Any* make() { return new TBox<A>(); }
    template<typename A> Entry entry(const char* name, unsigned w)
    {
        return { name, &make<A>, traits<A>::owns, traits<A>::maxs, traits<A>::cons, traits<A>::dest, std::is_copy_constructible_v<A>, std::is_move_constructible_v<A>, w,
            sem<A>::handle, sem<A>::always, sem<A>::exclusive, sem<A>::bump, sem<A>::flnh, sem<A>::over, sem<A>::freel, assignable<A>::value, sem<A>::maxKnown && traits<A>::maxs, &sem<A>::maxVal,
            strstr(name, "nul") != nullptr, guarded<A>::value };
    }
    void resetState();     // sink etc.; call from pbt::reset()
}
#define ZOO_CAT2(a, b) a##b
#define ZOO_CAT(a, b) ZOO_CAT2(a, b)
#define ZOO(w, ...) static zoo::Reg ZOO_CAT(zoo_reg_, __LINE__)(zoo::entry<__VA_ARGS__>(#__VA_ARGS__, w));
