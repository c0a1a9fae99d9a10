#include "ctlsched.h"
#include <pthread.h>

// linked with --wrap for these
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);
extern "C" int __real_pthread_mutex_trylock(pthread_mutex_t*);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
extern "C" int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
extern "C" int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
extern "C" int __real_pthread_rwlock_unlock(pthread_rwlock_t*);

namespace sched
{
    struct Th { sem_t go; bool done = false; const void* waits = nullptr; };
    static std::vector<std::unique_ptr<Th>> ths;
    static int cur = -1; static thread_local int me = -1;
    static pbt::Src* src; static std::string first; static uint64_t nsw; static sem_t mainSem;
    struct Lock { int writer = -1; std::vector<int> readers; };
    static std::map<const void*, Lock> locks;

    bool active() { return me >= 0; }
    int self() { return me; }
    uint64_t switches() { return nsw; }
    void problem(const char* fmt, ...)
    {
        if (!first.empty()) return;
        char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); first = b;
    }
    static void pass()        // give the baton to a runnable thread chosen by the case
    {
        std::vector<int> r;
        // the running thread first, so that the simplest choice is "no switch"
        if (me >= 0 && !ths[me]->done && !ths[me]->waits) r.push_back(me);
        for (size_t i = 0; i < ths.size(); i++) if (int(i) != me && !ths[i]->done && !ths[i]->waits) r.push_back(int(i));
        if (r.empty())
        {
            bool all = true; for (auto& t : ths) all &= t->done;
            if (!all) { pbt::log("DEADLOCK: every unfinished thread waits for a lock"); fprintf(stderr, "deadlock\n"); abort(); }
            cur = -1; sem_post(&mainSem); return;
        }
        int n = r[src->draw(r.size())];
        if (n == me) return;
        nsw++; cur = n;
        int m = me; bool park = m >= 0 && !ths[m]->done;
        sem_post(&ths[n]->go);
        if (park) while (sem_wait(&ths[m]->go)) {}
    }
    void yield() { if (me >= 0) pass(); }
    static void block(const void* l) { ths[me]->waits = l; pass(); }
    static void wake(const void* l) { for (auto& t : ths) if (t->waits == l) t->waits = nullptr; }

    void run(pbt::Src& s, const std::vector<std::function<void()>>& bodies)
    {
        ths.clear(); locks.clear(); first.clear(); src = &s; nsw = 0; cur = -1;
        sem_init(&mainSem, 0, 0);
        for (size_t i = 0; i < bodies.size(); i++) { ths.push_back(std::make_unique<Th>()); sem_init(&ths.back()->go, 0, 0); }
        std::vector<std::thread> ts;
        for (size_t i = 0; i < bodies.size(); i++)
            ts.emplace_back([i, &bodies] {
                while (sem_wait(&ths[i]->go)) {}
                me = int(i);
                bodies[i]();
                ths[i]->done = true;
                pass();
                me = -1;
            });
        pass();
        while (sem_wait(&mainSem)) {}
        for (auto& t : ts) t.join();
        if (!first.empty()) { std::string e = first; pbt::fail("%s", e.c_str()); }
    }
}
using namespace sched;
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!active()) return __real_pthread_mutex_lock(m);
    yield();
    while (locks[m].writer >= 0) { if (locks[m].writer == self()) { pbt::log("a thread locks a mutex it holds"); fprintf(stderr, "self-deadlock\n"); abort(); } block(m); }
    locks[m].writer = self();
    return 0;
}
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!active()) return __real_pthread_mutex_trylock(m);
    yield();
    if (locks[m].writer >= 0) return 16;   // EBUSY
    locks[m].writer = self();
    return 0;
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!active()) return __real_pthread_mutex_unlock(m);
    if (locks[m].writer != self()) problem("a thread unlocks a mutex it does not hold");
    locks[m].writer = -1; wake(m);
    yield();
    return 0;
}
extern "C" int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!active()) return __real_pthread_rwlock_rdlock(m);
    yield();
    while (locks[m].writer >= 0) block(m);
    locks[m].readers.push_back(self());
    return 0;
}
extern "C" int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!active()) return __real_pthread_rwlock_wrlock(m);
    yield();
    while (locks[m].writer >= 0 || !locks[m].readers.empty()) block(m);
    locks[m].writer = self();
    return 0;
}
extern "C" int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!active()) return __real_pthread_rwlock_unlock(m);
    Lock& l = locks[m];
    if (l.writer == self()) l.writer = -1;
    else for (size_t i = 0; i < l.readers.size(); i++) if (l.readers[i] == self()) { l.readers.erase(l.readers.begin() + i); break; }
    wake(m);
    yield();
    return 0;
}
