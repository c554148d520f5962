#include "conc.hh"
#include <map>
#include <ucontext.h>
#include <cerrno>
#include <exception>
namespace conc {
namespace {
struct Thread { ucontext_t ctx; char* stack; size_t size; bool done; pthread_mutex_t* waiting; };
struct Mutex { int owner; int depth; };
ucontext_t mainCtx; std::vector<Thread*> th; const std::vector<std::function<void()> >* bods = 0;
std::map<pthread_mutex_t*, Mutex> mtx; int cur = -1, budget = 0; bool fine = false; long tick = 0; std::exception_ptr err; bool aborting = false;
const size_t STK = 256 * 1024; std::vector<char*> pool;
void entry(int k) {
    try { (*bods)[k](); } catch (...) { if (!err) err = std::current_exception(); }
    th[k]->done = true; cur = -1; swapcontext(&th[k]->ctx, &mainCtx);
}
bool enabled(int k) { return !th[k]->done && (!th[k]->waiting || mtx.find(th[k]->waiting) == mtx.end() || mtx[th[k]->waiting].owner < 0); }
void toMain() { int me = cur; cur = -1; swapcontext(&th[me]->ctx, &mainCtx); }
std::vector<std::pair<char*, size_t> > ranges; bool track = false;
}
int self() { return cur; }
long clock() { return tick; }
bool mutexHeld(pthread_mutex_t* m) { return mtx.count(m) && mtx[m].owner >= 0; }
int mutexOwner(pthread_mutex_t* m) { return mtx.count(m) ? mtx[m].owner : -1; }
int heldBySelf() { int n = 0; for (std::map<pthread_mutex_t*, Mutex>::iterator i = mtx.begin(); i != mtx.end(); ++i) if (i->second.owner == cur) n++; return n; }
void yieldPoint() { if (cur >= 0) { tick++; toMain(); } }
void run(const std::vector<std::function<void()> >& bodies, int preemptions, bool finegrained) {
    for (size_t k = 0; k < th.size(); k++) { pool.push_back(th[k]->stack); delete th[k]; }
    th.clear(); mtx.clear(); cur = -1; budget = preemptions; fine = finegrained; tick = 0; err = nullptr; bods = &bodies;
    for (size_t k = 0; k < bodies.size(); k++) {
        Thread* t = new Thread; t->done = false; t->waiting = 0; t->size = STK;
        if (pool.empty()) t->stack = (char*)malloc(STK); else { t->stack = pool.back(); pool.pop_back(); }
        getcontext(&t->ctx); t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = STK; t->ctx.uc_link = &mainCtx;
        makecontext(&t->ctx, (void (*)())entry, 1, (int)k); th.push_back(t);
    }
    int last = -1;
    for (;;) {
        if (err) std::rethrow_exception(err);
        std::vector<int> en; bool lastOn = last >= 0 && enabled(last);
        if (lastOn) en.push_back(last);
        bool all = true;
        for (int k = 0; k < (int)th.size(); k++) { if (!th[k]->done) all = false; if (k != last && enabled(k)) en.push_back(k); }
        if (all) break;
        if (en.empty()) mc::fail("deadlock: no thread can run");
        int pickN = (lastOn && budget <= 0) ? 1 : (int)en.size();
        int c = mc::choose(pickN);
        if (lastOn && c > 0) { budget--; }
        if (mc::tracing() && en[c] != last) mc::trace("  [t=%ld] thread %d runs", tick, en[c]);
        last = en[c]; cur = last; mc::step();
        if (tick > 20000) mc::fail("livelock: more than 20000 scheduling points");
        swapcontext(&mainCtx, &th[last]->ctx);
    }
    cur = -1;
}
void watchNew(bool on) { track = on; if (on) ranges.clear(); }
static void access(void* p) {
    if (cur < 0 || !fine) return;
    char* q = (char*)p;
    for (size_t k = 0; k < ranges.size(); k++) if (q >= ranges[k].first && q < ranges[k].first + ranges[k].second) { tick++; toMain(); return; }
}
}
using namespace conc;
void* operator new(size_t n) { void* p = malloc(n); if (track) { track = false; ranges.push_back(std::make_pair((char*)p, n)); track = true; } return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
extern "C" {
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { if (cur >= 0) yieldPoint(); mtx.erase(m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { mtx.erase(m); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (cur < 0) { Mutex& x = mtx[m]; if (x.depth == 0) { x.owner = -1; } if (x.owner == -2) mc::fail("self-deadlock on a mutex outside the threads"); x.owner = -2; x.depth = 1; return 0; }
    yieldPoint();
    if (!mtx.count(m)) { Mutex z = {-1, 0}; mtx[m] = z; }
    if (mtx[m].owner == cur) mc::fail("thread %d locks a mutex it already holds (deadlock)", cur);
    while (mtx[m].owner != -1) { int me = cur; th[me]->waiting = m; toMain(); th[me]->waiting = 0; }
    mtx[m].owner = cur; mtx[m].depth = 1; return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (cur >= 0) yieldPoint();
    if (!mtx.count(m)) { Mutex z = {-1, 0}; mtx[m] = z; }
    if (mtx[m].owner != -1) return EBUSY;
    mtx[m].owner = cur < 0 ? -2 : cur; mtx[m].depth = 1; return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (cur >= 0) yieldPoint();
    int who = cur < 0 ? -2 : cur;
    if (!mtx.count(m) || mtx[m].owner != who) mc::fail("thread %d unlocks a mutex it does not hold", cur);
    mtx[m].owner = -1; mtx[m].depth = 0; return 0;
}
// the thread-sanitizer interface, as scheduling points
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p); } void __tsan_write##n(void* p) { access(p); } \
              void __tsan_unaligned_read##n(void* p) { access(p); } void __tsan_unaligned_write##n(void* p) { access(p); } \
              void __tsan_volatile_read##n(void* p) { access(p); } void __tsan_volatile_write##n(void* p) { access(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access(p); } void __tsan_vptr_read(void** p) { access(p); }
void __tsan_read_range(void* p, unsigned long) { access(p); } void __tsan_write_range(void* p, unsigned long) { access(p); }
#define AT(n, T) T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { access((void*)p); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { access((void*)p); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { access((void*)p); T o = *p; *p = v; return o; } \
    T __tsan_atomic##n##_load(const volatile T* p, int) { access((void*)p); return *p; } \
    void __tsan_atomic##n##_store(volatile T* p, T v, int) { access((void*)p); *p = v; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access((void*)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, a, b); }
AT(8, char) AT(16, short) AT(32, int) AT(64, long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
