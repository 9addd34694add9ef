// the runtime behind lib/sched.hpp; compiled without instrumentation
#include "sched.hpp"

#include <cerrno>
#include <dlfcn.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <vector>

namespace
{
constexpr size_t STACK = 256 * 1024;

extern "C" void sched_switch(void** from, void* to);
asm(R"(
.text
.globl sched_switch
.type sched_switch,@function
sched_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sched_switch,.-sched_switch
)");

enum class S
{
    READY,
    WAIT,
    DONE,
    KILLED
};
struct Fiber
{
    int id;
    void* sp{nullptr};
    void* stack{nullptr};
    std::function<void()> f;
    S state{S::READY};
    std::function<bool()> pred;
    bool timed{false};
    bool timedOut{false};
    bool killPending{false};
    uint32_t killIn{0};
    bool yielded{false};
    void* result{nullptr};
    bool detached{false};
    int enabled{0};
};

struct Mutex
{
    int owner{-1};
    uint32_t count{0};
};

pbt::Case* g_case = nullptr;
sched::Options g_opt;
std::vector<std::unique_ptr<Fiber>> g_fibers;
std::map<void*, Mutex>* g_mutexes = nullptr;
std::vector<void*> g_stacks;
Fiber* g_cur = nullptr;
void* g_main = nullptr;
uint32_t g_slice = 0;
uint64_t g_steps = 0;
bool g_mem = false;
uint32_t g_gran = 4;
bool g_hasFailure = false;
pbt::Failure g_failure;
bool g_hasDiscard = false;
pbt::Discard g_discard;
uint64_t g_fairRng = 1;
uint64_t g_clock = 0;

void toScheduler()
{
    int e = errno; // every thread has its own
    sched_switch(&g_cur->sp, g_main);
    errno = e;
}

inline void step()
{
    if (g_cur == nullptr || g_cur->enabled <= 0)
    {
        return;
    }
    ++g_steps;
    if (g_cur->killPending)
    {
        if (g_cur->killIn == 0)
        {
            g_cur->state = S::KILLED;
            toScheduler(); // never comes back
        }
        --g_cur->killIn;
    }
    if (g_slice == 0)
    {
        toScheduler();
        return;
    }
    --g_slice;
}

void yieldNow()
{
    if (g_cur == nullptr)
    {
        return;
    }
    g_cur->yielded = true;
    g_slice = 0;
    step();
}

/// the code used here may be shared with instrumented code (inline functions): no scheduling points within it
struct Quiet
{
    int before{g_cur->enabled};
    Quiet()
    {
        g_cur->enabled = 0;
    }
    ~Quiet()
    {
        g_cur->enabled = before;
    }
};
bool chance(uint32_t num, uint32_t den)
{
    Quiet q;
    return g_case->chance(num, den);
}

/// returns false on time-out
bool block(std::function<bool()> pred, bool timed)
{
    step();
    Quiet q;
    while (!pred())
    {
        if (timed && g_opt.earlyTimeouts && g_case->chance(1, 12))
        {
            return false;
        }
        g_cur->pred = pred;
        g_cur->timed = timed;
        g_cur->timedOut = false;
        g_cur->state = S::WAIT;
        toScheduler();
        if (g_cur->timedOut)
        {
            return pred();
        }
    }
    return true;
}

void entry()
{
    Fiber* f = g_cur;
    try
    {
        f->f();
    }
    catch (const pbt::Failure& x)
    {
        if (!g_hasFailure)
        {
            g_hasFailure = true;
            g_failure = x;
        }
    }
    catch (const pbt::Discard& x)
    {
        g_hasDiscard = true;
        g_discard = x;
    }
    f->state = S::DONE;
    sched_switch(&f->sp, g_main);
    abort();
}

void prepare(Fiber& f)
{
    if (!g_stacks.empty())
    {
        f.stack = g_stacks.back();
        g_stacks.pop_back();
    }
    else
    {
        f.stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(f.stack, 4096, PROT_NONE);
    }
    auto top = reinterpret_cast<uintptr_t>(f.stack) + STACK;
    auto* s = reinterpret_cast<uint64_t*>(top & ~uintptr_t(15));
    *--s = 0;                                     // keeps the ABI alignment at entry
    *--s = reinterpret_cast<uint64_t>(&entry);    // return address of the switch
    for (int i = 0; i < 6; ++i)
    {
        *--s = 0;
    }
    --s;
    uint32_t mxcsr;
    uint16_t fcw;
    asm volatile("stmxcsr %0" : "=m"(mxcsr));
    asm volatile("fnstcw %0" : "=m"(fcw));
    *s = 0;
    memcpy(s, &mxcsr, 4);
    memcpy(reinterpret_cast<char*>(s) + 4, &fcw, 2);
    f.sp = s;
}

template <typename F>
F real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
} // namespace

namespace sched
{
void begin(pbt::Case& c, const Options& o)
{
    end();
    g_case = &c;
    g_opt = o;
    g_steps = 0;
    g_hasFailure = g_hasDiscard = false;
    g_mem = o.memory && c.chance(1, 2);
    g_mutexes = new std::map<void*, Mutex>;
    const uint32_t gran[] = {3, 8, 30, 120, 600};
    const uint32_t fine[] = {2, 3, 4, 6, 12};
    const uint32_t g = c.draw(5);
    g_gran = o.fine ? fine[g] : gran[g];
    g_fairRng = 12345;
}
int spawn(std::function<void()> f)
{
    auto x = std::make_unique<Fiber>();
    x->id = static_cast<int>(g_fibers.size());
    x->f = std::move(f);
    prepare(*x);
    g_fibers.push_back(std::move(x));
    return g_fibers.back()->id;
}
void killAfter(int f, uint32_t steps)
{
    g_fibers[static_cast<size_t>(f)]->killPending = true;
    g_fibers[static_cast<size_t>(f)]->killIn = steps;
}
bool killed(int f)
{
    return g_fibers[static_cast<size_t>(f)]->state == S::KILLED;
}
bool finished(int f)
{
    return g_fibers[static_cast<size_t>(f)]->state == S::DONE;
}
End go()
{
    Fiber* last = nullptr;
    for (;;)
    {
        std::vector<Fiber*> ready;
        bool waiting = false;
        for (size_t i = 0; i < g_fibers.size(); ++i)
        {
            Fiber* f = g_fibers[i].get();
            if (f->state == S::WAIT)
            {
                if (f->pred())
                {
                    f->state = S::READY;
                }
                else
                {
                    waiting = true;
                }
            }
            if (f->state == S::READY)
            {
                ready.push_back(f);
            }
        }
        if (ready.empty())
        {
            if (!waiting)
            {
                break;
            }
            // nobody can run: let a timed wait expire
            Fiber* t = nullptr;
            for (auto& f : g_fibers)
            {
                if (f->state == S::WAIT && f->timed)
                {
                    t = f.get();
                    break;
                }
            }
            if (t == nullptr)
            {
                return End::DEADLOCK;
            }
            t->timedOut = true;
            t->state = S::READY;
            ready.push_back(t);
        }
        Fiber* next = nullptr;
        if (g_steps > g_opt.maxSteps)
        {
            if (g_steps > 6ULL * g_opt.maxSteps)
            {
                return End::EXHAUSTED;
            }
            // fair phase: everybody gets to run, with varying slice lengths
            g_fairRng = pbt::mix(g_fairRng + 1);
            next = ready[g_fairRng % ready.size()];
            g_slice = static_cast<uint32_t>((g_fairRng >> 20) % 400);
        }
        else
        {
            if (last != nullptr && last->state == S::READY && last->yielded && ready.size() > 1)
            {
                // somebody else makes progress
                std::vector<Fiber*> others;
                for (auto* f : ready)
                {
                    if (f != last)
                    {
                        others.push_back(f);
                    }
                }
                next = others[g_case->draw(static_cast<uint32_t>(others.size()))];
            }
            else
            {
                next = ready[g_case->draw(static_cast<uint32_t>(ready.size()))];
            }
            uint32_t g = ready.size() > 1 ? g_case->draw(g_gran) : 0;
            g_slice = g == 0 ? 3000 : g - 1;
        }
        next->yielded = false;
        last = next;
        g_cur = next;
        sched_switch(&g_main, next->sp);
        g_cur = nullptr;
        if (g_hasFailure)
        {
            pbt::Failure f = g_failure;
            throw f;
        }
        if (g_hasDiscard)
        {
            throw g_discard;
        }
    }
    return End::FINISHED;
}
void end()
{
    for (auto& f : g_fibers)
    {
        if (f->state == S::DONE)
        {
            g_stacks.push_back(f->stack);
        }
        else
        {
            // its frames are still there: keep the stack (a killed fiber's objects may be referenced)
            f.release();
        }
    }
    g_fibers.clear();
    delete g_mutexes;
    g_mutexes = nullptr;
    g_cur = nullptr;
    g_case = nullptr;
}
void point()
{
    if (g_cur != nullptr)
    {
        ++g_cur->enabled;
        step();
        --g_cur->enabled;
    }
}
Pause::Pause()
    : m_before(g_cur != nullptr ? g_cur->enabled : 0)
{
    if (g_cur != nullptr)
    {
        g_cur->enabled = 0;
    }
}
Pause::~Pause()
{
    if (g_cur != nullptr)
    {
        g_cur->enabled = m_before;
    }
}
uint64_t clock()
{
    return ++g_clock;
}
int self()
{
    return g_cur ? g_cur->id : -1;
}
void waitUntil(std::function<bool()> pred)
{
    block(std::move(pred), false);
}
Code::Code()
{
    if (g_cur != nullptr)
    {
        ++g_cur->enabled;
    }
}
Code::~Code()
{
    if (g_cur != nullptr)
    {
        --g_cur->enabled;
    }
}
} // namespace sched

// ------------------------------------------------------------------ instrumentation callbacks
extern "C" {
void __tsan_init()
{
}
void __tsan_func_entry(void*)
{
}
void __tsan_func_exit()
{
}
void __tsan_vptr_update(void**, void*)
{
}
void __tsan_vptr_read(void**)
{
}
static inline void mem()
{
    if (g_mem)
    {
        step();
    }
}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void*)                                                                                         \
    {                                                                                                                  \
        mem();                                                                                                         \
    }                                                                                                                  \
    void __tsan_write##n(void*)                                                                                        \
    {                                                                                                                  \
        mem();                                                                                                         \
    }                                                                                                                  \
    void __tsan_unaligned_read##n(void*)                                                                               \
    {                                                                                                                  \
        mem();                                                                                                         \
    }                                                                                                                  \
    void __tsan_unaligned_write##n(void*)                                                                              \
    {                                                                                                                  \
        mem();                                                                                                         \
    }
RW(1) RW(2) RW(4) RW(8) RW(16) void __tsan_read_range(void*, unsigned long)
{
}
void __tsan_write_range(void*, unsigned long)
{
}
// a copy is not atomic: another fiber may run in the middle of it
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    if (!g_mem || n <= 8)
    {
        return memcpy(d, s, n);
    }
    size_t h = (n / 2) & ~size_t(7);
    step();
    memcpy(d, s, h);
    step();
    memcpy(static_cast<char*>(d) + h, static_cast<const char*>(s) + h, n - h);
    step();
    return d;
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    mem();
    void* r = memmove(d, s, n);
    mem();
    return r;
}
void* __tsan_memset(void* d, int c, size_t n)
{
    mem();
    void* r = memset(d, c, n);
    mem();
    return r;
}
#define ATOMIC(bits)                                                                                                   \
    uint##bits##_t __tsan_atomic##bits##_load(const volatile uint##bits##_t* a, int)                                   \
    {                                                                                                                  \
        step();                                                                                                        \
        auto r_ = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                \
        step();                                                                                                        \
        return r_;                                                                                                     \
    }                                                                                                                  \
    void __tsan_atomic##bits##_store(volatile uint##bits##_t* a, uint##bits##_t v, int)                                \
    {                                                                                                                  \
        step();                                                                                                        \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
        step();                                                                                                        \
    }                                                                                                                  \
    uint##bits##_t __tsan_atomic##bits##_exchange(volatile uint##bits##_t* a, uint##bits##_t v, int)                   \
    {                                                                                                                  \
        step();                                                                                                        \
        auto r_ = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                         \
        step();                                                                                                        \
        return r_;                                                                                                     \
    }                                                                                                                  \
    uint##bits##_t __tsan_atomic##bits##_fetch_add(volatile uint##bits##_t* a, uint##bits##_t v, int)                  \
    {                                                                                                                  \
        step();                                                                                                        \
        auto r_ = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                          \
        step();                                                                                                        \
        return r_;                                                                                                     \
    }                                                                                                                  \
    uint##bits##_t __tsan_atomic##bits##_fetch_sub(volatile uint##bits##_t* a, uint##bits##_t v, int)                  \
    {                                                                                                                  \
        step();                                                                                                        \
        auto r_ = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                          \
        step();                                                                                                        \
        return r_;                                                                                                     \
    }                                                                                                                  \
    uint##bits##_t __tsan_atomic##bits##_fetch_and(volatile uint##bits##_t* a, uint##bits##_t v, int)                  \
    {                                                                                                                  \
        step();                                                                                                        \
        auto r_ = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                          \
        step();                                                                                                        \
        return r_;                                                                                                     \
    }                                                                                                                  \
    uint##bits##_t __tsan_atomic##bits##_fetch_or(volatile uint##bits##_t* a, uint##bits##_t v, int)                   \
    {                                                                                                                  \
        step();                                                                                                        \
        auto r_ = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                           \
        step();                                                                                                        \
        return r_;                                                                                                     \
    }                                                                                                                  \
    uint##bits##_t __tsan_atomic##bits##_fetch_xor(volatile uint##bits##_t* a, uint##bits##_t v, int)                  \
    {                                                                                                                  \
        step();                                                                                                        \
        auto r_ = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                          \
        step();                                                                                                        \
        return r_;                                                                                                     \
    }                                                                                                                  \
    uint##bits##_t __tsan_atomic##bits##_fetch_nand(volatile uint##bits##_t* a, uint##bits##_t v, int)                 \
    {                                                                                                                  \
        step();                                                                                                        \
        auto r_ = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                         \
        step();                                                                                                        \
        return r_;                                                                                                     \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_strong(                                                                 \
        volatile uint##bits##_t* a, uint##bits##_t* e, uint##bits##_t v, int, int)                                     \
    {                                                                                                                  \
        step();                                                                                                        \
        auto r_ = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                     \
        step();                                                                                                        \
        return r_;                                                                                                     \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_weak(                                                                   \
        volatile uint##bits##_t* a, uint##bits##_t* e, uint##bits##_t v, int, int)                                     \
    {                                                                                                                  \
        step();                                                                                                        \
        if (g_cur != nullptr && g_cur->enabled > 0 && g_opt.spurious && g_steps <= g_opt.maxSteps && chance(1, 24))                  \
        {                                                                                                              \
            *e = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                 \
            return 0;                                                                                                  \
        }                                                                                                              \
        auto r_ = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                     \
        step();                                                                                                        \
        return r_;                                                                                                     \
    }                                                                                                                  \
    uint##bits##_t __tsan_atomic##bits##_compare_exchange_val(                                                         \
        volatile uint##bits##_t* a, uint##bits##_t e, uint##bits##_t v, int, int)                                      \
    {                                                                                                                  \
        step();                                                                                                        \
        __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                              \
        return e;                                                                                                      \
    }
ATOMIC(8) ATOMIC(16) ATOMIC(32) ATOMIC(64) void __tsan_atomic_thread_fence(int)
{
    step();
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
void __tsan_atomic_signal_fence(int)
{
}

// ------------------------------------------------------------------ blocking primitives
static int kindOf(pthread_mutex_t* m)
{
    return m->__data.__kind;
}
static int mutexAcquire(pthread_mutex_t* m, bool tryOnly)
{
    step();
    Mutex& x = (*g_mutexes)[m];
    int k = kindOf(m);
    if (x.owner == g_cur->id)
    {
        if ((k & 3) == PTHREAD_MUTEX_RECURSIVE)
        {
            ++x.count;
            return 0;
        }
        if (tryOnly)
        {
            return EBUSY;
        }
        if ((k & 3) == PTHREAD_MUTEX_ERRORCHECK)
        {
            return EDEADLK;
        }
    }
    while (x.owner != -1)
    {
        if ((k & 16) != 0 && g_fibers[static_cast<size_t>(x.owner)]->state == S::KILLED)
        {
            x.owner = g_cur->id;
            x.count = 1;
            return EOWNERDEAD;
        }
        if (tryOnly)
        {
            return EBUSY;
        }
        block([m, k] {
            auto& y = (*g_mutexes)[m];
            return y.owner == -1
                   || ((k & 16) != 0 && g_fibers[static_cast<size_t>(y.owner)]->state == S::KILLED);
        }, false);
    }
    x.owner = g_cur->id;
    x.count = 1;
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (g_cur == nullptr)
    {
        return r(m);
    }
    return mutexAcquire(m, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    if (g_cur == nullptr)
    {
        return r(m);
    }
    return mutexAcquire(m, true);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if (g_cur == nullptr)
    {
        return r(m);
    }
    Mutex& x = (*g_mutexes)[m];
    if (x.owner != g_cur->id)
    {
        return EPERM;
    }
    if (--x.count == 0)
    {
        x.owner = -1;
    }
    step();
    return 0;
}
int pthread_mutex_consistent(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_consistent");
    return g_cur == nullptr ? r(m) : 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
    if (g_mutexes != nullptr)
    {
        auto it = g_mutexes->find(m);
        if (it != g_mutexes->end())
        {
            if (it->second.owner != -1)
            {
                return EBUSY;
            }
            g_mutexes->erase(it);
        }
    }
    return r(m);
}
int sem_trywait(sem_t* s)
{
    static auto r = real<int (*)(sem_t*)>("sem_trywait");
    step();
    return r(s);
}
int sem_post(sem_t* s)
{
    static auto r = real<int (*)(sem_t*)>("sem_post");
    step();
    int x = r(s);
    step();
    return x;
}
static int semValue(sem_t* s)
{
    int v = 0;
    sem_getvalue(s, &v);
    return v;
}
int sem_wait(sem_t* s)
{
    static auto r = real<int (*)(sem_t*)>("sem_wait");
    static auto t = real<int (*)(sem_t*)>("sem_trywait");
    if (g_cur == nullptr)
    {
        return r(s);
    }
    step();
    while (t(s) != 0)
    {
        block([s] { return semValue(s) > 0; }, false);
    }
    return 0;
}
int sem_timedwait(sem_t* s, const struct timespec* ts)
{
    static auto r = real<int (*)(sem_t*, const struct timespec*)>("sem_timedwait");
    static auto t = real<int (*)(sem_t*)>("sem_trywait");
    if (g_cur == nullptr)
    {
        return r(s, ts);
    }
    step();
    while (t(s) != 0)
    {
        if (!block([s] { return semValue(s) > 0; }, true))
        {
            errno = ETIMEDOUT;
            return -1;
        }
    }
    return 0;
}
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts)
{
    static auto r = real<int (*)(sem_t*, clockid_t, const struct timespec*)>("sem_clockwait");
    if (g_cur == nullptr)
    {
        return r(s, c, ts);
    }
    return sem_timedwait(s, ts);
}
int sched_yield()
{
    static auto r = real<int (*)()>("sched_yield");
    if (g_cur == nullptr)
    {
        return r();
    }
    yieldNow();
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
    static auto r = real<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
    if (g_cur == nullptr)
    {
        return r(a, b);
    }
    yieldNow();
    return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b)
{
    static auto r = real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep");
    if (g_cur == nullptr)
    {
        return r(c, f, a, b);
    }
    yieldNow();
    return 0;
}
int usleep(useconds_t u)
{
    static auto r = real<int (*)(useconds_t)>("usleep");
    if (g_cur == nullptr)
    {
        return r(u);
    }
    yieldNow();
    return 0;
}
// threads created by the code under test become fibers while a run is set up or executed
static constexpr uintptr_t FIBER_TAG = 0x5c4ed00000000000ULL;
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg)
{
    static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (g_case == nullptr)
    {
        return r(t, a, f, arg);
    }
    int id = static_cast<int>(g_fibers.size());
    *t = FIBER_TAG + static_cast<uintptr_t>(id);
    sched::spawn([id, f, arg] {
        sched::Code code;
        void* res = f(arg);
        g_fibers[static_cast<size_t>(id)]->result = res;
    });
    step();
    return 0;
}
static int fiberOf(pthread_t t)
{
    return t >= FIBER_TAG && t - FIBER_TAG < 100000 ? static_cast<int>(t - FIBER_TAG) : -1;
}
int pthread_join(pthread_t t, void** res)
{
    static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
    int id = fiberOf(t);
    if (id < 0)
    {
        return r(t, res);
    }
    if (g_cur == nullptr)
    {
        // the harness itself tears down: run the fibers until it is gone
        if (!sched::finished(id))
        {
            sched::go();
        }
    }
    else
    {
        block([id] { return sched::finished(id) || sched::killed(id); }, false);
    }
    if (res != nullptr)
    {
        *res = g_fibers[static_cast<size_t>(id)]->result;
    }
    return 0;
}
int pthread_detach(pthread_t t)
{
    static auto r = real<int (*)(pthread_t)>("pthread_detach");
    return fiberOf(t) < 0 ? r(t) : 0;
}
pthread_t pthread_self()
{
    static auto r = real<pthread_t (*)()>("pthread_self");
    if (g_cur == nullptr)
    {
        return r();
    }
    return g_opt.threadId ? static_cast<pthread_t>(g_opt.threadId(g_cur->id)) : FIBER_TAG + static_cast<uintptr_t>(g_cur->id);
}
int pthread_setname_np(pthread_t t, const char* n)
{
    static auto r = real<int (*)(pthread_t, const char*)>("pthread_setname_np");
    return fiberOf(t) < 0 ? r(t, n) : 0;
}
int pthread_getname_np(pthread_t t, char* n, size_t l)
{
    static auto r = real<int (*)(pthread_t, char*, size_t)>("pthread_getname_np");
    if (fiberOf(t) < 0)
    {
        return r(t, n, l);
    }
    if (l > 0)
    {
        n[0] = 0;
    }
    return 0;
}
}

// a fiber that initialises a function-local static is not preempted: all fibers share one OS thread, so the real guard
// would wait for itself
namespace
{
int (*g_guardAcquire)(void*) = nullptr;
void (*g_guardRelease)(void*) = nullptr;
void (*g_guardAbort)(void*) = nullptr;
Fiber* g_guardOwner = nullptr;
int g_guardDepth = 0;
int g_guardEnabled = 0;
void guardDone()
{
    if (g_cur != nullptr && g_cur == g_guardOwner && --g_guardDepth == 0)
    {
        g_cur->enabled = g_guardEnabled;
        g_guardOwner = nullptr;
    }
}
} // namespace
extern "C" {
int __cxa_guard_acquire(void* g)
{
    if (g_guardAcquire == nullptr)
    {
        g_guardAcquire = real<int (*)(void*)>("__cxa_guard_acquire");
        g_guardRelease = real<void (*)(void*)>("__cxa_guard_release");
        g_guardAbort = real<void (*)(void*)>("__cxa_guard_abort");
    }
    const int first = g_guardAcquire(g);
    if (first != 0 && g_cur != nullptr)
    {
        if (g_guardDepth++ == 0)
        {
            g_guardOwner = g_cur;
            g_guardEnabled = g_cur->enabled;
            g_cur->enabled = 0;
        }
    }
    return first;
}
void __cxa_guard_release(void* g)
{
    g_guardRelease(g);
    guardDone();
}
void __cxa_guard_abort(void* g)
{
    g_guardAbort(g);
    guardDone();
}
}
