// Lock-free building blocks under generated schedules (S13, S14).
#include "iceoryx_posh/internal/mepoo/mem_pool.hpp"
#include "iceoryx_posh/internal/mepoo/shared_chunk.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/variant_queue.hpp"
#include "iceoryx_posh/mepoo/chunk_header.hpp"
#include "iox/bump_allocator.hpp"
#include "iox/detail/mpmc_lockfree_queue.hpp"
#include "iox/detail/mpmc_loffli.hpp"
#include "iox/detail/mpmc_resizeable_lockfree_queue.hpp"
#include "iox/detail/spsc_fifo.hpp"
#include "iox/detail/spsc_sofi.hpp"
#include "iox/logging.hpp"
#include "lin.hpp"
#include "sched.hpp"

#include <deque>
#include <set>

using namespace iox;
using namespace iox::concurrent;

namespace
{
/// a value that shows when it was torn, invented or used before it was written
struct Val
{
    uint64_t id{0};
    uint64_t a{0};
    uint64_t b{0};
    Val() = default;
    explicit Val(uint64_t i)
        : id(i)
        , a(pbt::mix(i))
        , b(~pbt::mix(i))
    {
    }
    bool ok() const
    {
        return id != 0 && a == pbt::mix(id) && b == ~a;
    }
};

struct Ret
{
    bool stored{false};
    bool out{false}; // an element came back (evicted) or was popped
    Val v;
};

struct Ev
{
    enum Kind
    {
        PUSH,    // may evict
        TRYPUSH, // may fail
        POP,
        RESIZE,
    } kind;
    uint64_t from;
    uint64_t to;
    int fiber;
    Val in;
    Ret r;
    uint64_t newCap{0};
    uint64_t oldCap{0};
    std::vector<uint64_t> removed; // by a resize
};

struct QState
{
    std::deque<uint64_t> q;
    uint64_t cap{0};
    std::string key() const
    {
        std::string s;
        for (auto x : q)
        {
            s.append(reinterpret_cast<const char*>(&x), 4);
        }
        s.append(reinterpret_cast<const char*>(&cap), 1);
        return s;
    }
};

/// how the queue behaves when it is full
enum class Model
{
    MPMC, // eviction only from a full queue
    FIFO, // exact bounded queue
    SOFI, // stores first, may hold one element more until the oldest one is evicted
};

void checkHistory(pbt::Case& c, std::vector<Ev>& h, Model m, uint64_t cap, const char* what)
{
    std::vector<lin::Point<QState>> pts;
    const bool resized = [&] {
        for (auto& e : h)
        {
            if (e.kind == Ev::RESIZE)
            {
                return true;
            }
        }
        return false;
    }();
    for (auto& e : h)
    {
        auto pop = [&](uint64_t id, int mode) {
            // mode 0: any time, 1: only from a full queue, 2: only when it holds one too many
            lin::Point<QState> p;
            p.from = e.from;
            p.to = e.to;
            p.apply = [id, mode, resized](QState& s) {
                if (s.q.empty() || s.q.front() != id)
                {
                    return false;
                }
                if (!resized && ((mode == 1 && s.q.size() != s.cap) || (mode == 2 && s.q.size() != s.cap + 1)))
                {
                    return false;
                }
                s.q.pop_front();
                return true;
            };
            return p;
        };
        auto push = [&](uint64_t id) {
            lin::Point<QState> p;
            p.from = e.from;
            p.to = e.to;
            const bool sofi = m == Model::SOFI;
            p.apply = [id, sofi, resized](QState& s) {
                if (!resized && s.q.size() >= s.cap + (sofi ? 1U : 0U))
                {
                    return false;
                }
                s.q.push_back(id);
                return true;
            };
            return p;
        };
        if (e.kind == Ev::PUSH || (e.kind == Ev::TRYPUSH && e.r.stored))
        {
            if (m == Model::SOFI)
            {
                pts.push_back(push(e.in.id));
                if (e.r.out)
                {
                    auto p = pop(e.r.v.id, 2);
                    p.after = static_cast<int>(pts.size()) - 1;
                    pts.push_back(p);
                }
            }
            else
            {
                int before = -1;
                if (e.r.out)
                {
                    pts.push_back(pop(e.r.v.id, 1));
                    before = static_cast<int>(pts.size()) - 1;
                }
                auto p = push(e.in.id);
                p.after = before;
                pts.push_back(p);
            }
        }
        else if (e.kind == Ev::TRYPUSH && m == Model::FIFO)
        {
            lin::Point<QState> p;
            p.from = e.from;
            p.to = e.to;
            p.apply = [](QState& s) { return s.q.size() == s.cap; };
            pts.push_back(p);
        }
        else if (e.kind == Ev::POP && e.r.out)
        {
            pts.push_back(pop(e.r.v.id, 0));
        }
        else if (e.kind == Ev::POP)
        {
            lin::Point<QState> p;
            p.from = e.from;
            p.to = e.to;
            p.apply = [](QState& s) { return s.q.empty(); };
            pts.push_back(p);
        }
        else if (e.kind == Ev::RESIZE)
        {
            int before = -1;
            for (auto id : e.removed)
            {
                auto p = pop(id, 0);
                p.after = before;
                pts.push_back(p);
                before = static_cast<int>(pts.size()) - 1;
            }
        }
    }
    QState s;
    s.cap = cap;
    bool exhausted = false;
    bool ok = lin::check(pts, s, 200000, exhausted);
    if (exhausted)
    {
        c.count("search-cut");
    }
    if (!ok)
    {
        for (auto& e : h)
        {
            c.log("[%llu,%llu] f%d %s in=%llu stored=%d out=%s%llu cap=%llu removed=%zu",
                  (unsigned long long)e.from, (unsigned long long)e.to, e.fiber,
                  e.kind == Ev::PUSH ? "push" : e.kind == Ev::TRYPUSH ? "tryPush" : e.kind == Ev::POP ? "pop" : "resize",
                  (unsigned long long)e.in.id, e.r.stored, e.r.out ? "" : "-", (unsigned long long)e.r.v.id,
                  (unsigned long long)e.newCap, e.removed.size());
        }
        c.fail("not-a-queue", std::string(what)
                                  + ": what the operations returned cannot be explained by any order of them on a queue");
    }
}

struct Caps
{
    bool tryPush{false};
    bool evict{false};
    uint32_t producers{1};
    uint32_t consumers{1};
    bool resize{false};
};

/// Q: tryPush(const Val&)->bool, push(const Val&, Ret&), pop(Ret&), size(), setCapacity(n, handler)
template <typename Q>
void drive(pbt::Case& c, Q& q, const Caps& caps, Model model, uint64_t cap, uint64_t maxCap, const char* what)
{
    sched::Options o;
    o.maxSteps = 6000;
    o.memory = true;
    std::vector<Ev> hist;
    uint64_t next = 1;
    struct Op
    {
        Ev::Kind k;
        uint64_t arg;
        bool rvalue;
    };
    std::vector<std::vector<Op>> plan;
    // fibers: producers, consumers, in the multi case some do both
    uint32_t np = caps.producers == 1 ? 1 : c.range(1, caps.producers);
    uint32_t nc = caps.consumers == 1 ? 1 : c.range(1, caps.consumers);
    for (uint32_t i = 0; i < np + nc; ++i)
    {
        std::vector<Op> ops;
        const bool prod = i < np;
        const bool both = caps.producers > 1 && caps.consumers > 1 && c.chance(1, 4);
        uint32_t n = c.range(1, 6);
        for (uint32_t k = 0; k < n; ++k)
        {
            bool p = prod;
            if (both && c.chance(1, 3))
            {
                p = !p;
            }
            if (p)
            {
                bool t = caps.tryPush && (!caps.evict || c.chance(1, 2));
                ops.push_back({t ? Ev::TRYPUSH : Ev::PUSH, 0, c.chance(1, 2)});
            }
            else
            {
                ops.push_back({Ev::POP, 0, false});
            }
        }
        plan.push_back(ops);
    }
    uint32_t resizers = caps.resize ? c.draw(3) : 0;
    for (uint32_t i = 0; i < resizers; ++i)
    {
        std::vector<Op> ops;
        uint32_t n = c.range(1, 3);
        for (uint32_t k = 0; k < n; ++k)
        {
            ops.push_back({Ev::RESIZE, c.range(1, static_cast<uint32_t>(maxCap)), false});
        }
        plan.push_back(ops);
    }
    // something may be inside already
    uint32_t pre = c.draw(static_cast<uint32_t>(cap) + 2);
    auto exec = [&](int fiber, const Op& op) {
        Ev e;
        e.kind = op.k;
        e.fiber = fiber;
        e.newCap = op.arg;
        if (op.k == Ev::PUSH || op.k == Ev::TRYPUSH)
        {
            e.in = Val(next++);
        }
        std::vector<uint64_t>* rem = &e.removed;
        e.from = sched::clock();
        switch (op.k)
        {
        case Ev::PUSH:
            e.r.stored = true;
            sched::in([&] { q.push(e.in, op.rvalue, e.r); });
            break;
        case Ev::TRYPUSH:
            e.r.stored = sched::in([&] { return q.tryPush(e.in, op.rvalue); });
            break;
        case Ev::POP:
            sched::in([&] { q.pop(e.r); });
            break;
        case Ev::RESIZE:
        {
            std::vector<Val> vals;
            vals.reserve(64);
            e.r.stored = sched::in([&] { return q.setCapacity(op.arg, [&](const Val& v) { vals.push_back(v); }); });
            for (auto& v : vals)
            {
                PBT_CHECK(c, v.ok(), "torn", "%s: a resize handed out a value that was never pushed", what);
                rem->push_back(v.id);
            }
            break;
        }
        }
        e.to = sched::clock();
        if (e.r.out)
        {
            PBT_CHECK(c, e.r.v.ok(), "torn", "%s: an operation returned a value that was never pushed (id %llu)", what,
                      (unsigned long long)e.r.v.id);
        }
        hist.push_back(e);
    };
    for (uint32_t i = 0; i < pre; ++i)
    {
        exec(-1, {caps.evict ? Ev::PUSH : Ev::TRYPUSH, 0, false});
    }
    sched::begin(c, o);
    uint32_t busyResizes = 0;
    for (size_t i = 0; i < plan.size(); ++i)
    {
        sched::spawn([&, i] {
            for (auto& op : plan[i])
            {
                exec(static_cast<int>(i), op);
                if (op.k == Ev::RESIZE && !hist.back().r.stored)
                {
                    ++busyResizes;
                }
            }
        });
    }
    auto end = sched::go();
    sched::end();
    if (end == sched::End::EXHAUSTED)
    {
        c.fail("no-progress", std::string(what) + ": operations did not return although everybody was scheduled fairly");
    }
    PBT_CHECK(c, end == sched::End::FINISHED, "deadlock", "%s: operations block", what);
    // a resize may be refused only while another one is running
    for (auto& e : hist)
    {
        if (e.kind == Ev::RESIZE && !e.r.stored)
        {
            bool overlap = false;
            for (auto& f : hist)
            {
                overlap = overlap || (&f != &e && f.kind == Ev::RESIZE && f.from < e.to && e.from < f.to);
            }
            PBT_CHECK(c, overlap, "resize-refused", "%s: setCapacity refused although no other resize was running", what);
        }
        // a push to a queue that is not full must not be refused: elements plus operations in flight
        if (e.kind == Ev::TRYPUSH && !e.r.stored && !resizers)
        {
            uint64_t may = 0;
            for (auto& f : hist)
            {
                if (&f == &e || f.from > e.to)
                {
                    continue;
                }
                if ((f.kind == Ev::PUSH || f.kind == Ev::TRYPUSH) && f.r.stored)
                {
                    // stored before or during: counts unless somebody removed it completely before
                    bool gone = false;
                    for (auto& g : hist)
                    {
                        gone = gone || (g.r.out && g.r.v.id == f.in.id && g.to < e.from);
                    }
                    may += gone ? 0 : 1;
                }
            }
            PBT_CHECK(c, may >= cap, "refused-not-full", "%s: tryPush refused with at most %llu of %llu places taken", what,
                      (unsigned long long)may, (unsigned long long)cap);
        }
    }
    // drain
    uint64_t finalCap = resizers ? q.capacity() : cap;
    if (resizers)
    {
        // the last completed resize that overlaps no other one decides
        for (auto& e : hist)
        {
            if (e.kind != Ev::RESIZE || !e.r.stored)
            {
                continue;
            }
            bool later = false;
            for (auto& f : hist)
            {
                later = later || (&f != &e && f.kind == Ev::RESIZE && f.r.stored && f.to > e.from);
            }
            if (!later)
            {
                PBT_CHECK(c, finalCap == e.newCap, "capacity", "%s: capacity is %llu after it was set to %llu", what,
                          (unsigned long long)finalCap, (unsigned long long)e.newCap);
            }
        }
    }
    uint64_t sz = q.size();
    uint64_t drained = 0;
    const bool wasEmpty = q.empty();
    for (;;)
    {
        exec(-2, {Ev::POP, 0, false});
        if (!hist.back().r.out)
        {
            break;
        }
        ++drained;
        PBT_CHECK(c, drained <= maxCap + 8, "endless", "%s: draining never ends", what);
    }
    PBT_CHECK(c, sz == drained, "size", "%s: size() said %llu, %llu elements were inside", what, (unsigned long long)sz,
              (unsigned long long)drained);
    PBT_CHECK(c, wasEmpty == (drained == 0), "empty", "%s: empty() said %d with %llu elements inside", what, wasEmpty,
              (unsigned long long)drained);
    PBT_CHECK(c, drained <= finalCap, "over-capacity", "%s: %llu elements in a queue of capacity %llu", what,
              (unsigned long long)drained, (unsigned long long)finalCap);
    // each element leaves exactly once, none is lost
    std::set<uint64_t> in, out;
    for (auto& e : hist)
    {
        if ((e.kind == Ev::PUSH || e.kind == Ev::TRYPUSH) && e.r.stored)
        {
            in.insert(e.in.id);
        }
        if (e.r.out)
        {
            PBT_CHECK(c, out.insert(e.r.v.id).second, "twice", "%s: element %llu left the queue twice", what,
                      (unsigned long long)e.r.v.id);
        }
        for (auto id : e.removed)
        {
            PBT_CHECK(c, out.insert(id).second, "twice", "%s: element %llu left the queue twice", what,
                      (unsigned long long)id);
        }
    }
    PBT_CHECK(c, in == out, "lost", "%s: %zu elements went in, %zu came out", what, in.size(), out.size());
    checkHistory(c, hist, model, cap, what);
    // the full capacity is still usable afterwards
    for (uint64_t i = 0; i < finalCap; ++i)
    {
        Ret r;
        Val v(next++);
        if (caps.evict)
        {
            q.push(v, false, r);
            PBT_CHECK(c, !r.out, "lost-room", "%s: only %llu of %llu places are usable afterwards", what,
                      (unsigned long long)i, (unsigned long long)finalCap);
        }
        else
        {
            PBT_CHECK(c, q.tryPush(v, false), "lost-room", "%s: only %llu of %llu places are usable afterwards", what,
                      (unsigned long long)i, (unsigned long long)finalCap);
        }
    }
    if (caps.tryPush)
    {
        PBT_CHECK(c, !q.tryPush(Val(next++), false), "over-capacity", "%s: a full queue accepts another element", what);
    }
    c.nontrivial(hist.size() >= 5 + drained && in.size() >= 2);
    if (busyResizes)
    {
        c.count("concurrent-resize");
    }
}

template <typename T>
struct MpmcQ
{
    T& q;
    bool tryPush(const Val& v, bool rv)
    {
        Val x = v;
        return rv ? q.tryPush(std::move(x)) : q.tryPush(v);
    }
    void push(const Val& v, bool rv, Ret& r)
    {
        Val x = v;
        auto o = rv ? q.push(std::move(x)) : q.push(v);
        if (o.has_value())
        {
            r.out = true;
            r.v = o.value();
        }
    }
    void pop(Ret& r)
    {
        auto o = q.pop();
        if (o.has_value())
        {
            r.out = true;
            r.v = o.value();
        }
    }
    uint64_t size()
    {
        return q.size();
    }
    bool empty()
    {
        return q.empty();
    }
    uint64_t capacity()
    {
        return q.capacity();
    }
    template <typename F>
    bool setCapacity(uint64_t n, F&& f)
    {
        if constexpr (std::is_same<T, MpmcResizeableLockFreeQueue<Val, 6>>::value)
        {
            return q.setCapacity(n, f);
        }
        return false;
    }
};

template <uint64_t N>
void mpmcN(pbt::Case& c)
{
    static MpmcLockFreeQueue<Val, N>* q = nullptr;
    delete q;
    q = new MpmcLockFreeQueue<Val, N>();
    MpmcQ<MpmcLockFreeQueue<Val, N>> a{*q};
    Caps k;
    k.tryPush = true;
    k.evict = c.chance(2, 3);
    k.producers = 3;
    k.consumers = 3;
    drive(c, a, k, Model::MPMC, N, N, "MpmcLockFreeQueue");
}
void mpmc(pbt::Case& c)
{
    switch (c.draw(4))
    {
    case 0:
        return mpmcN<1>(c);
    case 1:
        return mpmcN<2>(c);
    case 2:
        return mpmcN<3>(c);
    default:
        return mpmcN<5>(c);
    }
}
void resize(pbt::Case& c)
{
    using Q = MpmcResizeableLockFreeQueue<Val, 6>;
    static Q* q = nullptr;
    delete q;
    uint64_t cap = c.range(1, 6);
    q = new Q(cap);
    MpmcQ<Q> a{*q};
    Caps k;
    k.tryPush = true;
    k.evict = c.chance(2, 3);
    k.producers = 2;
    k.consumers = 2;
    k.resize = true;
    drive(c, a, k, Model::MPMC, cap, 6, "MpmcResizeableLockFreeQueue");
}

template <uint64_t N>
struct FifoQ
{
    SpscFifo<Val, N>& q;
    bool tryPush(const Val& v, bool)
    {
        return q.push(v);
    }
    void push(const Val&, bool, Ret&)
    {
    }
    void pop(Ret& r)
    {
        auto o = q.pop();
        if (o.has_value())
        {
            r.out = true;
            r.v = o.value();
        }
    }
    uint64_t size()
    {
        return q.size();
    }
    bool empty()
    {
        return q.empty();
    }
    uint64_t capacity()
    {
        return q.capacity();
    }
    template <typename F>
    bool setCapacity(uint64_t, F&&)
    {
        return false;
    }
};
template <uint64_t N>
void fifoN(pbt::Case& c)
{
    auto q = std::make_unique<SpscFifo<Val, N>>();
    FifoQ<N> a{*q};
    Caps k;
    k.tryPush = true;
    drive(c, a, k, Model::FIFO, N, N, "SpscFifo");
}
void fifo(pbt::Case& c)
{
    switch (c.draw(3))
    {
    case 0:
        return fifoN<1>(c);
    case 1:
        return fifoN<2>(c);
    default:
        return fifoN<4>(c);
    }
}
template <uint64_t N>
struct SofiQ
{
    SpscSofi<Val, N>& q;
    bool tryPush(const Val&, bool)
    {
        return false;
    }
    void push(const Val& v, bool, Ret& r)
    {
        r.out = !q.push(v, r.v);
    }
    void pop(Ret& r)
    {
        r.out = q.pop(r.v);
    }
    uint64_t size()
    {
        return q.size();
    }
    bool empty()
    {
        return q.empty();
    }
    uint64_t capacity()
    {
        return q.capacity();
    }
    template <typename F>
    bool setCapacity(uint64_t, F&&)
    {
        return false;
    }
};
void sofi(pbt::Case& c)
{
    auto q = std::make_unique<SpscSofi<Val, 4>>();
    uint64_t cap = 4;
    if (c.chance(2, 3))
    {
        cap = c.range(1, 4);
        PBT_CHECK(c, q->setCapacity(cap), "capacity", "setCapacity(%llu) refused on an empty queue of maximum 4",
                  (unsigned long long)cap);
    }
    PBT_CHECK(c, q->capacity() == cap, "capacity", "capacity() is %llu instead of %llu", (unsigned long long)q->capacity(),
              (unsigned long long)cap);
    SofiQ<4> a{*q};
    Caps k;
    k.evict = true;
    drive(c, a, k, Model::SOFI, cap, cap, "SpscSofi");
}

struct VarQ
{
    using Q = popo::VariantQueue<Val, 5>;
    Q& q;
    bool overflowing;
    bool tryPush(const Val& v, bool)
    {
        auto o = q.push(v);
        return !o.has_value();
    }
    void push(const Val& v, bool, Ret& r)
    {
        auto o = q.push(v);
        if (o.has_value())
        {
            r.out = true;
            r.v = o.value();
        }
    }
    void pop(Ret& r)
    {
        auto o = q.pop();
        if (o.has_value())
        {
            r.out = true;
            r.v = o.value();
        }
    }
    uint64_t size()
    {
        return q.size();
    }
    bool empty()
    {
        return q.empty();
    }
    uint64_t capacity()
    {
        return q.capacity();
    }
    template <typename F>
    bool setCapacity(uint64_t, F&&)
    {
        return false;
    }
};
void variantQueue(pbt::Case& c)
{
    using T = popo::VariantQueueTypes;
    uint32_t t = c.draw(4);
    auto q = std::make_unique<VarQ::Q>(static_cast<T>(t));
    uint64_t cap = 5;
    if (t != 0 && c.chance(2, 3))
    {
        cap = c.range(1, 5);
        PBT_CHECK(c, q->setCapacity(cap), "capacity", "setCapacity(%llu) refused on an empty queue",
                  (unsigned long long)cap);
    }
    PBT_CHECK(c, q->capacity() == cap, "capacity", "capacity() is %llu instead of %llu", (unsigned long long)q->capacity(),
              (unsigned long long)cap);
    VarQ a{*q, (t & 1) != 0};
    Caps k;
    k.evict = (t & 1) != 0;
    k.tryPush = !k.evict;
    k.producers = t >= 2 ? 3 : 1;
    drive(c, a, k, t == 0 ? Model::FIFO : t == 1 ? Model::SOFI : Model::MPMC, cap, 5, "VariantQueue");
}

// ------------------------------------------------------------------ free list
struct Bag
{
    uint64_t free{0};
    std::string key() const
    {
        return std::string(reinterpret_cast<const char*>(&free), 8);
    }
};
void freeList(pbt::Case& c)
{
    const uint32_t cap = c.range(1, 5);
    std::vector<uint32_t> memory(MpmcLoFFLi::requiredIndexMemorySize(cap) / sizeof(uint32_t) + 1);
    auto l = std::make_unique<MpmcLoFFLi>();
    l->init(memory.data(), cap);
    sched::Options o;
    o.maxSteps = 6000;
    o.memory = true;
    std::vector<int> owner(cap, -1);
    std::vector<lin::Point<Bag>> pts;
    std::vector<std::string> lines;
    uint32_t nf = c.range(2, 4);
    std::vector<std::vector<uint32_t>> mine(nf + 1);
    uint32_t moves = 0;
    auto pop = [&](int f) {
        uint32_t idx = 12345;
        lin::Point<Bag> p;
        p.from = sched::clock();
        bool ok = sched::in([&] { return l->pop(idx); });
        p.to = sched::clock();
        if (ok)
        {
            PBT_CHECK(c, idx < cap, "invalid-index", "the free list handed out index %u of %u", idx, cap);
            PBT_CHECK(c, owner[idx] == -1, "handed-out-twice", "index %u was handed out to %d while %d owns it", idx, f,
                      owner[idx]);
            owner[idx] = f;
            mine[static_cast<size_t>(f)].push_back(idx);
            p.apply = [idx](Bag& b) {
                if (!(b.free >> idx & 1))
                {
                    return false;
                }
                b.free &= ~(1ULL << idx);
                return true;
            };
            ++moves;
        }
        else
        {
            p.apply = [](Bag& b) { return b.free == 0; };
        }
        lines.push_back("f" + std::to_string(f) + " pop " + (ok ? std::to_string(idx) : "-") + " ["
                        + std::to_string(p.from) + "," + std::to_string(p.to) + "]");
        pts.push_back(p);
        return ok;
    };
    auto push = [&](int f, uint32_t which) {
        auto& m = mine[static_cast<size_t>(f)];
        uint32_t idx = m[which % m.size()];
        m.erase(m.begin() + which % static_cast<long>(m.size()));
        owner[idx] = -1;
        lin::Point<Bag> p;
        p.from = sched::clock();
        bool ok = sched::in([&] { return l->push(idx); });
        p.to = sched::clock();
        p.apply = [idx](Bag& b) {
            b.free |= 1ULL << idx;
            return true;
        };
        lines.push_back("f" + std::to_string(f) + " push " + std::to_string(idx) + " [" + std::to_string(p.from) + ","
                        + std::to_string(p.to) + "]");
        pts.push_back(p);
        PBT_CHECK(c, ok, "push-refused", "index %u was handed out and cannot be returned", idx);
        ++moves;
    };
    sched::begin(c, o);
    for (uint32_t f = 0; f < nf; ++f)
    {
        uint32_t n = c.range(1, 6);
        std::vector<uint32_t> ops;
        for (uint32_t i = 0; i < n; ++i)
        {
            ops.push_back(c.draw(12));
        }
        sched::spawn([&, f, ops] {
            for (auto k : ops)
            {
                if (k % 2 == 0 || mine[f].empty())
                {
                    pop(static_cast<int>(f));
                }
                else
                {
                    push(static_cast<int>(f), k / 2);
                }
                if (k == 11)
                {
                    bool bad = sched::in([&] { return l->push(cap + k); });
                    PBT_CHECK(c, !bad, "invalid-accepted", "an index outside of the list was accepted");
                }
            }
        });
    }
    auto end = sched::go();
    sched::end();
    PBT_CHECK(c, end == sched::End::FINISHED, "no-progress", "operations of the free list do not return");
    // everything that is not owned can be popped, and nothing else
    uint32_t owned = 0;
    for (auto x : owner)
    {
        owned += x != -1;
    }
    uint32_t got = 0;
    while (pop(static_cast<int>(nf)))
    {
        ++got;
        PBT_CHECK(c, got <= cap, "endless", "the free list never becomes empty");
    }
    PBT_CHECK(c, got + owned == cap, "lost-index", "%u of %u indices are owned, but only %u others are available", owned, cap,
              got);
    // all back, once
    for (uint32_t i = 0; i < cap; ++i)
    {
        PBT_CHECK(c, l->push(i), "push-refused", "index %u was handed out and cannot be returned", i);
        PBT_CHECK(c, !l->push(i), "double-push", "index %u was returned twice", i);
    }
    Bag b;
    b.free = (1ULL << cap) - 1;
    bool cut = false;
    if (!lin::check(pts, b, 200000, cut))
    {
        for (auto& s : lines)
        {
            c.log("%s", s.c_str());
        }
        c.fail("not-a-list", "what pop and push returned cannot be explained by any order of them");
    }
    c.nontrivial(moves >= 4);
}

// ------------------------------------------------------------------ memory pool and reference counts
void memPool(pbt::Case& c)
{
    const uint32_t cap = c.range(1, 4);
    const uint64_t size = 8 * c.range(1, 4);
    std::vector<uint8_t> mgmt(1 << 14), data(1 << 14);
    BumpAllocator ma(mgmt.data(), mgmt.size()), da(data.data(), data.size());
    auto pool = std::make_unique<mepoo::MemPool>(
        iox::greater_or_equal<uint64_t, 8>(size), iox::greater_or_equal<uint32_t, 1>(cap), ma, da);
    sched::Options o;
    o.maxSteps = 6000;
    o.memory = true;
    uint32_t nf = c.range(2, 4);
    std::vector<std::vector<void*>> mine(nf);
    std::map<void*, int> owner;
    uint32_t moves = 0, maxMaybe = 0, maybe = 0;
    sched::begin(c, o);
    for (uint32_t f = 0; f < nf; ++f)
    {
        std::vector<uint32_t> ops;
        uint32_t n = c.range(1, 7);
        for (uint32_t i = 0; i < n; ++i)
        {
            ops.push_back(c.draw(8));
        }
        sched::spawn([&, f, ops] {
            for (auto k : ops)
            {
                if (k % 2 == 0 || mine[f].empty())
                {
                    ++maybe;
                    maxMaybe = std::max(maxMaybe, maybe);
                    void* p = sched::in([&] { return pool->getChunk(); });
                    if (p == nullptr)
                    {
                        --maybe;
                        continue;
                    }
                    auto off = static_cast<uint8_t*>(p) - data.data();
                    PBT_CHECK(c, off >= 0 && off % static_cast<long>(size) == 0 && off / size < cap, "invalid-chunk",
                              "the pool handed out a chunk at offset %ld", static_cast<long>(off));
                    PBT_CHECK(c, owner.count(p) == 0, "handed-out-twice", "a chunk was handed out while it is in use");
                    owner[p] = static_cast<int>(f);
                    memset(p, static_cast<int>(f + 1), size);
                    mine[f].push_back(p);
                    ++moves;
                }
                else
                {
                    void* p = mine[f][k / 2 % mine[f].size()];
                    for (uint64_t i = 0; i < size; ++i)
                    {
                        PBT_CHECK(c, static_cast<uint8_t*>(p)[i] == f + 1, "overwritten", "a chunk in use was changed");
                    }
                    mine[f].erase(std::find(mine[f].begin(), mine[f].end(), p));
                    owner.erase(p);
                    sched::in([&] { pool->freeChunk(p); });
                    --maybe;
                    ++moves;
                }
            }
        });
    }
    auto end = sched::go();
    sched::end();
    PBT_CHECK(c, end == sched::End::FINISHED, "no-progress", "operations of the pool do not return");
    PBT_CHECK(c, pool->getUsedChunks() == owner.size(), "used-count", "%u chunks are reported as used, %zu are",
              pool->getUsedChunks(), owner.size());
    auto info = pool->getInfo();
    PBT_CHECK(c, info.m_usedChunks == owner.size() && info.m_numChunks == cap && info.m_chunkSize == size, "info",
              "the pool's info does not match");
    uint32_t lowest = maxMaybe >= cap ? 0 : cap - maxMaybe;
    PBT_CHECK(c, info.m_minFreeChunks >= lowest, "min-free",
              "minimum of free chunks %u although never more than %u of %u were in use", info.m_minFreeChunks, maxMaybe, cap);
    uint32_t got = 0;
    while (pool->getChunk() != nullptr)
    {
        ++got;
        PBT_CHECK(c, got <= cap, "endless", "the pool never becomes empty");
    }
    PBT_CHECK(c, got + owner.size() == cap, "lost-chunk", "%zu of %u chunks are in use, but only %u are available",
              owner.size(), cap, got);
    c.nontrivial(moves >= 4);
}

void refCount(pbt::Case& c)
{
    using namespace mepoo;
    const uint32_t cap = c.range(1, 3);
    std::vector<uint8_t> mgmt(1 << 14), data(1 << 14);
    BumpAllocator ma(mgmt.data(), mgmt.size()), da(data.data(), data.size());
    auto pool = std::make_unique<MemPool>(
        iox::greater_or_equal<uint64_t, 8>(128), iox::greater_or_equal<uint32_t, 1>(cap), ma, da);
    auto mpool = std::make_unique<MemPool>(
        iox::greater_or_equal<uint64_t, 8>(sizeof(ChunkManagement) + 8), iox::greater_or_equal<uint32_t, 1>(cap), ma, da);
    auto settings = ChunkSettings::create(16, 8);
    std::vector<SharedChunk> roots;
    for (uint32_t i = 0; i < cap; ++i)
    {
        auto* h = new (pool->getChunk()) ChunkHeader(pool->getChunkSize(), settings.value());
        auto* m = new (mpool->getChunk()) ChunkManagement(h, pool.get(), mpool.get());
        roots.emplace_back(m);
    }
    sched::Options o;
    o.maxSteps = 6000;
    o.memory = true;
    uint32_t nf = c.range(2, 4);
    std::vector<std::vector<SharedChunk>> mine(nf);
    std::vector<uint32_t> live(cap, 0);
    std::vector<void*> payload(cap);
    for (uint32_t i = 0; i < cap; ++i)
    {
        payload[i] = roots[i].getUserPayload();
    }
    auto indexOf = [&](SharedChunk& s) {
        return static_cast<uint32_t>(std::find(payload.begin(), payload.end(), s.getUserPayload()) - payload.begin());
    };
    for (uint32_t f = 0; f < nf; ++f)
    {
        mine[f].reserve(64);
        for (uint32_t i = 0; i < cap; ++i)
        {
            if (c.chance(2, 3))
            {
                mine[f].push_back(roots[i]);
                ++live[i];
            }
        }
    }
    for (uint32_t i = 0; i < cap; ++i)
    {
        if (live[i] == 0)
        {
            mine[0].push_back(roots[i]);
            ++live[i];
        }
    }
    roots.clear();
    uint32_t ops = 0;
    sched::begin(c, o);
    for (uint32_t f = 0; f < nf; ++f)
    {
        std::vector<uint32_t> plan;
        uint32_t n = c.range(1, 8);
        for (uint32_t i = 0; i < n; ++i)
        {
            plan.push_back(c.draw(30));
        }
        sched::spawn([&, f, plan] {
            for (auto k : plan)
            {
                if (mine[f].empty())
                {
                    return;
                }
                uint32_t w = k / 5 % static_cast<uint32_t>(mine[f].size());
                ++ops;
                switch (k % 5)
                {
                case 0: // copy
                    ++live[indexOf(mine[f][w])];
                    sched::in([&] { mine[f].push_back(mine[f][w]); });
                    break;
                case 1: // release
                {
                    uint32_t i = indexOf(mine[f][w]);
                    --live[i];
                    SharedChunk s = std::move(mine[f][w]);
                    mine[f].erase(mine[f].begin() + w);
                    sched::in([&] { s = SharedChunk(); });
                    break;
                }
                case 2: // copy assignment over another one
                {
                    uint32_t v = (w + 1) % static_cast<uint32_t>(mine[f].size());
                    ++live[indexOf(mine[f][w])];
                    --live[indexOf(mine[f][v])];
                    sched::in([&] { mine[f][v] = mine[f][w]; });
                    break;
                }
                case 3: // move assignment over another one
                {
                    uint32_t v = (w + 1) % static_cast<uint32_t>(mine[f].size());
                    if (v == w)
                    {
                        break;
                    }
                    --live[indexOf(mine[f][v])];
                    sched::in([&] { mine[f][v] = std::move(mine[f][w]); });
                    PBT_CHECK(c, !mine[f][w], "moved-from", "a moved-from handle still refers to a chunk");
                    mine[f].erase(mine[f].begin() + w);
                    break;
                }
                default: // it is still there
                    PBT_CHECK(c, static_cast<bool>(mine[f][w]), "gone", "a referenced chunk is gone");
                }
            }
        });
    }
    auto end = sched::go();
    sched::end();
    PBT_CHECK(c, end == sched::End::FINISHED, "no-progress", "operations of chunk handles do not return");
    uint32_t alive = 0;
    for (auto n : live)
    {
        alive += n > 0;
    }
    PBT_CHECK(c, pool->getUsedChunks() == alive && mpool->getUsedChunks() == alive, "used-count",
              "%u chunks are referenced, %u are in use, %u management blocks are in use", alive, pool->getUsedChunks(),
              mpool->getUsedChunks());
    mine.clear();
    PBT_CHECK(c, pool->getUsedChunks() == 0 && mpool->getUsedChunks() == 0, "leak",
              "no chunk is referenced any more, %u are in use", pool->getUsedChunks());
    c.nontrivial(ops >= 4);
}
} // namespace

int main(int argc, char** argv)
{
    iox::log::Logger::init(iox::log::LogLevel::Off);
    return pbt::runAll(argc, argv,
                       {
                           {"mpmc", mpmc, 2},
                           {"resize", resize, 2},
                           {"fifo", fifo, 1},
                           {"sofi", sofi, 2},
                           {"variant_queue", variantQueue, 1},
                           {"free_list", freeList, 2},
                           {"mempool", memPool, 1},
                           {"refcount", refCount, 1},
                       });
}
