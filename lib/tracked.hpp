// An element type that knows which objects are alive, and helpers to observe a termination.
#pragma once
#include "pbt.hpp"

#include <cstdint>
#include <new>
#include <set>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

namespace tr
{
struct World
{
    std::unordered_map<const void*, uint64_t> alive;
    std::vector<uint64_t> destroyed; // values, in order of destruction
    std::string error;
    uint64_t constructed{0};
    void bad(const char* what)
    {
        if (error.empty())
        {
            error = what;
        }
    }
};
inline World& world()
{
    static World w;
    return w;
}
inline void reset()
{
    world() = World{};
}

constexpr uint64_t MOVED = ~0ULL;

/// non-trivial; ALIGN > 8 checks the placement as well; owns heap memory so that the address sanitizer helps
template <uint32_t ALIGN = 8, bool DEFAULT = true>
struct alignas(ALIGN) Obj
{
    Obj() noexcept
        : Obj(0)
    {
    }
    Obj(uint64_t v) noexcept // NOLINT
        : m_v(new uint64_t(v))
    {
        born();
    }
    Obj(uint64_t a, uint64_t b) noexcept
        : Obj(a * 1000 + b)
    {
    }
    Obj(const Obj& o) noexcept
        : m_v(new uint64_t(o.get()))
    {
        born();
    }
    Obj(Obj&& o) noexcept
        : m_v(new uint64_t(o.get()))
    {
        o.gone();
        born();
    }
    Obj& operator=(const Obj& o) noexcept
    {
        must("assignment to an object that does not exist");
        if (world().alive.count(this) != 0)
        {
            *m_v = o.get();
        }
        return *this;
    }
    Obj& operator=(Obj&& o) noexcept
    {
        must("assignment to an object that does not exist");
        if (world().alive.count(this) != 0)
        {
            uint64_t v = o.get();
            if (&o != this)
            {
                o.gone();
            }
            *m_v = v;
        }
        return *this;
    }
    ~Obj() noexcept
    {
        auto it = world().alive.find(this);
        if (it == world().alive.end())
        {
            world().bad("destruction of an object that does not exist");
            return;
        }
        world().destroyed.push_back(*m_v);
        delete m_v;
        m_v = nullptr;
        world().alive.erase(it);
    }
    uint64_t get() const noexcept
    {
        if (world().alive.count(this) == 0)
        {
            world().bad("access to an object that does not exist");
            return MOVED - 1;
        }
        return *m_v;
    }
    bool operator==(const Obj& o) const noexcept
    {
        return get() == o.get();
    }
    bool operator!=(const Obj& o) const noexcept
    {
        return get() != o.get();
    }

  private:
    void born() noexcept
    {
        if (reinterpret_cast<uintptr_t>(this) % ALIGN != 0)
        {
            world().bad("misaligned object");
        }
        if (!world().alive.emplace(this, 0).second)
        {
            world().bad("construction on top of a living object");
        }
        ++world().constructed;
    }
    void gone() noexcept
    {
        if (world().alive.count(this) != 0)
        {
            *m_v = MOVED;
        }
    }
    void must(const char* what) noexcept
    {
        if (world().alive.count(this) == 0)
        {
            world().bad(what);
        }
    }
    uint64_t* m_v;
};

inline uint64_t val(uint64_t v)
{
    return v;
}
template <uint32_t A, bool D>
uint64_t val(const Obj<A, D>& o)
{
    return o.get();
}
template <typename T>
struct IsObj : std::false_type
{
};
template <uint32_t A, bool D>
struct IsObj<Obj<A, D>> : std::true_type
{
};

inline void verify(pbt::Case& c, const char* after)
{
    if (!world().error.empty())
    {
        c.fail("object-lifetime", world().error + " (" + after + ")");
    }
}

/// runs f in a child process; true if the child was ended by a signal
template <typename F>
bool dies(F f)
{
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        dup2(null, 2);
        signal(SIGABRT, SIG_DFL);
        signal(SIGSEGV, SIG_DFL);
        struct rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        std::set_terminate([] { _exit(99); });
        f();
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
} // namespace tr
