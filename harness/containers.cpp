// Fixed-capacity containers against their standard counterparts, with exact object lifetimes (S16).
#include "iox/fixed_position_container.hpp"
#include "iox/forward_list.hpp"
#include "iox/list.hpp"
#include "iox/logging.hpp"
#include "iox/stack.hpp"
#include "iox/vector.hpp"
#include "tracked.hpp"

#include <algorithm>
#include <array>
#include <list>
#include <map>
#include <memory>

using pbt::Case;
using tr::val;
using M = std::vector<uint64_t>;

namespace
{
struct alignas(32) Wide
{
    uint64_t v;
    uint64_t pad[5];
    Wide() = default;
    Wide(uint64_t x) // NOLINT
        : v(x)
        , pad{x, x + 1, x + 2, x + 3, x + 4}
    {
    }
    bool operator==(const Wide& o) const
    {
        return v == o.v;
    }
    bool operator!=(const Wide& o) const
    {
        return v != o.v;
    }
};
uint64_t val(const Wide& w)
{
    for (uint64_t i = 0; i < 5; ++i)
    {
        if (w.pad[i] != w.v + i)
        {
            return tr::MOVED - 7;
        }
    }
    return w.v;
}
std::string str(const M& m)
{
    std::string s;
    for (auto x : m)
    {
        s += std::to_string(x) + " ";
    }
    return s;
}
uint64_t fresh(Case& c)
{
    return c.draw(12) + 1; // small values so that remove() finds some
}
template <typename T>
bool isObj()
{
    return tr::IsObj<T>::value;
}
template <typename T>
void aliveExactly(Case& c, uint64_t n, const char* after)
{
    tr::verify(c, after);
    if (isObj<T>())
    {
        PBT_CHECK(c, tr::world().alive.size() == n, "object-count", "%zu objects alive, %" PRIu64 " expected after %s", tr::world().alive.size(), n, after);
    }
}

// ------------------------------------------------------------------ vector
template <typename T, uint64_t N>
void vecCase(Case& c)
{
    tr::reset();
    using V = iox::vector<T, N>;
    std::array<std::unique_ptr<V>, 2> v;
    std::array<M, 2> m;
    for (int i = 0; i < 2; ++i)
    {
        switch (c.draw(3))
        {
        case 0:
            v[i] = std::make_unique<V>();
            break;
        case 1:
        {
            uint64_t n = c.draw(N + 3);
            uint64_t x = fresh(c);
            {
                T t{x};
                v[i] = std::make_unique<V>(n, t);
            }
            m[i].assign(std::min<uint64_t>(n, N), x);
            break;
        }
        default:
        {
            if (!isObj<T>())
            {
                v[i] = std::make_unique<V>();
                break;
            }
            uint64_t n = c.draw(N + 3);
            v[i] = std::make_unique<V>(n);
            m[i].assign(std::min<uint64_t>(n, N), 0);
            break;
        }
        }
    }
    uint64_t changes = 0;
    auto check = [&](const char* after) {
        for (int i = 0; i < 2; ++i)
        {
            auto& x = *v[i];
            const auto& cx = *v[i];
            PBT_CHECK(c, x.size() == m[i].size() && x.empty() == m[i].empty() && x.capacity() == N, "size", "%s: size %" PRIu64 ", expected %zu", after, x.size(), m[i].size());
            PBT_CHECK(c, static_cast<uint64_t>(x.end() - x.begin()) == x.size() && cx.end() - cx.begin() == x.end() - x.begin(), "iterators", "%s", after);
            uint64_t k = 0;
            for (auto& e : cx)
            {
                PBT_CHECK(c, val(e) == m[i][k], "content", "%s: element %" PRIu64 " is %" PRIu64 ", expected %s", after, k, val(e), str(m[i]).c_str());
                PBT_CHECK(c, &x[k] == &e && &x.at(k) == &e && &cx.at(k) == &e && x.data() + k == &e && x.begin() + k == &e, "addresses", "%s", after);
                PBT_CHECK(c, reinterpret_cast<uintptr_t>(&e) % alignof(T) == 0, "alignment", "%s", after);
                ++k;
            }
            if (k > 0)
            {
                PBT_CHECK(c, &x.front() == x.data() && &x.back() == x.data() + k - 1 && &cx.front() == x.data() && &cx.back() == x.data() + k - 1, "front-back", "%s", after);
            }
        }
        PBT_CHECK(c, (*v[0] == *v[1]) == (m[0] == m[1]) && (*v[0] != *v[1]) == (m[0] != m[1]), "comparison", "%s: {%s} and {%s}", after, str(m[0]).c_str(), str(m[1]).c_str());
        aliveExactly<T>(c, m[0].size() + m[1].size(), after);
    };
    check("construction");
    auto reverseOrder = [&](size_t from, const M& gone, const char* what) {
        if (!isObj<T>())
        {
            return;
        }
        auto& d = tr::world().destroyed;
        M x(d.begin() + static_cast<long>(from), d.end());
        M e(gone.rbegin(), gone.rend());
        PBT_CHECK(c, x == e, "destruction-order", "%s destroyed %s, expected %s", what, str(x).c_str(), str(e).c_str());
    };
    const uint32_t ops = c.range(1, 40);
    for (uint32_t k = 0; k < ops; ++k)
    {
        int i = static_cast<int>(c.draw(2));
        auto& x = *v[i];
        auto& y = m[i];
        const char* name = "";
        switch (c.weighted({6, 6, 3, 4, 4, 3, 3, 2, 3, 3, 1, 1}))
        {
        case 0:
        {
            uint64_t e = fresh(c);
            bool ok = c.chance(1, 2) ? x.emplace_back(e) : x.push_back(T{e});
            name = "push_back";
            PBT_CHECK(c, ok == (y.size() < N), "push_back", "returned %d with %zu of %" PRIu64, ok, y.size(), N);
            if (ok)
            {
                y.push_back(e);
            }
            break;
        }
        case 1:
        {
            uint64_t pos = c.draw(N + 2);
            uint64_t e = fresh(c);
            bool ok = x.emplace(pos, e);
            name = "emplace";
            PBT_CHECK(c, ok == (y.size() < N && pos <= y.size()), "emplace", "emplace(%" PRIu64 ") returned %d with %zu of %" PRIu64, pos, ok, y.size(), N);
            if (ok)
            {
                y.insert(y.begin() + static_cast<long>(pos), e);
            }
            break;
        }
        case 2:
        {
            T t{fresh(c)};
            uint64_t e = val(t);
            bool ok = x.push_back(t);
            name = "push_back(const&)";
            PBT_CHECK(c, ok == (y.size() < N) && val(t) == e, "push_back", "returned %d", ok);
            if (ok)
            {
                y.push_back(e);
            }
            break;
        }
        case 3:
        {
            bool ok = x.pop_back();
            name = "pop_back";
            PBT_CHECK(c, ok == !y.empty(), "pop_back", "returned %d", ok);
            if (ok)
            {
                y.pop_back();
            }
            break;
        }
        case 4:
        {
            uint64_t pos = c.draw(static_cast<uint32_t>(y.size() + 1));
            bool ok = x.erase(x.begin() + pos);
            name = "erase";
            PBT_CHECK(c, ok == (pos < y.size()), "erase", "erase(%" PRIu64 ") returned %d", pos, ok);
            if (ok)
            {
                y.erase(y.begin() + static_cast<long>(pos));
            }
            break;
        }
        case 5:
        {
            uint64_t n = c.draw(N + 3);
            uint64_t e = fresh(c);
            size_t from = tr::world().destroyed.size();
            M gone;
            bool ok;
            {
                ok = x.resize(n, e);
            }
            name = "resize";
            PBT_CHECK(c, ok == (n <= N), "resize", "resize(%" PRIu64 ") returned %d", n, ok);
            if (ok)
            {
                if (n < y.size())
                {
                    gone.assign(y.begin() + static_cast<long>(n), y.end());
                    reverseOrder(from, gone, "resize");
                }
                y.resize(n, e);
            }
            break;
        }
        case 6:
            name = "copy assignment";
            *v[i] = *v[1 - i];
            y = m[1 - i];
            break;
        case 7:
            name = "move assignment";
            *v[i] = std::move(*v[1 - i]);
            y = m[1 - i];
            m[1 - i].clear();
            break;
        case 8:
            name = "copy construction";
            {
                auto z = std::make_unique<V>(*v[1 - i]);
                v[i] = std::move(z);
                y = m[1 - i];
            }
            break;
        case 9:
            name = "move construction";
            {
                auto z = std::make_unique<V>(std::move(*v[1 - i]));
                v[i] = std::move(z);
                y = m[1 - i];
                m[1 - i].clear();
            }
            break;
        case 10:
        {
            name = "clear";
            size_t from = tr::world().destroyed.size();
            x.clear();
            reverseOrder(from, y, "clear");
            y.clear();
            break;
        }
        default:
        {
            name = "self assignment";
            auto& alias = *v[i];
            if (c.chance(1, 2))
            {
                x = alias;
            }
            else
            {
                x = std::move(alias);
            }
            break;
        }
        }
        ++changes;
        c.log("%d %s -> %s", i, name, str(y).c_str());
        check(name);
    }
    if (c.chance(1, 400))
    {
        auto& x = *v[0];
        uint64_t n = m[0].size();
        uint64_t idx = n + c.draw(3);
        PBT_CHECK(c, tr::dies([&] { (void)val(x.at(idx)); }), "out-of-bounds", "at(%" PRIu64 ") with %" PRIu64 " elements did not terminate", idx, n);
        PBT_CHECK(c, tr::dies([&] { (void)val(x[idx]); }), "out-of-bounds", "operator[]");
        if (n == 0)
        {
            PBT_CHECK(c, tr::dies([&] { (void)val(x.front()); }) && tr::dies([&] { (void)val(x.back()); }), "out-of-bounds", "front/back of an empty vector");
        }
    }
    size_t from = tr::world().destroyed.size();
    v[1].reset();
    reverseOrder(from, m[1], "destructor");
    v[0].reset();
    aliveExactly<T>(c, 0, "destruction");
    c.count("operations", changes);
    c.nontrivial(changes >= 5);
}

// ------------------------------------------------------------------ list and forward_list
template <typename L, typename T, uint64_t N, bool FWD>
void listCase(Case& c)
{
    tr::reset();
    std::array<std::unique_ptr<L>, 2> l{std::make_unique<L>(), std::make_unique<L>()};
    std::array<M, 2> m;
    uint64_t changes = 0;
    auto nth = [&](int i, uint64_t pos) {
        auto it = l[i]->begin();
        for (uint64_t k = 0; k < pos; ++k)
        {
            ++it;
        }
        return it;
    };
    auto before = [&](int i, uint64_t pos) {
        if constexpr (FWD)
        {
            auto it = l[i]->before_begin();
            for (uint64_t k = 0; k < pos; ++k)
            {
                ++it;
            }
            return it;
        }
        else
        {
            return nth(i, pos);
        }
    };
    auto check = [&](const char* after) {
        for (int i = 0; i < 2; ++i)
        {
            auto& x = *l[i];
            const auto& cx = *l[i];
            PBT_CHECK(c, x.size() == m[i].size() && x.empty() == m[i].empty() && x.full() == (m[i].size() == N) && x.capacity() == N && x.max_size() == N, "size", "%s: size %" PRIu64 ", expected %zu", after, static_cast<uint64_t>(x.size()), m[i].size());
            M got;
            for (auto& e : x)
            {
                got.push_back(val(e));
                PBT_CHECK(c, got.size() <= N, "cycle", "%s: more elements than the capacity", after);
            }
            PBT_CHECK(c, got == m[i], "content", "%s: {%s}, expected {%s}", after, str(got).c_str(), str(m[i]).c_str());
            got.clear();
            for (auto it = cx.cbegin(); it != cx.cend(); ++it)
            {
                got.push_back(val(*it));
            }
            PBT_CHECK(c, got == m[i], "content", "%s (const): {%s}, expected {%s}", after, str(got).c_str(), str(m[i]).c_str());
            if (!m[i].empty())
            {
                PBT_CHECK(c, val(x.front()) == m[i].front() && val(cx.front()) == m[i].front(), "front", "%s", after);
                if constexpr (!FWD)
                {
                    PBT_CHECK(c, val(x.back()) == m[i].back() && val(cx.back()) == m[i].back(), "back", "%s", after);
                    got.clear();
                    auto it = x.end();
                    for (uint64_t k = 0; k < m[i].size(); ++k)
                    {
                        --it;
                        got.insert(got.begin(), val(*it));
                    }
                    PBT_CHECK(c, got == m[i] && it == x.begin(), "backwards", "%s: {%s}, expected {%s}", after, str(got).c_str(), str(m[i]).c_str());
                }
            }
            else
            {
                PBT_CHECK(c, x.begin() == x.end(), "empty", "%s", after);
            }
        }
        aliveExactly<T>(c, m[0].size() + m[1].size(), after);
    };
    check("construction");
    const uint32_t ops = c.range(1, 40);
    for (uint32_t k = 0; k < ops; ++k)
    {
        int i = static_cast<int>(c.draw(2));
        auto& x = *l[i];
        auto& y = m[i];
        const char* name = "";
        const bool room = y.size() < N;
        switch (c.weighted({5, 7, 3, 5, 2, 2, 2, 2, 2, 2, 1, 1}))
        {
        case 0:
        {
            uint64_t e = fresh(c);
            bool atBack = !FWD && c.chance(1, 2);
            bool ok = false;
            uint32_t how = c.draw(3);
            name = "push";
            if (how == 0)
            {
                T t{e};
                if constexpr (!FWD)
                {
                    ok = atBack ? x.push_back(t) : x.push_front(t);
                }
                else
                {
                    ok = x.push_front(t);
                }
                PBT_CHECK(c, val(t) == e, "push", "source changed");
            }
            else if (how == 1 || !room)
            {
                if constexpr (!FWD)
                {
                    ok = atBack ? x.push_back(T{e}) : x.push_front(T{e});
                }
                else
                {
                    ok = x.push_front(T{e});
                }
            }
            else
            {
                ok = true;
                if constexpr (!FWD)
                {
                    auto& r = atBack ? x.emplace_back(e) : x.emplace_front(e);
                    PBT_CHECK(c, val(r) == e, "emplace", "returned %" PRIu64, val(r));
                }
                else
                {
                    auto& r = x.emplace_front(e);
                    PBT_CHECK(c, val(r) == e, "emplace", "returned %" PRIu64, val(r));
                }
            }
            PBT_CHECK(c, ok == room, "push", "returned %d with %zu of %" PRIu64, ok, y.size(), N);
            if (ok)
            {
                y.insert(atBack ? y.end() : y.begin(), e);
            }
            break;
        }
        case 1:
        {
            uint64_t e = fresh(c);
            uint64_t pos = c.draw(static_cast<uint32_t>(y.size() + 1));
            name = "insert";
            auto at = before(i, pos);
            auto how = c.draw(3);
            T t{e};
            auto it = [&] {
                if constexpr (FWD)
                {
                    return how == 0 ? x.emplace_after(at, e) : how == 1 ? x.insert_after(at, t) : x.insert_after(at, T{e});
                }
                else
                {
                    return how == 0 ? x.emplace(at, e) : how == 1 ? x.insert(at, t) : x.insert(at, T{e});
                }
            }();
            if (room)
            {
                PBT_CHECK(c, it != x.end() && val(*it) == e, "insert", "does not return the new element");
                y.insert(y.begin() + static_cast<long>(pos), e);
                auto same = nth(i, pos);
                PBT_CHECK(c, same == it, "insert", "the returned iterator is not at position %" PRIu64, pos);
            }
            else
            {
                PBT_CHECK(c, it == x.end(), "insert", "inserted into a full list");
            }
            break;
        }
        case 2:
        {
            name = "pop";
            bool atBack = !FWD && c.chance(1, 2);
            bool ok = false;
            if constexpr (!FWD)
            {
                ok = atBack ? x.pop_back() : x.pop_front();
            }
            else
            {
                ok = x.pop_front();
            }
            PBT_CHECK(c, ok == !y.empty(), "pop", "returned %d", ok);
            if (ok)
            {
                y.erase(atBack ? y.end() - 1 : y.begin());
            }
            break;
        }
        case 3:
        {
            name = "erase";
            if (y.empty())
            {
                break;
            }
            uint64_t pos = c.draw(static_cast<uint32_t>(y.size()));
            auto at = before(i, pos);
            auto it = [&] {
                if constexpr (FWD)
                {
                    return x.erase_after(at);
                }
                else
                {
                    return x.erase(at);
                }
            }();
            y.erase(y.begin() + static_cast<long>(pos));
            PBT_CHECK(c, it == nth(i, pos), "erase", "the returned iterator is not at position %" PRIu64, pos);
            break;
        }
        case 4:
        {
            name = "remove";
            uint64_t e = fresh(c);
            T t{e};
            uint64_t n = x.remove(t);
            uint64_t expect = static_cast<uint64_t>(std::count(y.begin(), y.end(), e));
            PBT_CHECK(c, n == expect, "remove", "removed %" PRIu64 " of %" PRIu64, n, expect);
            y.erase(std::remove(y.begin(), y.end(), e), y.end());
            break;
        }
        case 5:
        {
            name = "remove_if";
            uint64_t mod = c.range(1, 4);
            M seen;
            uint64_t n = x.remove_if([&](T& t) {
                seen.push_back(val(t));
                return val(t) % mod == 0;
            });
            PBT_CHECK(c, seen == y, "remove_if", "predicate called for {%s}, content {%s}", str(seen).c_str(), str(y).c_str());
            uint64_t b = y.size();
            y.erase(std::remove_if(y.begin(), y.end(), [&](uint64_t e) { return e % mod == 0; }), y.end());
            PBT_CHECK(c, n == b - y.size(), "remove_if", "removed %" PRIu64, n);
            break;
        }
        case 6:
            name = "copy assignment";
            *l[i] = *l[1 - i];
            y = m[1 - i];
            break;
        case 7:
            name = "move assignment";
            *l[i] = std::move(*l[1 - i]);
            y = m[1 - i];
            m[1 - i].clear();
            break;
        case 8:
        {
            name = "copy construction";
            auto z = std::make_unique<L>(*l[1 - i]);
            l[i] = std::move(z);
            y = m[1 - i];
            break;
        }
        case 9:
        {
            name = "move construction";
            auto z = std::make_unique<L>(std::move(*l[1 - i]));
            l[i] = std::move(z);
            y = m[1 - i];
            m[1 - i].clear();
            break;
        }
        case 10:
            name = "clear";
            x.clear();
            y.clear();
            break;
        default:
        {
            name = "self assignment";
            auto& alias = x;
            if (c.chance(1, 2))
            {
                x = alias;
            }
            else
            {
                x = std::move(alias);
            }
            break;
        }
        }
        ++changes;
        c.log("%d %s -> %s", i, name, str(y).c_str());
        check(name);
    }
    if (c.chance(1, 400))
    {
        PBT_CHECK(c, tr::dies([&] { (void)val(*l[0]->end()); }), "out-of-bounds", "dereferencing end() did not terminate");
        if (m[0].empty())
        {
            PBT_CHECK(c, tr::dies([&] { (void)val(l[0]->front()); }), "out-of-bounds", "front() of an empty list did not terminate");
        }
        PBT_CHECK(c, tr::dies([&] { if (l[0]->begin() == l[1]->begin()) { _exit(0); } _exit(0); }), "foreign-iterator", "comparing iterators of different lists did not terminate");
    }
    l[0].reset();
    l[1].reset();
    aliveExactly<T>(c, 0, "destruction");
    c.count("operations", changes);
    c.nontrivial(changes >= 5);
}

// ------------------------------------------------------------------ FixedPositionContainer
template <typename T, uint64_t N>
void fpcCase(Case& c)
{
    tr::reset();
    using F = iox::FixedPositionContainer<T, N>;
    std::array<std::unique_ptr<F>, 2> f{std::make_unique<F>(), std::make_unique<F>()};
    struct E
    {
        uint64_t v;
        const void* p;
    };
    std::array<std::map<uint64_t, E>, 2> m;
    uint64_t changes = 0;
    auto copyInto = [&](int i) {
        // positions are not preserved by a copy, the order is
        std::map<uint64_t, E> r;
        auto src = m[1 - i].begin();
        uint64_t n = 0;
        for (auto it = f[i]->begin(); it != f[i]->end() && n <= N; ++it, ++n)
        {
            PBT_CHECK(c, src != m[1 - i].end(), "copy", "copy has more elements than its source");
            r[it.to_index()] = {src->second.v, it.to_ptr()};
            ++src;
        }
        PBT_CHECK(c, src == m[1 - i].end(), "copy", "copy has less elements than its source");
        m[i] = r;
    };
    auto check = [&](const char* after) {
        for (int i = 0; i < 2; ++i)
        {
            auto& x = *f[i];
            const auto& cx = x;
            PBT_CHECK(c, x.size() == m[i].size() && x.empty() == m[i].empty() && x.full() == (m[i].size() == N) && x.capacity() == N, "size", "%s: size %" PRIu64 ", expected %zu", after, x.size(), m[i].size());
            auto e = m[i].begin();
            auto ci = cx.begin();
            for (auto it = x.begin(); it != x.end(); ++it, ++ci, ++e)
            {
                PBT_CHECK(c, e != m[i].end(), "content", "%s: too many elements", after);
                PBT_CHECK(c, it.to_index() == e->first && val(*it) == e->second.v && it.to_ptr() == e->second.p && ci.to_index() == e->first && val(*ci) == e->second.v, "content", "%s: index %" PRIu64 " value %" PRIu64 ", expected %" PRIu64 " %" PRIu64 ", same address %d", after, static_cast<uint64_t>(it.to_index()), val(*it), e->first, e->second.v, it.to_ptr() == e->second.p);
                PBT_CHECK(c, it.origins_from(x) && !it.origins_from(*f[1 - i]), "origin", "%s", after);
            }
            PBT_CHECK(c, e == m[i].end(), "content", "%s: elements are missing", after);
            for (uint64_t k = 0; k < N + 1; ++k)
            {
                auto it = x.iter_from_index(static_cast<typename F::IndexType>(k));
                bool there = m[i].count(k) != 0;
                PBT_CHECK(c, (it != x.end()) == there && (!there || it.to_index() == k), "iter_from_index", "%s: index %" PRIu64, after, k);
            }
        }
        aliveExactly<T>(c, m[0].size() + m[1].size(), after);
    };
    check("construction");
    const uint32_t ops = c.range(1, static_cast<uint32_t>(10 + 4 * N));
    for (uint32_t k = 0; k < ops; ++k)
    {
        int i = static_cast<int>(c.draw(2));
        auto& x = *f[i];
        auto& y = m[i];
        const char* name = "";
        switch (c.weighted({14, 10, 1, 1, 1, 1, 1, 1}))
        {
        case 0:
        {
            name = "insert";
            uint64_t e = fresh(c);
            T t{e};
            auto it = c.chance(1, 2) ? x.insert(t) : x.emplace(e);
            if (y.size() < N)
            {
                PBT_CHECK(c, it != x.end() && it.to_index() < N && y.count(it.to_index()) == 0 && val(*it) == e && val(*it.operator->()) == e, "insert", "returned an iterator to something else (index %" PRIu64 ")", static_cast<uint64_t>(it.to_index()));
                y[it.to_index()] = {e, it.to_ptr()};
            }
            else
            {
                PBT_CHECK(c, it == x.end(), "insert", "inserted into a full container");
            }
            break;
        }
        case 1:
        {
            if (y.empty())
            {
                break;
            }
            auto e = y.begin();
            std::advance(e, c.draw(static_cast<uint32_t>(y.size())));
            auto next = std::next(e);
            name = "erase";
            auto idx = static_cast<typename F::IndexType>(e->first);
            uint64_t got = 0;
            switch (c.draw(4))
            {
            case 0:
                got = x.erase(idx).to_index();
                break;
            case 1:
                got = x.erase(static_cast<const T*>(e->second.p)).to_index();
                break;
            case 2:
                got = x.erase(x.iter_from_index(idx)).to_index();
                break;
            default:
            {
                typename F::ConstIterator ci = x.iter_from_index(idx);
                got = x.erase(ci).to_index();
                break;
            }
            }
            uint64_t expect = next == y.end() ? static_cast<uint64_t>(F::Index::INVALID) : next->first;
            PBT_CHECK(c, got == expect, "erase", "erase(%" PRIu64 ") returned index %" PRIu64 ", expected %" PRIu64, static_cast<uint64_t>(idx), got, expect);
            y.erase(e);
            break;
        }
        case 2:
            name = "copy assignment";
            *f[i] = *f[1 - i];
            copyInto(i);
            break;
        case 3:
            name = "move assignment";
            *f[i] = std::move(*f[1 - i]);
            copyInto(i);
            m[1 - i].clear();
            break;
        case 4:
        {
            name = "copy construction";
            auto z = std::make_unique<F>(*f[1 - i]);
            f[i] = std::move(z);
            copyInto(i);
            break;
        }
        case 5:
        {
            name = "move construction";
            auto z = std::make_unique<F>(std::move(*f[1 - i]));
            f[i] = std::move(z);
            copyInto(i);
            m[1 - i].clear();
            break;
        }
        case 6:
            name = "clear";
            x.clear();
            y.clear();
            break;
        default:
        {
            name = "self assignment";
            auto& alias = x;
            if (c.chance(1, 2))
            {
                x = alias;
            }
            else
            {
                x = std::move(alias);
            }
            break;
        }
        }
        ++changes;
        std::string s;
        for (auto& e : y)
        {
            s += std::to_string(e.first) + ":" + std::to_string(e.second.v) + " ";
        }
        c.log("%d %s -> %s", i, name, s.substr(0, 300).c_str());
        check(name);
    }
    if (c.chance(1, 400))
    {
        for (uint64_t k = 0; k < N; ++k)
        {
            if (m[0].count(k) == 0)
            {
                auto idx = static_cast<typename F::IndexType>(k);
                PBT_CHECK(c, tr::dies([&] { f[0]->erase(idx); }), "misuse", "erasing an empty slot did not terminate");
                break;
            }
        }
        PBT_CHECK(c, tr::dies([&] { f[0]->erase(f[1]->begin()); }), "misuse", "erasing with an iterator of another container did not terminate");
        PBT_CHECK(c, tr::dies([&] { f[0]->erase(reinterpret_cast<const T*>(&c)); }), "misuse", "erasing a foreign pointer did not terminate");
        PBT_CHECK(c, tr::dies([&] { (void)val(*f[0]->end()); }), "misuse", "dereferencing end did not terminate");
        if (!m[0].empty())
        {
            auto* p = reinterpret_cast<const char*>(m[0].begin()->second.p) + 1;
            PBT_CHECK(c, tr::dies([&] { f[0]->erase(reinterpret_cast<const T*>(p)); }), "misuse", "erasing a misaligned pointer did not terminate");
        }
    }
    f[0].reset();
    f[1].reset();
    aliveExactly<T>(c, 0, "destruction");
    c.count("operations", changes);
    c.nontrivial(changes >= 5);
}

// ------------------------------------------------------------------ stack
template <typename T, uint64_t N>
void stackCase(Case& c)
{
    tr::reset();
    using S = iox::stack<T, N>;
    std::array<std::unique_ptr<S>, 2> s{std::make_unique<S>(), std::make_unique<S>()};
    std::array<M, 2> m;
    uint64_t changes = 0;
    const uint32_t ops = c.range(1, 40);
    for (uint32_t k = 0; k < ops; ++k)
    {
        int i = static_cast<int>(c.draw(2));
        auto& x = *s[i];
        auto& y = m[i];
        const char* name = "";
        switch (c.weighted({10, 8, 2, 2, 2, 2, 1, 1}))
        {
        case 0:
        {
            uint64_t e = fresh(c);
            bool ok = x.push(e);
            name = "push";
            PBT_CHECK(c, ok == (y.size() < N), "push", "returned %d", ok);
            if (ok)
            {
                y.push_back(e);
            }
            break;
        }
        case 1:
        {
            name = "pop";
            auto r = x.pop();
            PBT_CHECK(c, r.has_value() == !y.empty(), "pop", "returned %d", r.has_value());
            if (r.has_value())
            {
                PBT_CHECK(c, val(*r) == y.back(), "pop", "popped %" PRIu64 ", expected %" PRIu64, val(*r), y.back());
                y.pop_back();
            }
            break;
        }
        case 2:
            name = "copy assignment";
            *s[i] = *s[1 - i];
            y = m[1 - i];
            break;
        case 3:
            name = "move assignment";
            *s[i] = std::move(*s[1 - i]);
            y = m[1 - i];
            m[1 - i].clear();
            break;
        case 4:
        {
            name = "copy construction";
            auto z = std::make_unique<S>(*s[1 - i]);
            s[i] = std::move(z);
            y = m[1 - i];
            break;
        }
        case 5:
        {
            name = "move construction";
            auto z = std::make_unique<S>(std::move(*s[1 - i]));
            s[i] = std::move(z);
            y = m[1 - i];
            m[1 - i].clear();
            break;
        }
        case 6:
        {
            name = "clear";
            size_t from = tr::world().destroyed.size();
            x.clear();
            if (isObj<T>())
            {
                auto& d = tr::world().destroyed;
                M got(d.begin() + static_cast<long>(from), d.end());
                M e(y.rbegin(), y.rend());
                PBT_CHECK(c, got == e, "destruction-order", "clear destroyed %s, expected %s", str(got).c_str(), str(e).c_str());
            }
            y.clear();
            break;
        }
        default:
        {
            name = "self assignment";
            auto& alias = x;
            if (c.chance(1, 2))
            {
                x = alias;
            }
            else
            {
                x = std::move(alias);
            }
            break;
        }
        }
        ++changes;
        c.log("%d %s -> %s", i, name, str(y).c_str());
        for (int j = 0; j < 2; ++j)
        {
            PBT_CHECK(c, s[j]->size() == m[j].size() && s[j]->capacity() == N, "size", "%s: %" PRIu64 ", expected %zu", name, s[j]->size(), m[j].size());
        }
        aliveExactly<T>(c, m[0].size() + m[1].size(), name);
    }
    for (int j = 0; j < 2; ++j)
    {
        if (c.chance(1, 2))
        {
            while (!m[j].empty())
            {
                auto r = s[j]->pop();
                PBT_CHECK(c, r.has_value() && val(*r) == m[j].back(), "pop", "wrong element at the end");
                m[j].pop_back();
            }
        }
        s[j].reset();
    }
    aliveExactly<T>(c, 0, "destruction");
    c.count("operations", changes);
    c.nontrivial(changes >= 5);
}
using O = tr::Obj<8>;
using OW = tr::Obj<64>;
} // namespace

int main(int argc, char** argv)
{
    iox::log::Logger::init(iox::log::LogLevel::Off);
    std::vector<pbt::Test> tests;
    auto add = [&](const char* n, auto f) {
        pbt::Test t;
        t.name = n;
        t.run = f;
        t.block = 20000;
        tests.push_back(t);
    };
    add("vector", [](Case& c) {
        switch (c.draw(5))
        {
        case 0:
            return vecCase<O, 5>(c);
        case 1:
            return vecCase<uint64_t, 5>(c);
        case 2:
            return vecCase<Wide, 4>(c);
        case 3:
            return vecCase<OW, 1>(c);
        default:
            return vecCase<O, 12>(c);
        }
    });
    add("list", [](Case& c) {
        switch (c.draw(4))
        {
        case 0:
            return listCase<iox::list<O, 5>, O, 5, false>(c);
        case 1:
            return listCase<iox::list<uint64_t, 4>, uint64_t, 4, false>(c);
        case 2:
            return listCase<iox::list<OW, 1>, OW, 1, false>(c);
        default:
            return listCase<iox::list<O, 12>, O, 12, false>(c);
        }
    });
    add("forward_list", [](Case& c) {
        switch (c.draw(4))
        {
        case 0:
            return listCase<iox::forward_list<O, 5>, O, 5, true>(c);
        case 1:
            return listCase<iox::forward_list<uint64_t, 4>, uint64_t, 4, true>(c);
        case 2:
            return listCase<iox::forward_list<OW, 1>, OW, 1, true>(c);
        default:
            return listCase<iox::forward_list<O, 12>, O, 12, true>(c);
        }
    });
    add("fixed_position", [](Case& c) {
        switch (c.draw(5))
        {
        case 0:
            return fpcCase<O, 6>(c);
        case 1:
            return fpcCase<uint64_t, 4>(c);
        case 2:
            return fpcCase<OW, 1>(c);
        case 3:
            return fpcCase<Wide, 3>(c);
        default:
            return fpcCase<O, 12>(c);
        }
    });
    add("stack", [](Case& c) {
        switch (c.draw(3))
        {
        case 0:
            return stackCase<O, 5>(c);
        case 1:
            return stackCase<uint64_t, 3>(c);
        default:
            return stackCase<OW, 1>(c);
        }
    });
    return pbt::runAll(argc, argv, tests);
}
