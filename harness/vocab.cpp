// Vocabulary types: contents and exact object lifetimes (S18); Duration arithmetic (S19).
#include "iox/duration.hpp"
#include "iox/expected.hpp"
#include "iox/function.hpp"
#include "iox/function_ref.hpp"
#include "iox/logging.hpp"
#include "iox/optional.hpp"
#include "iox/scope_guard.hpp"
#include "iox/span.hpp"
#include "iox/std_chrono_support.hpp"
#include "iox/unique_ptr.hpp"
#include "iox/variant.hpp"
#include "tracked.hpp"

#include <array>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <sstream>

using pbt::Case;
using tr::MOVED;
using tr::val;

namespace
{
using A = tr::Obj<8>;
using B = tr::Obj<64>;
constexpr const char MSG[] = "expected";

template <typename T>
uint64_t movedFrom(uint64_t v)
{
    return tr::IsObj<T>::value ? MOVED : v;
}
void lifetimes(Case& c, uint64_t n, const char* after)
{
    tr::verify(c, after);
    PBT_CHECK(c, tr::world().alive.size() == n, "object-count", "%zu objects alive, %" PRIu64 " expected after %s", tr::world().alive.size(), n, after);
}

// ------------------------------------------------------------------ optional
struct MO // model of an optional
{
    bool has{false};
    uint64_t v{0};
};
template <typename T>
void optSame(Case& c, iox::optional<T>& o, const MO& m, const char* after)
{
    const iox::optional<T>& k = o;
    PBT_CHECK(c, o.has_value() == m.has && static_cast<bool>(o) == m.has, "optional-has", "has value %d but %d expected after %s", (int)o.has_value(), (int)m.has, after);
    PBT_CHECK(c, (o == iox::nullopt) == !m.has && (iox::nullopt != o) == m.has && (iox::nullopt == o) == !m.has && (o != iox::nullopt) == m.has, "optional-has", "comparison with nullopt after %s", after);
    if (m.has)
    {
        PBT_CHECK(c, val(o.value()) == m.v && val(*o) == m.v && val(k.value()) == m.v && val(*k) == m.v && val(*k.operator->()) == m.v && val(*o.operator->()) == m.v, "optional-value", "value %" PRIx64 " but %" PRIx64 " expected after %s", val(o.value()), m.v, after);
        PBT_CHECK(c, reinterpret_cast<uintptr_t>(&o.value()) % alignof(T) == 0 && reinterpret_cast<char*>(&o.value()) >= reinterpret_cast<char*>(&o) && reinterpret_cast<char*>(&o.value() + 1) <= reinterpret_cast<char*>(&o + 1), "optional-storage", "value is not inside the optional");
    }
}
template <typename T>
void optionalCase(Case& c)
{
    tr::reset();
    using O = iox::optional<T>;
    constexpr uint64_t K = 3;
    uint64_t changes = 0;
    {
        std::array<std::unique_ptr<O>, K> o;
        std::array<MO, K> m;
        for (auto& x : o)
        {
            x = std::make_unique<O>();
        }
        uint64_t next = 1;
        for (uint64_t k = 0, n = c.range(1, 25); k < n; ++k)
        {
            uint64_t i = c.draw(K), j = c.draw(K);
            uint64_t v = next++;
            const char* what = "";
            switch (c.draw(16))
            {
            case 0:
                what = "emplace";
                PBT_CHECK(c, &o[i]->emplace(v) == &o[i]->value(), "optional-value", "emplace returns something else");
                m[i] = {true, v};
                break;
            case 1:
                what = "reset";
                o[i]->reset();
                m[i] = {};
                break;
            case 2:
                what = "assign nullopt";
                *o[i] = iox::optional<T>(iox::nullopt);
                m[i] = {};
                break;
            case 3:
            {
                what = "assign value";
                T t{v};
                *o[i] = t;
                PBT_CHECK(c, val(t) == v, "optional-value", "copied value was changed");
                m[i] = {true, v};
                break;
            }
            case 4:
            {
                what = "move value in";
                T t{v};
                *o[i] = std::move(t);
                PBT_CHECK(c, val(t) == movedFrom<T>(v), "optional-value", "value was copied instead of moved");
                m[i] = {true, v};
                break;
            }
            case 5:
                what = "copy assignment";
                *o[i] = *o[j];
                m[i] = m[j];
                break;
            case 6:
                what = "move assignment";
                *o[i] = std::move(*o[j]);
                if (i != j)
                {
                    m[i] = m[j];
                    m[j] = {};
                }
                break;
            case 7:
            {
                what = "copy construction";
                O t(static_cast<const O&>(*o[j]));
                optSame(c, t, m[j], what);
                *o[i] = std::move(t);
                optSame(c, t, {}, "being moved");
                m[i] = m[j];
                break;
            }
            case 8:
            {
                what = "move construction";
                O t(std::move(*o[j]));
                optSame(c, t, m[j], what);
                m[j] = {};
                optSame(c, *o[j], m[j], "being moved");
                break;
            }
            case 9:
            {
                what = "construction";
                T t{v};
                switch (c.draw(4))
                {
                case 0:
                    o[i] = std::make_unique<O>(t);
                    PBT_CHECK(c, val(t) == v, "optional-value", "copied value was changed");
                    break;
                case 1:
                    o[i] = std::make_unique<O>(std::move(t));
                    break;
                case 2:
                    o[i] = std::make_unique<O>(iox::in_place, v);
                    break;
                default:
                    o[i] = std::make_unique<O>(iox::make_optional<T>(v));
                }
                m[i] = {true, v};
                break;
            }
            case 10:
                what = "value_or";
                {
                    T r = static_cast<const O&>(*o[i]).value_or(T{v});
                    PBT_CHECK(c, val(r) == (m[i].has ? m[i].v : v), "optional-functional", "value_or returned %" PRIx64, val(r));
                    T r2 = std::move(*o[i]).value_or(T{v});
                    PBT_CHECK(c, val(r2) == (m[i].has ? m[i].v : v), "optional-functional", "value_or && returned %" PRIx64, val(r2));
                    if (m[i].has)
                    {
                        m[i].v = movedFrom<T>(m[i].v);
                    }
                }
                break;
            case 11:
            {
                what = "and_then/or_else";
                int a = 0, e = 0;
                o[i]->and_then([&](T& x) {
                        ++a;
                        x = T{v};
                    })
                    .or_else([&] { ++e; });
                static_cast<const O&>(*o[i]).and_then([&](const T& x) { a += val(x) == v ? 10 : 100; }).or_else([&] { e += 10; });
                PBT_CHECK(c, m[i].has ? (a == 11 && e == 0) : (a == 0 && e == 11), "optional-functional", "and_then called %d, or_else called %d", a, e);
                if (m[i].has)
                {
                    m[i].v = v;
                }
                break;
            }
            case 12:
            {
                what = "comparison";
                bool eq = m[i].has == m[j].has && (!m[i].has || m[i].v == m[j].v);
                PBT_CHECK(c, (*o[i] == *o[j]) == eq && (*o[i] != *o[j]) == !eq, "optional-compare", "comparison wrong");
                break;
            }
            case 13:
                what = "rvalue access";
                if (m[i].has)
                {
                    T t = c.chance(1, 2) ? std::move(*o[i]).value() : std::move(*o[i]).expect(MSG);
                    PBT_CHECK(c, val(t) == m[i].v, "optional-value", "rvalue access");
                    m[i].v = movedFrom<T>(m[i].v);
                }
                break;
            case 14:
                what = "access";
                if (m[i].has)
                {
                    (c.chance(1, 2) ? o[i]->value() : c.chance(1, 2) ? **o[i] : o[i]->expect(MSG)) = T{v};
                    m[i].v = v;
                }
                else if (c.chance(1, 30))
                {
                    uint64_t w = c.draw(4);
                    PBT_CHECK(c, tr::dies([&] {
                                  volatile uint64_t x = w == 0 ? val(o[i]->value()) : w == 1 ? val(**o[i]) : w == 2 ? val(*o[i]->operator->()) : val(o[i]->expect(MSG));
                                  (void)x;
                              }),
                              "optional-empty-access", "access to an empty optional was not refused");
                }
                break;
            default:
                what = "replacement";
                o[i] = std::make_unique<O>(iox::nullopt);
                m[i] = {};
            }
            c.log("%s %" PRIu64 " %" PRIu64, what, i, j);
            uint64_t has = 0;
            for (uint64_t q = 0; q < K; ++q)
            {
                optSame(c, *o[q], m[q], what);
                has += m[q].has;
            }
            changes += has;
            lifetimes(c, tr::IsObj<T>::value ? has : 0, what);
        }
    }
    lifetimes(c, 0, "the end");
    c.nontrivial(changes >= 4);
}
void optionalTest(Case& c)
{
    switch (c.draw(3))
    {
    case 0:
        return optionalCase<A>(c);
    case 1:
        return optionalCase<B>(c);
    default:
        return optionalCase<uint64_t>(c);
    }
}

// ------------------------------------------------------------------ variant
struct MV
{
    uint64_t idx{iox::INVALID_VARIANT_INDEX};
    uint64_t v{0};
    void moved()
    {
        if (idx < 2)
        {
            v = MOVED;
        }
    }
};
using V = iox::variant<A, B, uint64_t>;
void varSame(Case& c, V& x, const MV& m, const char* after)
{
    const V& k = x;
    PBT_CHECK(c, x.index() == m.idx, "variant-index", "index %" PRIu64 " but %" PRIu64 " expected after %s", x.index(), m.idx, after);
    A* a = x.get<A>();
    B* b = x.get<B>();
    uint64_t* u = x.get<uint64_t>();
    PBT_CHECK(c, (a != nullptr) == (m.idx == 0) && (b != nullptr) == (m.idx == 1) && (u != nullptr) == (m.idx == 2), "variant-get", "get returns the wrong alternative after %s", after);
    PBT_CHECK(c, x.get_at_index<0>() == a && x.get_at_index<1>() == b && x.get_at_index<2>() == u && k.get<A>() == a && k.get<B>() == b && k.get<uint64_t>() == u && k.get_at_index<0>() == a && k.get_at_index<1>() == b && k.get_at_index<2>() == u, "variant-get", "get and get_at_index disagree after %s", after);
    PBT_CHECK(c, iox::holds_alternative<A>(x) == (m.idx == 0) && iox::holds_alternative<B>(x) == (m.idx == 1) && iox::holds_alternative<uint64_t>(x) == (m.idx == 2), "variant-get", "holds_alternative after %s", after);
    uint64_t dflt = 5;
    PBT_CHECK(c, x.get_if(&dflt) == (u ? u : &dflt) && k.get_if(static_cast<const uint64_t*>(&dflt)) == (u ? u : &dflt), "variant-get", "get_if after %s", after);
    uint64_t got = a ? val(*a) : b ? val(*b) : u ? *u : 0;
    PBT_CHECK(c, m.idx > 2 || got == m.v, "variant-value", "value %" PRIx64 " but %" PRIx64 " expected after %s", got, m.v, after);
}
void variantTest(Case& c)
{
    tr::reset();
    constexpr uint64_t K = 3;
    uint64_t changes = 0;
    {
        std::array<std::unique_ptr<V>, K> o;
        std::array<MV, K> m;
        for (auto& x : o)
        {
            x = std::make_unique<V>();
        }
        uint64_t next = 1;
        for (uint64_t k = 0, n = c.range(1, 25); k < n; ++k)
        {
            uint64_t i = c.draw(K), j = c.draw(K), t = c.draw(3), v = next++;
            const char* what = "";
            switch (c.draw(10))
            {
            case 0:
                what = "emplace";
                t == 0 ? o[i]->emplace<A>(v) : t == 1 ? o[i]->emplace<B>(v) : o[i]->emplace<uint64_t>(v);
                m[i] = {t, v};
                break;
            case 1:
                what = "emplace_at_index";
                t == 0 ? o[i]->emplace_at_index<0>(v) : t == 1 ? o[i]->emplace_at_index<1>(v) : o[i]->emplace_at_index<2>(v);
                m[i] = {t, v};
                break;
            case 2:
            {
                what = "value assignment";
                // assigning another alternative than the held one is refused
                if (t == 0)
                {
                    *o[i] = A{v};
                }
                else if (t == 1)
                {
                    *o[i] = B{v};
                }
                else
                {
                    *o[i] = uint64_t{v};
                }
                if (m[i].idx > 2 || m[i].idx == t)
                {
                    m[i] = {t, v};
                }
                break;
            }
            case 3:
                what = "copy assignment";
                *o[i] = *o[j];
                m[i] = m[j];
                break;
            case 4:
                what = "move assignment";
                *o[i] = std::move(*o[j]);
                if (i != j)
                {
                    m[i] = m[j];
                    m[j].moved();
                }
                break;
            case 5:
            {
                what = "copy construction";
                V x(static_cast<const V&>(*o[j]));
                varSame(c, x, m[j], what);
                break;
            }
            case 6:
            {
                what = "move construction";
                V x(std::move(*o[j]));
                varSame(c, x, m[j], what);
                m[j].moved();
                break;
            }
            case 7:
                what = "construction";
                switch (c.draw(3))
                {
                case 0:
                    o[i] = t == 0 ? std::make_unique<V>(iox::in_place_index<0>(), v) : t == 1 ? std::make_unique<V>(iox::in_place_index<1>(), v) : std::make_unique<V>(iox::in_place_index<2>(), v);
                    break;
                case 1:
                    o[i] = t == 0 ? std::make_unique<V>(iox::in_place_type<A>(), v) : t == 1 ? std::make_unique<V>(iox::in_place_type<B>(), v) : std::make_unique<V>(iox::in_place_type<uint64_t>(), v);
                    break;
                default:
                    o[i] = t == 0 ? std::make_unique<V>(A{v}) : t == 1 ? std::make_unique<V>(B{v}) : std::make_unique<V>(v);
                }
                m[i] = {t, v};
                break;
            case 8:
            {
                what = "comparison";
                bool eq = m[i].idx == m[j].idx && (m[i].idx > 2 || m[i].v == m[j].v);
                PBT_CHECK(c, (*o[i] == *o[j]) == eq && (*o[i] != *o[j]) == !eq, "variant-compare", "comparison wrong");
                break;
            }
            default:
                what = "replacement";
                o[i] = std::make_unique<V>();
                m[i] = {};
            }
            c.log("%s %" PRIu64 " %" PRIu64 " alternative %" PRIu64, what, i, j, t);
            uint64_t has = 0;
            for (uint64_t q = 0; q < K; ++q)
            {
                varSame(c, *o[q], m[q], what);
                has += m[q].idx < 2;
            }
            changes += has;
            lifetimes(c, has, what);
        }
    }
    lifetimes(c, 0, "the end");
    c.nontrivial(changes >= 4);
}

// ------------------------------------------------------------------ expected
struct ME
{
    bool ok;
    uint64_t v;
};
template <typename T, typename E>
void expSame(Case& c, iox::expected<T, E>& x, const ME& m, const char* after)
{
    const auto& k = x;
    PBT_CHECK(c, x.has_value() == m.ok && x.has_error() == !m.ok && static_cast<bool>(x) == m.ok, "expected-state", "has value %d but %d expected after %s", (int)x.has_value(), (int)m.ok, after);
    uint64_t got = m.ok ? val(x.value()) : val(x.error());
    uint64_t got2 = m.ok ? val(k.value()) : val(k.error());
    PBT_CHECK(c, got == m.v && got2 == m.v, "expected-value", "value %" PRIx64 " but %" PRIx64 " expected after %s", got, m.v, after);
    if (m.ok)
    {
        PBT_CHECK(c, val(*x) == m.v && val(*k) == m.v && val(*x.operator->()) == m.v && val(*k.operator->()) == m.v, "expected-value", "accessors disagree after %s", after);
    }
    auto o = k.to_optional();
    PBT_CHECK(c, o.has_value() == m.ok && (!m.ok || val(o.value()) == m.v), "expected-value", "to_optional after %s", after);
    iox::expected<void, E> ve = k;
    PBT_CHECK(c, ve.has_error() == !m.ok && (m.ok || val(ve.error()) == m.v), "expected-value", "conversion to expected<void> after %s", after);
}
template <typename T, typename E>
void expectedCase(Case& c)
{
    tr::reset();
    using X = iox::expected<T, E>;
    constexpr uint64_t K = 3;
    {
        std::array<std::unique_ptr<X>, K> o;
        std::array<ME, K> m;
        uint64_t next = 1;
        auto fresh = [&](uint64_t i) {
            uint64_t v = next++;
            bool ok = c.chance(1, 2);
            switch (c.draw(4))
            {
            case 0:
                o[i] = ok ? std::make_unique<X>(iox::in_place, v) : std::make_unique<X>(iox::unexpect, v);
                break;
            case 1:
                o[i] = ok ? std::make_unique<X>(iox::ok<T>(v)) : std::make_unique<X>(iox::err<E>(v));
                break;
            case 2:
                o[i] = ok ? std::make_unique<X>(iox::ok(T{v})) : std::make_unique<X>(iox::err(E{v}));
                break;
            default:
            {
                T t{v};
                E e{v};
                auto okv = iox::ok(t);
                auto erv = iox::err(e);
                o[i] = ok ? std::make_unique<X>(okv) : std::make_unique<X>(erv);
                PBT_CHECK(c, val(t) == v && val(e) == v, "expected-value", "a copied value was changed");
            }
            }
            m[i] = {ok, v};
        };
        auto moved = [&](uint64_t i) { m[i].v = m[i].ok ? movedFrom<T>(m[i].v) : movedFrom<E>(m[i].v); };
        for (uint64_t i = 0; i < K; ++i)
        {
            fresh(i);
        }
        for (uint64_t k = 0, n = c.range(1, 25); k < n; ++k)
        {
            uint64_t i = c.draw(K), j = c.draw(K), v = next++;
            const char* what = "";
            switch (c.draw(9))
            {
            case 0:
                what = "construction";
                fresh(i);
                break;
            case 1:
                what = "copy assignment";
                *o[i] = *o[j];
                m[i] = m[j];
                break;
            case 2:
                what = "move assignment";
                *o[i] = std::move(*o[j]);
                if (i != j)
                {
                    m[i] = m[j];
                    moved(j);
                }
                break;
            case 3:
            {
                what = "copy construction";
                X x(static_cast<const X&>(*o[j]));
                expSame(c, x, m[j], what);
                break;
            }
            case 4:
            {
                what = "move construction";
                X x(std::move(*o[j]));
                expSame(c, x, m[j], what);
                moved(j);
                break;
            }
            case 5:
            {
                what = "and_then/or_else";
                int a = 0, e = 0;
                o[i]->and_then([&](T& x) {
                        ++a;
                        x = T{v};
                    })
                    .or_else([&](E& x) {
                        ++e;
                        x = E{v};
                    });
                static_cast<const X&>(*o[i]).and_then([&](const T& x) { a += val(x) == v ? 10 : 100; }).or_else([&](const E& x) { e += val(x) == v ? 10 : 100; });
                PBT_CHECK(c, m[i].ok ? (a == 11 && e == 0) : (a == 0 && e == 11), "expected-functional", "and_then called %d, or_else called %d", a, e);
                m[i].v = v;
                break;
            }
            case 6:
            {
                what = "value_or";
                T r = static_cast<const X&>(*o[i]).value_or(T{v});
                PBT_CHECK(c, val(r) == (m[i].ok ? m[i].v : v), "expected-functional", "value_or returned %" PRIx64, val(r));
                T r2 = std::move(*o[i]).value_or(T{v});
                PBT_CHECK(c, val(r2) == (m[i].ok ? m[i].v : v), "expected-functional", "value_or && returned %" PRIx64, val(r2));
                if (m[i].ok)
                {
                    moved(i);
                }
                break;
            }
            case 7:
            {
                what = "comparison";
                bool eq = m[i].ok == m[j].ok && m[i].v == m[j].v;
                PBT_CHECK(c, (*o[i] == *o[j]) == eq && (*o[i] != *o[j]) == !eq, "expected-compare", "comparison wrong");
                break;
            }
            default:
                what = "access";
                if (m[i].ok)
                {
                    if (c.chance(1, 2))
                    {
                        T t = c.chance(1, 2) ? std::move(*o[i]).value() : std::move(*o[i]).expect(MSG);
                        PBT_CHECK(c, val(t) == m[i].v, "expected-value", "rvalue access");
                        moved(i);
                    }
                    else
                    {
                        (c.chance(1, 2) ? o[i]->value() : **o[i]) = T{v};
                        m[i].v = v;
                    }
                    if (c.chance(1, 30))
                    {
                        PBT_CHECK(c, tr::dies([&] {
                                      volatile uint64_t x = val(o[i]->error());
                                      (void)x;
                                  }),
                                  "expected-wrong-access", "access to the error of a success was not refused");
                    }
                }
                else
                {
                    if (c.chance(1, 2))
                    {
                        E t = std::move(*o[i]).error();
                        PBT_CHECK(c, val(t) == m[i].v, "expected-value", "rvalue access");
                        moved(i);
                    }
                    else
                    {
                        o[i]->error() = E{v};
                        m[i].v = v;
                    }
                    if (c.chance(1, 30))
                    {
                        uint64_t w = c.draw(3);
                        PBT_CHECK(c, tr::dies([&] {
                                      volatile uint64_t x = w == 0 ? val(o[i]->value()) : w == 1 ? val(**o[i]) : val(o[i]->expect(MSG));
                                      (void)x;
                                  }),
                                  "expected-wrong-access", "access to the value of an error was not refused");
                    }
                }
            }
            c.log("%s %" PRIu64 " %" PRIu64, what, i, j);
            uint64_t alive = 0;
            for (uint64_t q = 0; q < K; ++q)
            {
                expSame(c, *o[q], m[q], what);
                alive += m[q].ok ? tr::IsObj<T>::value : tr::IsObj<E>::value;
            }
            lifetimes(c, alive, what);
        }
        c.nontrivial(next > 6);
    }
    lifetimes(c, 0, "the end");
}
void expectedTest(Case& c)
{
    switch (c.draw(3))
    {
    case 0:
        return expectedCase<A, B>(c);
    case 1:
        return expectedCase<uint64_t, A>(c);
    default:
        return expectedCase<B, uint64_t>(c);
    }
}

// ------------------------------------------------------------------ function, function_ref
uint64_t freeA(uint64_t x)
{
    return x + 1;
}
uint64_t freeB(uint64_t x)
{
    return x * 3;
}
struct Small
{
    A a;
    uint64_t operator()(uint64_t x) const
    {
        return a.get() + x;
    }
};
struct Wide64
{
    B b;
    uint64_t operator()(uint64_t x) const
    {
        return b.get() ^ x;
    }
};
struct Target
{
    uint64_t k;
    uint64_t m(uint64_t x)
    {
        return k + 2 * x;
    }
    uint64_t cm(uint64_t x) const
    {
        return k - x;
    }
};
void functionTest(Case& c)
{
    tr::reset();
    using F = iox::function<uint64_t(uint64_t), 192>;
    constexpr uint64_t K = 3;
    Target tgt{77};
    struct M
    {
        uint64_t kind; // 0,1 free; 2 small; 3 wide; 4,5 method; 6 moved-from
        uint64_t v;
    };
    auto call = [&](const M& m, uint64_t x) -> uint64_t {
        switch (m.kind)
        {
        case 0:
            return freeA(x);
        case 1:
            return freeB(x);
        case 2:
            return m.v + x;
        case 3:
            return m.v ^ x;
        case 4:
            return tgt.k + 2 * x;
        default:
            return tgt.k - x;
        }
    };
    {
        std::array<std::unique_ptr<F>, K> f;
        std::array<M, K> m;
        uint64_t next = 1;
        auto make = [&](M& mm) -> std::unique_ptr<F> {
            mm = {c.draw(6), next++};
            switch (mm.kind)
            {
            case 0:
                return std::make_unique<F>(freeA);
            case 1:
                return std::make_unique<F>(freeB);
            case 2:
                return std::make_unique<F>(Small{A{mm.v}});
            case 3:
                return std::make_unique<F>(Wide64{B{mm.v}});
            case 4:
                return std::make_unique<F>(tgt, &Target::m);
            default:
                return std::make_unique<F>(static_cast<const Target&>(tgt), &Target::cm);
            }
        };
        for (uint64_t i = 0; i < K; ++i)
        {
            f[i] = make(m[i]);
        }
        for (uint64_t k = 0, n = c.range(1, 25); k < n; ++k)
        {
            uint64_t i = c.draw(K), j = c.draw(K), x = c.draw(1000);
            const char* what = "";
            bool src = m[j].kind != 6;
            switch (c.draw(8))
            {
            case 0:
                what = "construction";
                f[i] = make(m[i]);
                break;
            case 1:
            {
                what = "assignment of a new callable";
                M t;
                auto g = make(t);
                if (c.chance(1, 2))
                {
                    *f[i] = *g;
                    PBT_CHECK(c, (*g)(x) == call(t, x), "function-call", "copied-from function returns something else");
                }
                else
                {
                    *f[i] = std::move(*g);
                }
                m[i] = t;
                break;
            }
            case 2:
                what = "copy assignment";
                if (src)
                {
                    *f[i] = *f[j];
                    m[i] = m[j];
                }
                break;
            case 3:
                what = "move assignment";
                if (src)
                {
                    *f[i] = std::move(*f[j]);
                    if (i != j)
                    {
                        m[i] = m[j];
                        m[j].kind = 6;
                    }
                }
                break;
            case 4:
                what = "copy construction";
                if (src)
                {
                    F g(static_cast<const F&>(*f[j]));
                    PBT_CHECK(c, g(x) == call(m[j], x), "function-call", "copy returns something else");
                }
                break;
            case 5:
                what = "move construction";
                if (src)
                {
                    F g(std::move(*f[j]));
                    PBT_CHECK(c, g(x) == call(m[j], x), "function-call", "moved function returns something else");
                    m[j].kind = 6;
                }
                break;
            case 6:
                what = "swap";
                if (src && m[i].kind != 6)
                {
                    if (c.chance(1, 2))
                    {
                        f[i]->swap(*f[j]);
                    }
                    else
                    {
                        swap(*f[i], *f[j]);
                    }
                    std::swap(m[i], m[j]);
                }
                break;
            default:
                what = "call after move";
                if (m[i].kind == 6 && c.chance(1, 20))
                {
                    PBT_CHECK(c, tr::dies([&] {
                                  volatile uint64_t y = (*f[i])(x);
                                  (void)y;
                              }),
                              "function-moved-call", "calling a moved-from function was not refused");
                }
            }
            c.log("%s %" PRIu64 " %" PRIu64, what, i, j);
            uint64_t alive = 0;
            for (uint64_t q = 0; q < K; ++q)
            {
                if (m[q].kind != 6)
                {
                    uint64_t r = (*f[q])(x);
                    PBT_CHECK(c, r == call(m[q], x), "function-call", "call returns %" PRIu64 " instead of %" PRIu64 " after %s", r, call(m[q], x), what);
                    iox::function_ref<uint64_t(uint64_t)> fr(*f[q]);
                    iox::function_ref<uint64_t(uint64_t)> other(freeB);
                    PBT_CHECK(c, fr(x) == r, "function-ref", "function_ref returns something else");
                    fr.swap(other);
                    PBT_CHECK(c, other(x) == r && fr(x) == freeB(x), "function-ref", "function_ref after swap");
                    fr = std::move(other);
                    PBT_CHECK(c, fr(x) == r, "function-ref", "function_ref after move");
                }
                alive += m[q].kind == 2 || m[q].kind == 3;
            }
            lifetimes(c, alive, what);
        }
        c.nontrivial(next > 5);
    }
    lifetimes(c, 0, "the end");
}

// ------------------------------------------------------------------ unique_ptr, ScopeGuard
void ownersTest(Case& c)
{
    tr::reset();
    using U = iox::unique_ptr<A>;
    std::map<const A*, int> deleted; // by which deleter
    constexpr uint64_t K = 3;
    uint64_t ops = 0;
    {
        struct M
        {
            A* p{nullptr};
            int del{0};
            bool moved{true};
        };
        std::array<std::unique_ptr<U>, K> u;
        std::array<M, K> m;
        uint64_t next = 1;
        auto make = [&](M& mm) {
            A* p = new A{next++};
            int d = static_cast<int>(c.draw(3));
            mm = {p, d, false};
            deleted.erase(p);
            return std::make_unique<U>(p, [&deleted, d](A* const x) {
                deleted[x] = d + 1;
                delete x;
            });
        };
        auto gone = [&](const M& mm, const char* what) {
            if (mm.p)
            {
                PBT_CHECK(c, deleted.count(mm.p) && deleted[mm.p] == mm.del + 1, "unique-ptr-deleter", "object was %s after %s", deleted.count(mm.p) ? "deleted by the wrong deleter" : "not deleted", what);
            }
        };
        for (uint64_t i = 0; i < K; ++i)
        {
            u[i] = make(m[i]);
        }
        for (uint64_t k = 0, n = c.range(1, 20); k < n; ++k)
        {
            uint64_t i = c.draw(K), j = c.draw(K);
            const char* what = "";
            switch (c.draw(6))
            {
            case 0:
            {
                what = "replacement";
                M old = m[i];
                M nm;
                auto nu = make(nm);
                u[i] = std::move(nu);
                gone(old, what);
                m[i] = nm;
                break;
            }
            case 1:
            {
                what = "move assignment";
                if (!m[j].moved)
                {
                    M old = m[i];
                    *u[i] = std::move(*u[j]);
                    if (i != j)
                    {
                        gone(old, what);
                        m[i] = m[j];
                        m[j] = M{};
                    }
                }
                break;
            }
            case 2:
                what = "move construction";
                if (!m[j].moved)
                {
                    U x(std::move(*u[j]));
                    PBT_CHECK(c, x.get() == m[j].p, "unique-ptr-get", "moved pointer is different");
                    M old = m[j];
                    m[j] = M{};
                    if (c.chance(1, 2))
                    {
                        *u[j] = std::move(x);
                        m[j] = old;
                    }
                }
                break;
            case 3:
                what = "release";
                if (!m[j].moved)
                {
                    A* p = U::release(std::move(*u[j]));
                    PBT_CHECK(c, p == m[j].p && deleted.count(p) == 0, "unique-ptr-release", "release returned something else or deleted it");
                    delete p;
                    m[j] = M{};
                }
                break;
            case 4:
                what = "swap";
                if (!m[i].moved && !m[j].moved)
                {
                    u[i]->swap(*u[j]);
                    std::swap(m[i], m[j]);
                }
                break;
            default:
                what = "comparison";
                PBT_CHECK(c, (*u[i] == *u[j]) == (m[i].p == m[j].p) && (*u[i] != *u[j]) == (m[i].p != m[j].p), "unique-ptr-compare", "comparison wrong");
            }
            c.log("%s %" PRIu64 " %" PRIu64, what, i, j);
            ++ops;
            uint64_t alive = 0;
            for (uint64_t q = 0; q < K; ++q)
            {
                PBT_CHECK(c, u[q]->get() == m[q].p && static_cast<const U&>(*u[q]).get() == m[q].p, "unique-ptr-get", "pointer is different after %s", what);
                if (m[q].p)
                {
                    PBT_CHECK(c, u[q]->operator->()->get() < 1000 && deleted.count(m[q].p) == 0, "unique-ptr-get", "object is gone after %s", what);
                    ++alive;
                }
            }
            lifetimes(c, alive, what);
        }
        auto fin = m;
        for (auto& x : u)
        {
            x.reset();
        }
        for (auto& x : fin)
        {
            gone(x, "destruction");
        }
        lifetimes(c, 0, "destruction");
    }
    { // scope guards: every clean-up runs exactly once, unless it is released
        std::map<uint64_t, int> ran, inited;
        std::map<uint64_t, int> want;
        uint64_t id = 0;
        std::array<std::unique_ptr<iox::ScopeGuard>, K> g;
        std::array<uint64_t, K> m{};
        auto make = [&](uint64_t i) {
            uint64_t x = ++id;
            if (m[i])
            {
                want[m[i]] = 1;
            }
            m[i] = x;
            if (c.chance(1, 2))
            {
                g[i] = std::make_unique<iox::ScopeGuard>([&ran, x] { ran[x]++; });
            }
            else
            {
                g[i] = std::make_unique<iox::ScopeGuard>([&inited, x] { inited[x]++; }, [&ran, x] { ran[x]++; });
                PBT_CHECK(c, inited[x] == 1 && ran[x] == 0, "scope-guard", "init called %d times", inited[x]);
            }
        };
        for (uint64_t i = 0; i < K; ++i)
        {
            make(i);
        }
        for (uint64_t k = 0, n = c.draw(12); k < n; ++k)
        {
            uint64_t i = c.draw(K), j = c.draw(K);
            switch (c.draw(4))
            {
            case 0:
                make(i);
                break;
            case 1:
                if (i != j)
                {
                    *g[i] = std::move(*g[j]);
                    if (m[i])
                    {
                        want[m[i]] = 1;
                    }
                    m[i] = m[j];
                    m[j] = 0;
                }
                break;
            case 2:
            {
                iox::ScopeGuard x(std::move(*g[j]));
                if (m[j])
                {
                    want[m[j]] = 1;
                }
                m[j] = 0;
                break;
            }
            default:
                if (m[i])
                {
                    auto f = iox::ScopeGuard::release(std::move(*g[i]));
                    PBT_CHECK(c, ran[m[i]] == 0, "scope-guard", "release ran the clean-up");
                    if (c.chance(1, 2))
                    {
                        f();
                        want[m[i]] = 1;
                    }
                    m[i] = 0;
                }
            }
            for (uint64_t x = 1; x <= id; ++x)
            {
                PBT_CHECK(c, ran[x] == want[x], "scope-guard", "clean-up %" PRIu64 " ran %d times instead of %d", x, ran[x], want[x]);
            }
        }
        for (uint64_t i = 0; i < K; ++i)
        {
            if (m[i])
            {
                want[m[i]] = 1;
            }
            g[i].reset();
        }
        for (uint64_t x = 1; x <= id; ++x)
        {
            PBT_CHECK(c, ran[x] == want[x], "scope-guard", "clean-up %" PRIu64 " ran %d times instead of %d", x, ran[x], want[x]);
        }
    }
    c.nontrivial(ops >= 3);
}

// ------------------------------------------------------------------ span
void spanTest(Case& c)
{
    std::vector<uint32_t> v(c.draw(12));
    for (auto& x : v)
    {
        x = static_cast<uint32_t>(c.draw(1000));
    }
    uint64_t lo = 0, n = v.size();
    iox::span<uint32_t> s(v.data(), v.size());
    uint64_t ops = c.range(1, 12);
    for (uint64_t k = 0; k < ops; ++k)
    {
        switch (c.draw(6))
        {
        case 0:
        {
            uint64_t q = n - c.draw(std::min<uint64_t>(n, 3) + 1);
            s = s.first(q);
            n = q;
            break;
        }
        case 1:
        {
            uint64_t q = n - c.draw(std::min<uint64_t>(n, 3) + 1);
            s = s.last(q);
            lo += n - q;
            n = q;
            break;
        }
        case 2:
        {
            uint64_t off = c.draw(std::min<uint64_t>(n, 2) + 1);
            uint64_t q = c.draw(n - off + 1);
            bool all = c.chance(1, 3);
            s = all ? s.subspan(off) : s.subspan(off, q);
            lo += off;
            n = all ? n - off : q;
            break;
        }
        case 3:
        {
            iox::span<uint32_t> t(s);
            iox::span<uint32_t> u(std::move(t));
            s = u;
            break;
        }
        case 4:
            if (n > 0)
            {
                uint64_t i = c.draw(n);
                s[i] = static_cast<uint32_t>(c.draw(1000));
                PBT_CHECK(c, v[lo + i] == s[i], "span-content", "write through the span is not visible");
            }
            break;
        default:
        {
            lo = 0;
            n = v.size();
            switch (c.draw(2))
            {
            case 0:
                s = iox::span<uint32_t>(v.begin(), v.end());
                break;
            default:
                s = iox::span<uint32_t>(v);
            }
        }
        }
        PBT_CHECK(c, s.size() == n && s.empty() == (n == 0) && s.size_bytes() == n * 4, "span-size", "size %" PRIu64 " but %" PRIu64, s.size(), n);
        PBT_CHECK(c, v.empty() || s.data() == v.data() + lo, "span-content", "wrong start");
        uint64_t i = 0;
        for (auto& x : s)
        {
            PBT_CHECK(c, i < n && &x == &v[lo + i] && s[i] == x, "span-content", "wrong element %" PRIu64, i);
            ++i;
        }
        PBT_CHECK(c, i == n, "span-size", "%" PRIu64 " elements visited, %" PRIu64 " expected", i, n);
        for (auto it = s.rbegin(); it != s.rend(); ++it)
        {
            --i;
            PBT_CHECK(c, *it == v[lo + i], "span-content", "wrong element in reverse");
        }
        auto b = iox::as_bytes(s);
        PBT_CHECK(c, b.size() == 4 * n && reinterpret_cast<const char*>(b.data()) == reinterpret_cast<char*>(s.data()) && iox::as_writable_bytes(s).size() == 4 * n, "span-size", "as_bytes");
        if (n)
        {
            PBT_CHECK(c, s.front() == v[lo] && s.back() == v[lo + n - 1], "span-content", "front or back");
        }
    }
    c.nontrivial(v.size() >= 3 && ops >= 3);
}

// ------------------------------------------------------------------ Duration (S19)
using iox::units::Duration;
using U128 = unsigned __int128;
constexpr uint64_t U64MAX = ~0ULL;
constexpr uint64_t NS = 1000000000ULL;
U128 maxNs()
{
    return U128(U64MAX) * NS + (NS - 1);
}
struct DT : Duration
{
    DT(uint64_t s, uint32_t n)
        : Duration(s, n)
    {
    }
};
U128 ns(Case& c, const Duration& d)
{
    // read back through the public interface: seconds and the remainder
    uint64_t s = d.toSeconds();
    Duration r = d - Duration::fromSeconds(s);
    uint64_t n = r.toNanoseconds();
    PBT_CHECK(c, n < NS, "duration-normal", "more than a second of nanoseconds: %" PRIu64, n);
    return U128(s) * NS + n;
}
std::string show(U128 v)
{
    std::ostringstream s;
    s << uint64_t(v / NS) << "s " << uint64_t(v % NS) << "ns";
    return s.str();
}
U128 sat(U128 a, U128 b) // a + b, both below 2^95
{
    return a + b > maxNs() ? maxNs() : a + b;
}
void is(Case& c, const Duration& d, U128 want, const char* what)
{
    U128 got = ns(c, d);
    PBT_CHECK(c, got == want, "duration-value", "%s is %s but %s expected", what, show(got).c_str(), show(want).c_str());
    std::ostringstream s;
    s << d;
    PBT_CHECK(c, s.str() == show(want), "duration-text", "%s is printed as %s but %s expected", what, s.str().c_str(), show(want).c_str());
}
template <typename T>
void factories(Case& c)
{
    T v = static_cast<T>(c.u64b());
    U128 u = v < 0 ? 0 : static_cast<uint64_t>(v);
    auto clamp = [](U128 x) { return x > maxNs() ? maxNs() : x; };
    is(c, Duration::fromNanoseconds(v), u, "fromNanoseconds");
    is(c, Duration::fromMicroseconds(v), u * 1000, "fromMicroseconds");
    is(c, Duration::fromMilliseconds(v), u * 1000000, "fromMilliseconds");
    is(c, Duration::fromSeconds(v), u * NS, "fromSeconds");
    // beyond the largest number of whole minutes the maximum is returned
    is(c, Duration::fromMinutes(v), u > U64MAX / 60 ? maxNs() : clamp(u * 60 * NS), "fromMinutes");
    is(c, Duration::fromHours(v), u > U64MAX / 3600 ? maxNs() : clamp(u * 3600 * NS), "fromHours");
    is(c, Duration::fromDays(v), u > U64MAX / 86400 ? maxNs() : clamp(u * 86400 * NS), "fromDays");
}
template <typename T>
void mult(Case& c, const Duration& d, U128 a)
{
    T k = static_cast<T>(c.chance(1, 2) ? c.draw(5) : c.u64b());
    U128 want = 0;
    if (k > 0 && a > 0)
    {
        U128 f = static_cast<uint64_t>(k);
        want = f > maxNs() / a ? maxNs() : f * a;
    }
    is(c, d * k, want, "product");
    is(c, k * d, want, "product");
    Duration e = d;
    e *= k;
    is(c, e, want, "product");
}
template <typename T>
void multFloat(Case& c, const Duration& d, U128 a)
{
    T k;
    switch (c.draw(8))
    {
    case 0:
        k = std::numeric_limits<T>::quiet_NaN();
        is(c, d * k, a == 0 ? 0 : maxNs(), "product with NaN");
        return;
    case 1:
        k = std::numeric_limits<T>::infinity();
        is(c, d * k, a == 0 ? 0 : maxNs(), "product with infinity");
        is(c, d * -k, 0, "product with negative infinity");
        return;
    case 2:
        is(c, d * static_cast<T>(-1.5), 0, "product with a negative number");
        is(c, d * static_cast<T>(0), 0, "product with zero");
        return;
    case 3:
        k = static_cast<T>(c.draw(100));
        break;
    case 4:
        k = static_cast<T>(1) / static_cast<T>(1 + c.draw(1000));
        break;
    default:
        k = std::ldexp(static_cast<T>(1 + c.draw(1 << 20)), static_cast<int>(c.draw(120)) - 70);
    }
    long double want = static_cast<long double>(a) * static_cast<long double>(k);
    U128 got = ns(c, d * k);
    long double lim = static_cast<long double>(maxNs());
    long double rel = static_cast<long double>(std::numeric_limits<T>::epsilon()) * 8;
    // a relative error of the type's precision; each part is truncated to nanoseconds
    long double tol = want * rel + 4;
    if (want - tol > lim)
    {
        PBT_CHECK(c, got == maxNs(), "duration-float", "product of %s and %Lg is %s, not the maximum", show(a).c_str(), static_cast<long double>(k), show(got).c_str());
    }
    else if (want + tol < lim)
    {
        long double diff = std::fabs(static_cast<long double>(got) - want);
        PBT_CHECK(c, diff <= tol, "duration-float", "product of %s and %.20Lg is %s, off by %Lg ns", show(a).c_str(), static_cast<long double>(k), show(got).c_str(), diff);
    }
    Duration e = d;
    e *= k;
    PBT_CHECK(c, e == d * k && k * d == e, "duration-float", "the forms of the product differ");
}
void durationTest(Case& c)
{
    auto part = [&](uint64_t& s, uint32_t& n) {
        s = c.u64b();
        n = static_cast<uint32_t>(c.chance(1, 3) ? NS - 1 - c.draw(3) : c.chance(1, 3) ? c.draw(3) : c.draw(NS));
    };
    uint64_t s1, s2;
    uint32_t n1, n2;
    part(s1, n1);
    part(s2, n2);
    if (c.chance(1, 4))
    {
        s2 = s1 + c.draw(3) - 1;
    }
    if (c.chance(1, 4))
    {
        s2 = U64MAX - s1 + c.draw(3) - 1;
    }
    DT a(s1, n1), b(s2, n2);
    U128 x = U128(s1) * NS + n1, y = U128(s2) * NS + n2;
    c.log("%s, %s", show(x).c_str(), show(y).c_str());
    is(c, a, x, "duration");
    { // nanoseconds beyond one second are carried
        uint32_t big = static_cast<uint32_t>(c.u64b());
        is(c, DT(s1, big), sat(U128(s1) * NS, big), "duration from large nanoseconds");
    }
    is(c, a + b, sat(x, y), "sum");
    is(c, a - b, x > y ? x - y : 0, "difference");
    Duration t = a;
    t += b;
    is(c, t, sat(x, y), "sum");
    t = a;
    t -= b;
    is(c, t, x > y ? x - y : 0, "difference");
    PBT_CHECK(c, (a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "duration-compare", "comparison of %s and %s", show(x).c_str(), show(y).c_str());
    auto cl = [](U128 v) { return v > U64MAX ? U64MAX : uint64_t(v); };
    PBT_CHECK(c, a.toNanoseconds() == cl(x), "duration-to", "toNanoseconds %" PRIu64 " of %s", a.toNanoseconds(), show(x).c_str());
    PBT_CHECK(c, a.toMicroseconds() == cl(x / 1000), "duration-to", "toMicroseconds %" PRIu64 " of %s", a.toMicroseconds(), show(x).c_str());
    PBT_CHECK(c, a.toMilliseconds() == cl(x / 1000000), "duration-to", "toMilliseconds %" PRIu64 " of %s", a.toMilliseconds(), show(x).c_str());
    PBT_CHECK(c, a.toSeconds() == s1 && a.toMinutes() == s1 / 60 && a.toHours() == s1 / 3600 && a.toDays() == s1 / 86400, "duration-to", "conversion of %s to seconds, minutes, hours or days", show(x).c_str());
    const uint64_t smax = uint64_t(std::numeric_limits<time_t>::max());
    auto tv = a.timeval();
    PBT_CHECK(c, uint64_t(tv.tv_sec) == std::min(s1, smax) && uint64_t(tv.tv_usec) == (s1 > smax ? 999999 : n1 / 1000), "duration-to", "timeval of %s", show(x).c_str());
    auto ts = a.timespec();
    PBT_CHECK(c, uint64_t(ts.tv_sec) == std::min(s1, smax) && uint64_t(ts.tv_nsec) == (s1 > smax ? NS - 1 : n1), "duration-to", "timespec of %s", show(x).c_str());
    if (s1 <= smax)
    {
        is(c, Duration(ts), x, "duration from timespec");
        is(c, Duration(tv), x / 1000 * 1000, "duration from timeval");
        struct itimerspec its{};
        its.it_interval = ts;
        its.it_value.tv_sec = 3;
        is(c, Duration(its), x, "duration from itimerspec");
    }
    for (auto ref : {iox::units::TimeSpecReference::Monotonic, iox::units::TimeSpecReference::Epoch})
    {
        auto clk = ref == iox::units::TimeSpecReference::Monotonic ? CLOCK_MONOTONIC : CLOCK_REALTIME;
        struct timespec before, after;
        clock_gettime(clk, &before);
        auto r = a.timespec(ref);
        clock_gettime(clk, &after);
        U128 lo = sat(x, U128(before.tv_sec) * NS + before.tv_nsec), hi = sat(x, U128(after.tv_sec) * NS + after.tv_nsec);
        U128 lim = U128(smax) * NS + NS - 1;
        U128 got = U128(r.tv_sec) * NS + r.tv_nsec;
        PBT_CHECK(c, got >= std::min(lo, lim) && got <= std::min(hi, lim) && uint64_t(r.tv_nsec) < NS, "duration-to", "timespec relative to now of %s: %s", show(x).c_str(), show(got).c_str());
    }
    factories<int8_t>(c);
    factories<int32_t>(c);
    factories<uint32_t>(c);
    factories<int64_t>(c);
    factories<uint64_t>(c);
    mult<int8_t>(c, a, x);
    mult<uint16_t>(c, a, x);
    mult<int32_t>(c, a, x);
    mult<uint32_t>(c, a, x);
    mult<int64_t>(c, a, x);
    mult<uint64_t>(c, a, x);
    multFloat<float>(c, a, x);
    multFloat<double>(c, a, x);
    multFloat<double>(c, b, y);
    is(c, Duration::max(), maxNs(), "max");
    is(c, Duration::zero(), 0, "zero");
    {
        using namespace iox::units::duration_literals;
        is(c, 7_ns + 6_us + 5_ms + 4_s + 3_m + 2_h + 1_d, U128(7) + 6000 + 5000000 + U128(4 + 180 + 7200 + 86400) * NS, "literals");
        int64_t k = static_cast<int64_t>(c.u64b());
        U128 p = k < 0 ? 0 : uint64_t(k);
        is(c, iox::into<Duration>(std::chrono::nanoseconds(k)), p, "from chrono nanoseconds");
        is(c, iox::into<Duration>(std::chrono::microseconds(k)), p * 1000, "from chrono microseconds");
        is(c, iox::into<Duration>(std::chrono::milliseconds(k)), p * 1000000, "from chrono milliseconds");
        is(c, iox::into<Duration>(std::chrono::seconds(k)), p * NS, "from chrono seconds");
    }
    c.nontrivial(x > 0 && y > 0);
}
} // namespace

int main(int argc, char** argv)
{
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    std::vector<pbt::Test> tests;
    tests.push_back({"optional", optionalTest, 1.0, 20});
    tests.push_back({"variant", variantTest, 1.0, 20});
    tests.push_back({"expected", expectedTest, 1.0, 20});
    tests.push_back({"function", functionTest, 1.0, 20});
    tests.push_back({"owners", ownersTest, 1.0, 20});
    tests.push_back({"span", spanTest, 1.0, 20});
    tests.push_back({"duration", durationTest, 1.0, 20});
    return pbt::runAll(argc, argv, tests);
}
