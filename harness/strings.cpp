// Fixed-capacity strings (S17), conversions (S20) and name/path types (S21) against standard strings and written-out rules.
#include "iox/detail/convert.hpp"
#include "iox/detail/path_and_file_verifier.hpp"
#include "iox/file_name.hpp"
#include "iox/file_path.hpp"
#include "iox/group_name.hpp"
#include "iox/into.hpp"
#include "iox/logging.hpp"
#include "iox/path.hpp"
#include "iox/std_string_support.hpp"
#include "iox/string.hpp"
#include "iox/user_name.hpp"
#include "tracked.hpp"

#include <algorithm>
#include <cfloat>
#include <cmath>
#include <limits>
#include <memory>
#include <sstream>

using pbt::Case;
using iox::TruncateToCapacity;
using S = std::string;

namespace
{
int sgn(int64_t x)
{
    return (x > 0) - (x < 0);
}
S show(const S& s)
{
    S r = "\"";
    for (unsigned char ch : s)
    {
        if (ch >= 32 && ch < 127)
        {
            r += static_cast<char>(ch);
        }
        else
        {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", ch);
            r += b;
        }
    }
    return r + "\"";
}
/// few distinct characters so that matches happen; zero only if allowed
S text(Case& c, uint64_t maxLen, bool zeros)
{
    static const char AB[] = {'a', 'b', 'c', 'A', ' ', '.', char(0x80), char(0xff), '/', '0'};
    S s;
    uint64_t n = c.chance(1, 6) ? maxLen : c.draw(maxLen + 1);
    for (uint64_t i = 0; i < n; ++i)
    {
        uint64_t k = c.draw(c.chance(1, 3) ? sizeof(AB) : 3);
        s += (zeros && c.chance(1, 12)) ? '\0' : AB[k];
    }
    return s;
}
template <uint64_t N>
iox::string<N> mk(const S& s)
{
    return iox::string<N>(TruncateToCapacity, s.c_str(), s.size());
}
template <uint64_t N>
S get(const iox::string<N>& s)
{
    return S(s.c_str(), s.size());
}
template <uint64_t N>
struct Buf // a char array of known size
{
    char a[N];
    explicit Buf(const S& s, bool term = true)
    {
        memset(a, 0, N);
        memcpy(a, s.data(), std::min<size_t>(s.size(), term ? N - 1 : N));
    }
};
S upTo0(const S& s)
{
    return S(s.c_str());
}

template <uint64_t N>
void same(Case& c, const iox::string<N>& s, const S& m, const char* after)
{
    PBT_CHECK(c, s.size() == m.size(), "string-size", "size %" PRIu64 " but %zu expected after %s (%s)", s.size(), m.size(), after, show(m).c_str());
    PBT_CHECK(c, s.size() <= N, "string-size", "size above capacity after %s", after);
    PBT_CHECK(c, memcmp(s.c_str(), m.data(), m.size()) == 0, "string-content", "%s but %s expected after %s", show(get(s)).c_str(), show(m).c_str(), after);
    PBT_CHECK(c, s.c_str()[m.size()] == '\0', "string-termination", "not terminated after %s", after);
    PBT_CHECK(c, s.empty() == m.empty() && iox::string<N>::capacity() == N, "string-size", "empty/capacity wrong after %s", after);
}

template <typename A, typename B>
void relations(Case& c, const A& a, const B& b, const S& x, const S& y, const char* what)
{
    int e = sgn(x.compare(y));
    PBT_CHECK(c, (a == b) == (e == 0), "string-compare", "== %s: %s %s", what, show(x).c_str(), show(y).c_str());
    PBT_CHECK(c, (a != b) == (e != 0), "string-compare", "!= %s: %s %s", what, show(x).c_str(), show(y).c_str());
    PBT_CHECK(c, (a < b) == (e < 0), "string-compare", "< %s: %s %s", what, show(x).c_str(), show(y).c_str());
    PBT_CHECK(c, (a <= b) == (e <= 0), "string-compare", "<= %s: %s %s", what, show(x).c_str(), show(y).c_str());
    PBT_CHECK(c, (a > b) == (e > 0), "string-compare", "> %s: %s %s", what, show(x).c_str(), show(y).c_str());
    PBT_CHECK(c, (a >= b) == (e >= 0), "string-compare", ">= %s: %s %s", what, show(x).c_str(), show(y).c_str());
}

template <typename T>
void sameOpt(Case& c, const iox::optional<T>& o, size_t m, const char* what, const S& hay, const S& needle, uint64_t pos)
{
    PBT_CHECK(c, o.has_value() == (m != S::npos), "string-find", "%s(%s, %" PRIu64 ") in %s: has value %d", what, show(needle).c_str(), pos, show(hay).c_str(), (int)o.has_value());
    if (o.has_value())
    {
        PBT_CHECK(c, o.value() == m, "string-find", "%s(%s, %" PRIu64 ") in %s: %" PRIu64 " but %zu expected", what, show(needle).c_str(), pos, show(hay).c_str(), o.value(), m);
    }
}
template <typename STR, typename T>
void finds(Case& c, const STR& s, const S& m, const T& needle, const S& nm)
{
    uint64_t pos = c.chance(1, 8) ? c.u64b() : c.draw(m.size() + 3);
    if (m.find('\0') == S::npos && nm.find('\0') == S::npos)
    {
        sameOpt(c, s.find(needle, pos), pos > m.size() ? S::npos : m.find(nm, pos), "find", m, nm, pos);
        sameOpt(c, s.find(needle), m.find(nm), "find", m, nm, 0);
    }
    sameOpt(c, s.find_first_of(needle, pos), m.find_first_of(nm, pos), "find_first_of", m, nm, pos);
    sameOpt(c, s.find_first_of(needle), m.find_first_of(nm), "find_first_of", m, nm, 0);
    sameOpt(c, s.find_last_of(needle, pos), m.find_last_of(nm, pos), "find_last_of", m, nm, pos);
    sameOpt(c, s.find_last_of(needle), m.find_last_of(nm), "find_last_of", m, nm, 99999);
}
template <typename STR>
void substrs(Case& c, const STR& s, const S& m)
{
    uint64_t pos = c.chance(1, 8) ? c.u64b() : c.draw(m.size() + 3);
    uint64_t cnt = c.chance(1, 8) ? c.u64b() : c.draw(m.size() + 3);
    auto r = s.substr(pos, cnt);
    PBT_CHECK(c, r.has_value() == (pos <= m.size()), "string-substr", "substr(%" PRIu64 ",%" PRIu64 ") of size %zu has value %d", pos, cnt, m.size(), (int)r.has_value());
    if (r.has_value())
    {
        same(c, r.value(), m.substr(pos, cnt), "substr");
    }
    auto r2 = s.substr(pos);
    PBT_CHECK(c, r2.has_value() == (pos <= m.size()), "string-substr", "substr(%" PRIu64 ") of size %zu", pos, m.size());
    if (r2.has_value())
    {
        same(c, r2.value(), m.substr(pos), "substr(pos)");
    }
}
template <typename STR>
void appends(Case& c, STR& s, S& m)
{
    constexpr uint64_t N = STR::capacity();
    S x = text(c, N + 3, true);
    S before = m;
    bool unsafe = c.chance(1, 2);
    S added;
    bool res = false;
    switch (c.draw(6))
    {
    case 0:
    {
        auto o = mk<N + 4>(x);
        added = x;
        unsafe ? void(res = s.unsafe_append(o)) : void(s.append(TruncateToCapacity, o));
        break;
    }
    case 1:
    {
        Buf<N + 3> b(x);
        added = upTo0(S(b.a));
        unsafe ? void(res = s.unsafe_append(b.a)) : void(s.append(TruncateToCapacity, b.a));
        break;
    }
    case 2:
    {
        added = x;
        unsafe ? void(res = s.unsafe_append(x)) : void(s.append(TruncateToCapacity, x));
        break;
    }
    case 3:
    {
        char ch = x.empty() ? 'q' : x[0];
        added = S(1, ch);
        unsafe ? void(res = s.unsafe_append(ch)) : void(s.append(TruncateToCapacity, ch));
        break;
    }
    case 4:
        added = m;
        unsafe ? void(res = s.unsafe_append(s)) : void(s.append(TruncateToCapacity, s));
        break;
    default:
    {
        auto o = mk<2>(x);
        added = x.substr(0, 2);
        unsafe ? void(res = s.unsafe_append(o)) : void(s.append(TruncateToCapacity, o));
        break;
    }
    }
    c.log("%s %s to %s", unsafe ? "unsafe_append" : "append", show(added).c_str(), show(before).c_str());
    bool fits = before.size() + added.size() <= N;
    if (unsafe)
    {
        PBT_CHECK(c, res == fits, "string-append", "unsafe_append of %zu to %zu returned %d", added.size(), before.size(), (int)res);
        m = fits ? before + added : before;
    }
    else
    {
        m = (before + added).substr(0, N);
    }
    same(c, s, m, unsafe ? "unsafe_append" : "append");
}
template <typename STR>
void inserts(Case& c, STR& s, S& m)
{
    constexpr uint64_t N = STR::capacity();
    S x = text(c, N + 3, true);
    uint64_t pos = c.chance(1, 10) ? c.u64b() : c.draw(m.size() + 2);
    bool arr = c.chance(1, 3);
    S src = arr ? upTo0(x.substr(0, 6)) : x;
    uint64_t cnt = c.chance(1, 10) ? c.u64b() : c.draw(src.size() + 2);
    if (c.chance(1, 4) && m.size() <= N)
    {
        cnt = std::min<uint64_t>(N - m.size() + c.draw(2), src.size());
    }
    bool res;
    if (arr)
    {
        Buf<7> b(src);
        res = s.insert(pos, b.a, cnt);
    }
    else
    {
        auto o = mk<N + 4>(src);
        res = s.insert(pos, o, cnt);
    }
    bool ok = cnt <= src.size() && pos <= m.size() && m.size() + cnt <= N;
    c.log("insert(%" PRIu64 ", %s, %" PRIu64 ") into %s", pos, show(src).c_str(), cnt, show(m).c_str());
    PBT_CHECK(c, res == ok, "string-insert", "insert(%" PRIu64 ", %s, %" PRIu64 ") into %s (capacity %" PRIu64 ") returned %d", pos, show(src).c_str(), cnt, show(m).c_str(), N, (int)res);
    if (ok)
    {
        m.insert(pos, src.substr(0, cnt));
    }
    same(c, s, m, "insert");
}
template <uint64_t N>
void stringCase(Case& c)
{
    using STR = iox::string<N>;
    struct Guarded // detects writes next to the string even inside one allocation
    {
        uint64_t g1{0x5a5a5a5a5a5a5a5a};
        STR s;
        uint64_t g2{0xa5a5a5a5a5a5a5a5};
    };
    auto ga = std::make_unique<Guarded>();
    auto gb = std::make_unique<Guarded>();
    std::array<STR*, 2> v{&ga->s, &gb->s};
    std::array<S, 2> m;
    uint64_t ops = c.range(1, 25), done = 0;
    for (uint64_t k = 0; k < ops; ++k)
    {
        uint64_t i = c.draw(2), j = 1 - i;
        STR& s = *v[i];
        S& sm = m[i];
        switch (c.draw(16))
        {
        case 0:
        {
            S x = text(c, N + 4, true);
            uint64_t count = c.draw(x.size() + 1);
            c.log("construct %s count %" PRIu64, show(x).c_str(), count);
            if (c.chance(1, 2))
            {
                s = STR(TruncateToCapacity, x.c_str(), count);
                sm = x.substr(0, count).substr(0, N);
            }
            else
            {
                s = STR(TruncateToCapacity, x.c_str());
                sm = upTo0(x).substr(0, N);
            }
            break;
        }
        case 1:
        {
            S x = text(c, N + 2, true);
            auto p = std::make_unique<char[]>(x.size() + 1);
            memcpy(p.get(), x.c_str(), x.size() + 1);
            bool r = s.unsafe_assign(p.get());
            bool fits = upTo0(x).size() <= N;
            PBT_CHECK(c, r == fits, "string-assign", "unsafe_assign of %s returned %d (capacity %" PRIu64 ")", show(x).c_str(), (int)r, N);
            if (fits)
            {
                sm = upTo0(x);
            }
            PBT_CHECK(c, !s.unsafe_assign(nullptr), "string-assign", "unsafe_assign(nullptr) succeeded");
            PBT_CHECK(c, !s.unsafe_assign(s.c_str()), "string-assign", "unsafe_assign of itself succeeded");
            break;
        }
        case 2:
        {
            if (c.chance(1, 2))
            {
                s = *v[j];
            }
            else
            {
                s.assign(*v[j]);
            }
            sm = m[j];
            same(c, *v[j], m[j], "being copied");
            break;
        }
        case 3:
        {
            s = std::move(*v[j]);
            sm = m[j];
            m[j].clear();
            same(c, *v[j], m[j], "being moved");
            break;
        }
        case 4:
        {
            STR t(c.chance(1, 2) ? STR(s) : s);
            same(c, t, sm, "copy construction");
            STR u(std::move(t));
            same(c, u, sm, "move construction");
            same(c, t, S(), "being moved");
            auto& self = s;
            if (c.chance(1, 2))
            {
                s = self;
            }
            else
            {
                s = std::move(self);
            }
            break;
        }
        case 5:
        {
            constexpr uint64_t H = (N + 1) / 2;
            S x = text(c, H, true);
            auto o = mk<H>(x);
            switch (c.draw(4))
            {
            case 0:
                s = o;
                same(c, o, x, "being copied");
                break;
            case 1:
                s = std::move(o);
                same(c, o, N == H ? S() : S(), "being moved");
                break;
            case 2:
            {
                STR t(o);
                same(c, t, x, "construction from a smaller string");
                s = t;
                break;
            }
            default:
            {
                STR t(std::move(o));
                same(c, o, S(), "being moved");
                s = std::move(t);
                break;
            }
            }
            sm = x;
            break;
        }
        case 6:
        {
            bool term = c.chance(3, 4);
            S x = text(c, N + 1, true);
            if (!term)
            {
                x.resize(N + 1, 'z');
            }
            Buf<N + 1> b(x, term);
            c.log("assign char array %s", show(x).c_str());
            if (c.chance(1, 3))
            {
                STR t(b.a);
                s = t;
            }
            else if (c.chance(1, 2))
            {
                s = b.a;
            }
            else
            {
                s.assign(b.a);
            }
            sm = upTo0(x).substr(0, N);
            break;
        }
        case 7:
        case 8:
            appends(c, s, sm);
            break;
        case 9:
        case 10:
            inserts(c, s, sm);
            break;
        case 11:
            substrs(c, s, sm);
            break;
        case 12:
        {
            S x = c.chance(1, 3) && !sm.empty() ? sm.substr(c.draw(sm.size()), 1 + c.draw(3)) : text(c, 3, c.chance(1, 4));
            switch (c.draw(3))
            {
            case 0:
                finds(c, s, sm, mk<8>(x), x);
                break;
            case 1:
            {
                Buf<8> b(upTo0(x));
                finds(c, s, sm, b.a, upTo0(x));
                break;
            }
            default:
                finds(c, s, sm, x, x);
            }
            break;
        }
        case 13:
        {
            S x = c.chance(1, 3) ? sm : c.chance(1, 3) ? sm.substr(0, c.draw(sm.size() + 1)) : text(c, N + 2, true);
            if (!x.empty() && c.chance(1, 3))
            {
                x[c.draw(x.size())] ^= char(1 + c.draw(255));
            }
            constexpr uint64_t K = N + 3;
            auto o = mk<K>(x);
            x = x.substr(0, K);
            relations(c, s, o, sm, x, "string/string");
            relations(c, o, s, x, sm, "string/string");
            PBT_CHECK(c, sgn(s.compare(o)) == sgn(sm.compare(x)), "string-compare", "compare %s %s", show(sm).c_str(), show(x).c_str());
            relations(c, s, x, sm, x, "string/std");
            relations(c, x, s, x, sm, "std/string");
            Buf<K + 1> b(upTo0(x));
            relations(c, s, b.a, sm, upTo0(x), "string/array");
            relations(c, b.a, s, upTo0(x), sm, "array/string");
            char ch = x.empty() ? 'a' : x[0];
            relations(c, s, ch, sm, S(1, ch), "string/char");
            relations(c, ch, s, S(1, ch), sm, "char/string");
            PBT_CHECK(c, sgn(s.compare(ch)) == sgn(sm.compare(S(1, ch))), "string-compare", "compare with char");
            break;
        }
        case 14:
        {
            constexpr uint64_t K = 5;
            S x = text(c, K, true);
            auto o = mk<K>(x);
            Buf<4> b(upTo0(text(c, 3, false)));
            S bs(b.a);
            char ch = char('a' + c.draw(3));
            same(c, s + o, sm + x, "string + string");
            same(c, s + b.a, sm + bs, "string + array");
            same(c, b.a + s, bs + sm, "array + string");
            same(c, s + ch, sm + ch, "string + char");
            same(c, ch + s, ch + sm, "char + string");
            same(c, iox::concatenate(s, o, b.a, ch, s), sm + x + bs + ch + sm, "concatenate");
            break;
        }
        default:
        {
            switch (c.draw(5))
            {
            case 0:
                s.clear();
                sm.clear();
                break;
            case 1:
            {
                S x = text(c, N, true);
                uint64_t seenSize = 0, seenTotal = 0;
                s.unsafe_raw_access([&](char* p, const iox::BufferInfo info) -> uint64_t {
                    seenSize = info.used_size;
                    seenTotal = info.total_size;
                    memcpy(p, x.data(), x.size());
                    p[x.size()] = '\0';
                    return x.size();
                });
                PBT_CHECK(c, seenSize == sm.size() && seenTotal == N + 1, "string-raw", "raw access was told %" PRIu64 "/%" PRIu64, seenSize, seenTotal);
                sm = x;
                break;
            }
            case 2:
                if (!sm.empty())
                {
                    uint64_t p = c.draw(sm.size());
                    PBT_CHECK(c, s.at(p) == sm[p] && s[p] == sm[p] && const_cast<const STR&>(s).at(p) == sm[p] && const_cast<const STR&>(s)[p] == sm[p] && s.unchecked_at(p) == sm[p], "string-at", "wrong character at %" PRIu64, p);
                    char ch = char('a' + c.draw(4));
                    (c.chance(1, 2) ? s.at(p) : s[p]) = ch;
                    sm[p] = ch;
                }
                break;
            case 3:
            {
                PBT_CHECK(c, iox::into<S>(s) == sm, "string-into", "into<std::string> of %s", show(sm).c_str());
                std::ostringstream os;
                os << s;
                PBT_CHECK(c, os.str() == upTo0(sm), "string-into", "stream of %s", show(sm).c_str());
                S x = text(c, N + 3, true);
                auto o = iox::into<iox::optional<STR>>(x);
                PBT_CHECK(c, o.has_value() == (x.size() <= N), "string-into", "into<optional> of %zu characters", x.size());
                if (o.has_value())
                {
                    same(c, o.value(), x, "into<optional>");
                }
                same(c, STR(iox::into<iox::lossy<STR>>(x)), x.substr(0, N), "into<lossy>");
                auto cv = iox::convert::from_string<STR>(x.c_str());
                PBT_CHECK(c, cv.has_value() == (upTo0(x).size() <= N), "string-into", "from_string of %s", show(x).c_str());
                if (cv.has_value())
                {
                    same(c, cv.value(), upTo0(x), "from_string");
                }
                break;
            }
            default:
                if (c.chance(1, 20))
                {
                    uint64_t p = sm.size() + (c.chance(1, 3) ? c.u64b() % 1000000 : c.draw(3));
                    PBT_CHECK(c, tr::dies([&] {
                                  volatile char x = c.draw(2) ? s.at(p) : s[p];
                                  (void)x;
                              }),
                              "string-at", "access at %" PRIu64 " beyond size %zu was not refused", p, sm.size());
                }
            }
            break;
        }
        }
        same(c, s, sm, "operation");
        same(c, *v[j], m[j], "operation on another string");
        PBT_CHECK(c, ga->g1 == 0x5a5a5a5a5a5a5a5a && ga->g2 == 0xa5a5a5a5a5a5a5a5 && gb->g1 == ga->g1 && gb->g2 == ga->g2, "string-overrun", "memory next to the string was overwritten");
        if (!sm.empty())
        {
            ++done;
        }
    }
    c.nontrivial(done >= 3);
}
void stringTest(Case& c)
{
    switch (c.draw(5))
    {
    case 0:
        return stringCase<1>(c);
    case 1:
        return stringCase<5>(c);
    case 2:
        return stringCase<8>(c);
    case 3:
        return stringCase<16>(c);
    default:
        return stringCase<100>(c);
    }
}

// ------------------------------------------------------------------ numbers (S20)
bool isSpace(char ch)
{
    return ch == ' ' || (ch >= '\t' && ch <= '\r');
}
struct Num
{
    bool syntax{false};
    bool neg{false};
    bool huge{false};
    unsigned __int128 mag{0};
};
Num parseInt(const S& s)
{
    Num n;
    size_t i = 0;
    while (i < s.size() && isSpace(s[i]))
    {
        ++i;
    }
    if (i < s.size() && (s[i] == '+' || s[i] == '-'))
    {
        n.neg = s[i] == '-';
        ++i;
    }
    size_t digits = 0;
    for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i, ++digits)
    {
        n.mag = n.mag * 10 + unsigned(s[i] - '0');
        if (n.mag >> 70)
        {
            n.huge = true;
            n.mag = 1;
        }
    }
    n.syntax = digits > 0 && i == s.size();
    return n;
}
template <typename T>
void intCheck(Case& c, const char* name, const S& s)
{
    errno = int(c.draw(2)) * ERANGE;
    auto r = iox::convert::from_string<T>(s.c_str());
    Num n = parseInt(s);
    bool ok = n.syntax && !n.huge;
    using L = std::numeric_limits<T>;
    if (ok && n.neg)
    {
        ok = std::is_signed<T>::value && n.mag <= static_cast<unsigned __int128>(-(static_cast<__int128>(L::lowest())));
    }
    else if (ok)
    {
        ok = n.mag <= static_cast<unsigned __int128>(L::max());
    }
    PBT_CHECK(c, r.has_value() == ok, "convert-accept", "from_string<%s>(%s) %s", name, show(s).c_str(), ok ? "was refused" : "was accepted");
    if (ok)
    {
        T want = static_cast<T>(n.neg ? -static_cast<__int128>(n.mag) : static_cast<__int128>(n.mag));
        PBT_CHECK(c, r.value() == want, "convert-value", "from_string<%s>(%s) has the wrong value", name, show(s).c_str());
        c.nontrivial(true);
    }
}
template <typename T>
void intRound(Case& c, const char* name)
{
    T v = static_cast<T>(c.u64b());
    S s = iox::convert::toString(v);
    PBT_CHECK(c, s == std::to_string(v), "convert-to", "toString<%s>: %s but %s", name, s.c_str(), std::to_string(v).c_str());
    auto r = iox::convert::from_string<T>(s.c_str());
    PBT_CHECK(c, r.has_value() && r.value() == v, "convert-round", "%s does not survive the round trip as %s", s.c_str(), name);
}
S intText(Case& c)
{
    S s;
    if (c.chance(1, 6))
    {
        static const char W[] = " \t\n\v\f\r";
        for (uint64_t i = 0, n = c.range(1, 3); i < n; ++i)
        {
            s += W[c.draw(6)];
        }
    }
    if (c.chance(1, 3))
    {
        s += c.chance(2, 3) ? "-" : "+";
    }
    switch (c.draw(6))
    {
    case 0: // near a power of two
    {
        unsigned __int128 v = static_cast<unsigned __int128>(1) << c.draw(67);
        int64_t d = static_cast<int64_t>(c.draw(5)) - 2;
        v = (d < 0 && v < 2) ? v : v + static_cast<__int128>(d);
        S t;
        do
        {
            t.insert(t.begin(), char('0' + unsigned(v % 10)));
            v /= 10;
        } while (v != 0);
        s += S(c.chance(1, 8) ? c.draw(30) : 0, '0') + t;
        break;
    }
    case 1:
        s += std::to_string(c.u64b());
        break;
    case 2:
        s += std::to_string(c.draw(300));
        break;
    case 3:
        for (uint64_t i = 0, n = c.draw(25); i < n; ++i)
        {
            s += char('0' + c.draw(10));
        }
        break;
    case 4:
        break;
    default:
    {
        static const char X[] = "0123456789+- \txXaAbBeE.,_nNiIfF";
        for (uint64_t i = 0, n = c.draw(8); i < n; ++i)
        {
            s += X[c.draw(sizeof(X) - 1)];
        }
    }
    }
    if (c.chance(1, 6))
    {
        static const char* T[] = {" ", "x", "-", "0", ".0", "e3", "\n", "u", "L"};
        s += T[c.draw(9)];
    }
    return s;
}
/// ISO C syntax of a floating point number, after optional white space
bool floatSyntax(const S& s0)
{
    size_t i = 0;
    S s;
    for (char ch : s0)
    {
        s += char(tolower(ch));
    }
    while (i < s.size() && isSpace(s[i]))
    {
        ++i;
    }
    if (i < s.size() && (s[i] == '+' || s[i] == '-'))
    {
        ++i;
    }
    S r = s.substr(i);
    if (r == "inf" || r == "infinity" || r == "nan")
    {
        return true;
    }
    if (r.compare(0, 4, "nan(") == 0)
    {
        for (size_t k = 4; k < r.size(); ++k)
        {
            if (r[k] == ')')
            {
                return k + 1 == r.size();
            }
            if (!isalnum(static_cast<unsigned char>(r[k])) && r[k] != '_')
            {
                return false;
            }
        }
        return false;
    }
    bool hex = r.compare(0, 2, "0x") == 0;
    size_t k = hex ? 2 : 0, d = 0;
    auto digit = [&](char ch) { return hex ? isxdigit(static_cast<unsigned char>(ch)) != 0 : isdigit(static_cast<unsigned char>(ch)) != 0; };
    for (; k < r.size() && digit(r[k]); ++k, ++d)
    {
    }
    if (k < r.size() && r[k] == '.')
    {
        for (++k; k < r.size() && digit(r[k]); ++k, ++d)
        {
        }
    }
    if (d == 0)
    {
        return false;
    }
    if (k < r.size() && r[k] == (hex ? 'p' : 'e'))
    {
        size_t e = 0;
        ++k;
        if (k < r.size() && (r[k] == '+' || r[k] == '-'))
        {
            ++k;
        }
        for (; k < r.size() && isdigit(static_cast<unsigned char>(r[k])); ++k, ++e)
        {
        }
        return e > 0 && k == r.size();
    }
    return k == r.size();
}
float ref(const char* s, float)
{
    return strtof(s, nullptr);
}
double ref(const char* s, double)
{
    return strtod(s, nullptr);
}
long double ref(const char* s, long double)
{
    return strtold(s, nullptr);
}
template <typename T>
void floatCheck(Case& c, const char* name, const S& s)
{
    errno = int(c.draw(2)) * ERANGE;
    auto r = iox::convert::from_string<T>(s.c_str());
    bool syntax = floatSyntax(s);
    errno = 0;
    T want = ref(s.c_str(), T());
    bool range = errno != 0;
    bool ok = syntax && !range && (std::isnan(want) || std::isinf(want) || want == 0 || std::isnormal(want));
    PBT_CHECK(c, r.has_value() == ok, "convert-accept", "from_string<%s>(%s) %s", name, show(s).c_str(), ok ? "was refused" : "was accepted");
    if (ok)
    {
        PBT_CHECK(c, (std::isnan(want) && std::isnan(r.value())) || (r.value() == want && std::signbit(r.value()) == std::signbit(want)), "convert-value", "from_string<%s>(%s) is %.21Lg", name, show(s).c_str(), static_cast<long double>(r.value()));
        c.nontrivial(true);
    }
}
template <typename T>
void floatRound(Case& c, const char* name)
{
    T v;
    if (c.chance(1, 2))
    {
        v = std::ldexp(static_cast<T>(static_cast<int64_t>(c.u64())), static_cast<int>(c.draw(2 * std::numeric_limits<T>::max_exponent)) - std::numeric_limits<T>::max_exponent - 63);
    }
    else
    {
        v = static_cast<T>(static_cast<int64_t>(c.u64b())) / static_cast<T>(1 + c.draw(1000));
    }
    char b[128];
    snprintf(b, sizeof b, c.chance(1, 2) ? "%.*Le" : "%.*Lg", std::numeric_limits<T>::max_digits10, static_cast<long double>(v));
    auto r = iox::convert::from_string<T>(b);
    if (std::isnormal(v) || v == 0)
    {
        PBT_CHECK(c, r.has_value() && r.value() == v, "convert-round", "%s does not survive the round trip as %s", b, name);
    }
    snprintf(b, sizeof b, "%La", static_cast<long double>(v));
    auto r2 = iox::convert::from_string<T>(b);
    if (std::isnormal(v) || v == 0)
    {
        PBT_CHECK(c, r2.has_value() && r2.value() == v, "convert-round", "%s does not survive the round trip as %s", b, name);
    }
}
void convertTest(Case& c)
{
    if (c.chance(2, 3))
    {
        S s = intText(c);
        c.log("text %s", show(s).c_str());
        intCheck<int8_t>(c, "int8_t", s);
        intCheck<uint8_t>(c, "uint8_t", s);
        intCheck<int16_t>(c, "int16_t", s);
        intCheck<uint16_t>(c, "uint16_t", s);
        intCheck<int32_t>(c, "int32_t", s);
        intCheck<uint32_t>(c, "uint32_t", s);
        intCheck<int64_t>(c, "int64_t", s);
        intCheck<uint64_t>(c, "uint64_t", s);
        intCheck<long long>(c, "long long", s);
        intCheck<unsigned long long>(c, "unsigned long long", s);
        intCheck<bool>(c, "bool", s);
        auto ch = iox::convert::from_string<char>(s.c_str());
        PBT_CHECK(c, ch.has_value() == (s.size() == 1) && (s.size() != 1 || ch.value() == s[0]), "convert-accept", "from_string<char>(%s)", show(s).c_str());
        auto st = iox::convert::from_string<S>(s.c_str());
        PBT_CHECK(c, st.has_value() && st.value() == s, "convert-value", "from_string<std::string>(%s)", show(s).c_str());
        auto is = iox::convert::from_string<iox::string<6>>(s.c_str());
        PBT_CHECK(c, is.has_value() == (s.size() <= 6) && (s.size() > 6 || get(is.value()) == s), "convert-value", "from_string<iox::string>(%s)", show(s).c_str());
        if (c.chance(1, 2))
        {
            intRound<int8_t>(c, "int8_t");
            intRound<uint8_t>(c, "uint8_t");
            intRound<int16_t>(c, "int16_t");
            intRound<uint16_t>(c, "uint16_t");
            intRound<int32_t>(c, "int32_t");
            intRound<uint32_t>(c, "uint32_t");
            intRound<int64_t>(c, "int64_t");
            intRound<uint64_t>(c, "uint64_t");
            intRound<long long>(c, "long long");
            intRound<unsigned long long>(c, "unsigned long long");
            PBT_CHECK(c, iox::convert::toString(s) == s && iox::convert::toString(s.c_str()) == s, "convert-to", "toString of a string");
            char x = char('!' + c.draw(90));
            PBT_CHECK(c, iox::convert::toString(x) == S(1, x), "convert-to", "toString of a character");
        }
        floatCheck<double>(c, "double", s);
        return;
    }
    S s;
    switch (c.draw(4))
    {
    case 0:
    {
        static const char* X[] = {"inf", "-inf", "INFINITY", "nan", "NaN", "nan(12)", "infinit", "in", "1e38", "3.4028235e38", "3.4028236e38", "1e39", "1.17549435e-38", "1e-38", "1e-45", "1.7976931348623157e308", "1.8e308", "2.2250738585072014e-308", "2.2e-308", "1e-400", "0x1p-126", "0x1p-127", "0x1p-1022", "0x1p-1023", "0x1.fffffffffffffp1023", "1e4932", "1.2e4932", "3.4e-4932", "3.3e-4932", "-0", "-0.0", "0x", "0x.p1", ".", "e5", "1e", "1e+", "0x1p", "+.5", "5.", "1.5f", "1,5", "--1", "+-1"};
        s = X[c.draw(sizeof(X) / sizeof(*X))];
        break;
    }
    case 1:
        s = intText(c);
        break;
    default:
    {
        static const char X[] = "0123456789....eE+-xpPaf ";
        for (uint64_t i = 0, n = c.draw(10); i < n; ++i)
        {
            s += X[c.draw(sizeof(X) - 1)];
        }
    }
    }
    c.log("text %s", show(s).c_str());
    floatCheck<float>(c, "float", s);
    floatCheck<double>(c, "double", s);
    floatCheck<long double>(c, "long double", s);
    floatRound<float>(c, "float");
    floatRound<double>(c, "double");
    floatRound<long double>(c, "long double");
}

// ------------------------------------------------------------------ names and paths (S21)
bool nameChar(char ch)
{
    return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '-' || ch == '.' || ch == ':' || ch == '_';
}
bool pathChar(char ch)
{
    return nameChar(ch) || ch == '/';
}
bool userChar(char ch)
{
    return (ch >= 'a' && ch <= 'z') || (ch >= '0' && ch <= '9') || ch == '-';
}
bool all(const S& s, bool (*f)(char))
{
    return std::all_of(s.begin(), s.end(), f);
}
bool entryOk(const S& s) // of a path: a directory or file name
{
    return !s.empty() && all(s, nameChar) && s.back() != '.';
}
bool dirPathOk(const S& s)
{
    if (s.empty())
    {
        return false;
    }
    std::stringstream ss(s);
    S e;
    while (std::getline(ss, e, '/'))
    {
        if (!(e.empty() || e == "." || e == ".." || entryOk(e)))
        {
            return false;
        }
    }
    return true;
}
bool filePathOk(const S& s)
{
    size_t p = s.rfind('/');
    if (p == S::npos)
    {
        return entryOk(s);
    }
    S dir = s.substr(0, p);
    return entryOk(s.substr(p + 1)) && (dir.empty() || dirPathOk(dir));
}
bool yes(const S&)
{
    return true;
}
bool fileNameOk(const S& s)
{
    return !s.empty() && s != "." && s != "..";
}
bool userOk(const S& s)
{
    return !s.empty() && s[0] != '-' && !(s[0] >= '0' && s[0] <= '9');
}
S nameText(Case& c, uint64_t maxLen)
{
    S s;
    static const char V[] = "ab/..-_:0Z9za";
    uint64_t n = c.chance(1, 12) ? maxLen - c.draw(3) : c.draw(std::min<uint64_t>(maxLen, 14) + 1);
    bool clean = c.chance(4, 5);
    bool user = c.chance(1, 3);
    for (uint64_t i = 0; i < n; ++i)
    {
        if (user)
        {
            s += "abz09-"[c.draw(6)];
        }
        else if (!clean && c.chance(1, 5))
        {
            s += char(1 + c.draw(255));
        }
        else
        {
            s += V[c.draw(sizeof(V) - 1)];
        }
    }
    return s;
}
using iox::SemanticStringError;
/// 0: fine
int judge(const S& s, uint64_t cap, bool (*chr)(char), bool (*content)(const S&))
{
    return s.size() > cap ? 1 : !all(s, chr) ? 2 : !content(s) ? 3 : 0;
}
int code(SemanticStringError e)
{
    return e == SemanticStringError::ExceedsMaximumLength ? 1 : e == SemanticStringError::ContainsInvalidCharacters ? 2 : 3;
}
template <typename T>
void semantic(Case& c, const char* type, bool (*chr)(char), bool (*content)(const S&))
{
    constexpr uint64_t CAP = T::capacity();
    using STR = iox::string<CAP>;
    S s = nameText(c, CAP);
    s = s.substr(0, CAP);
    c.log("%s %s", type, show(s).c_str());
    auto r = T::create(mk<CAP>(s));
    int want = judge(s, CAP, chr, content);
    PBT_CHECK(c, r.has_error() == (want != 0), "name-accept", "%s::create(%s) %s", type, show(s).c_str(), want ? "was accepted" : "was refused");
    if (want)
    {
        PBT_CHECK(c, code(r.error()) == want, "name-error", "%s::create(%s) reports %d instead of %d", type, show(s).c_str(), code(r.error()), want);
        return;
    }
    PBT_CHECK(c, get(r->as_string()) == s && r->size() == s.size(), "name-content", "%s::create(%s) contains %s", type, show(s).c_str(), show(get(r->as_string())).c_str());
    { // short strings of other capacities and char arrays
        S t = s.substr(0, 12);
        Buf<13> b(t);
        int w = judge(t, CAP, chr, content);
        auto q = T::create(b.a);
        PBT_CHECK(c, q.has_error() == (w != 0) && (w == 0 ? get(q->as_string()) == t : code(q.error()) == w), "name-accept", "%s::create of array %s", type, show(t).c_str());
        auto q2 = T::create(mk<12>(t));
        PBT_CHECK(c, q2.has_error() == (w != 0) && (w == 0 ? get(q2->as_string()) == t : code(q2.error()) == w), "name-accept", "%s::create of string<12> %s", type, show(t).c_str());
        S l = s + S(CAP, 'a');
        auto q3 = T::create(mk<2 * CAP>(l));
        PBT_CHECK(c, l.size() <= CAP || (q3.has_error() && code(q3.error()) == 1), "name-accept", "%s::create accepted %zu characters", type, l.size());
        if (w == 0)
        {
            relations(c, *r, *q, s, t, "name/name");
            relations(c, *r, q->as_string(), s, t, "name/string");
            relations(c, *r, b.a, s, t, "name/array");
            relations(c, *r, t, s, t, "name/std");
        }
    }
    uint64_t okOps = 0;
    for (uint64_t k = 0, n = c.draw(6); k < n; ++k)
    {
        S x = nameText(c, c.chance(1, 8) ? CAP : 6).substr(0, CAP);
        bool app = c.chance(1, 2);
        uint64_t pos = app ? s.size() : c.draw(s.size() + 2);
        uint64_t cnt = app ? x.size() : c.draw(x.size() + 2);
        S res;
        int w;
        if (cnt > x.size() || pos > s.size() || s.size() + cnt > CAP)
        {
            w = 1;
        }
        else
        {
            res = s;
            res.insert(pos, x.substr(0, cnt));
            w = judge(res, CAP, chr, content);
        }
        // known finding: the rules about the content are applied to what is inserted, not to the result
        int w0 = (w == 0 || w == 3) ? (content(x) ? 0 : 3) : w;
        bool strict = c.chance(1, 16);
        bool arr = x.size() < 8 && c.chance(1, 3);
        Buf<8> b(x.substr(0, 7));
        STR xs = mk<CAP>(x);
        auto q = app ? (arr ? r->append(b.a) : r->append(xs)) : (arr ? r->insert(pos, b.a, cnt) : r->insert(pos, xs, cnt));
        c.log("%s %s at %" PRIu64 " count %" PRIu64 " into %s", app ? "append" : "insert", show(x).c_str(), pos, cnt, show(s).c_str());
        int got = q.has_error() ? code(q.error()) : 0;
        if (got != w && got == w0)
        {
            if (strict)
            {
                c.fail("insert-judges-inserted-part", S(type) + " " + show(s) + ": inserting " + show(x) + (w ? " was accepted" : " was refused"));
            }
            w = w0;
        }
        PBT_CHECK(c, q.has_error() == (w != 0), "name-modify", "%s %s: %s %s at %" PRIu64 " count %" PRIu64 " %s", type, show(s).c_str(), app ? "append" : "insert", show(x).c_str(), pos, cnt, w ? "was accepted" : "was refused");
        if (w)
        {
            PBT_CHECK(c, code(q.error()) == w, "name-error", "%s %s: inserting %s reports %d instead of %d", type, show(s).c_str(), show(x).c_str(), code(q.error()), w);
        }
        else
        {
            s = res;
            ++okOps;
        }
        PBT_CHECK(c, get(r->as_string()) == s, "name-content", "%s is %s but %s expected", type, show(get(r->as_string())).c_str(), show(s).c_str());
    }
    c.nontrivial(s.size() >= 2 || okOps > 0);
}
void namesTest(Case& c)
{
    switch (c.draw(6))
    {
    case 0:
        return semantic<iox::FileName>(c, "FileName", nameChar, fileNameOk);
    case 1:
        return semantic<iox::FilePath>(c, "FilePath", pathChar, filePathOk);
    case 2:
        return semantic<iox::Path>(c, "Path", pathChar, yes);
    case 3:
        return semantic<iox::UserName>(c, "UserName", userChar, userOk);
    case 4:
        return semantic<iox::GroupName>(c, "GroupName", userChar, userOk);
    default:
    {
        constexpr uint64_t N = 64;
        S s = nameText(c, N).substr(0, N);
        auto x = mk<N>(s);
        c.log("verify %s", show(s).c_str());
        using R = iox::detail::RelativePathComponents;
        bool rel = s == "." || s == "..";
        bool entry = all(s, nameChar) && (s.empty() || s.back() != '.');
        PBT_CHECK(c, iox::detail::isValidPathEntry(x, R::Accept) == (rel || entry), "verifier", "isValidPathEntry(%s, Accept)", show(s).c_str());
        PBT_CHECK(c, iox::detail::isValidPathEntry(x, R::Reject) == (!rel && entry), "verifier", "isValidPathEntry(%s, Reject)", show(s).c_str());
        PBT_CHECK(c, iox::detail::isValidFileName(x) == entryOk(s), "verifier", "isValidFileName(%s)", show(s).c_str());
        PBT_CHECK(c, iox::detail::isValidPathToFile(x) == filePathOk(s), "verifier", "isValidPathToFile(%s)", show(s).c_str());
        PBT_CHECK(c, iox::detail::isValidPathToDirectory(x) == dirPathOk(s), "verifier", "isValidPathToDirectory(%s)", show(s).c_str());
        PBT_CHECK(c, iox::detail::doesEndWithPathSeparator(x) == (!s.empty() && s.back() == '/'), "verifier", "doesEndWithPathSeparator(%s)", show(s).c_str());
        c.nontrivial(s.size() >= 2);
    }
    }
}
} // namespace

int main(int argc, char** argv)
{
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    std::vector<pbt::Test> tests;
    tests.push_back({"string", stringTest, 1.0, 20});
    tests.push_back({"convert", convertTest, 1.0, 20});
    tests.push_back({"names", namesTest, 1.0, 20});
    return pbt::runAll(argc, argv, tests);
}
