// Linearizability by search over small histories (Wing & Gong with memoisation).
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>

namespace lin
{
/// One linearization point. An operation of the code under test consists of one or more of them; `after` names the
/// index of a point that has to take effect before this one (-1: none).
template <typename State>
struct Point
{
    uint64_t from{0};
    uint64_t to{0};
    int after{-1};
    std::function<bool(State&)> apply; // false: cannot take effect in this state
    std::string text;
};

/// State needs: copy, and key() -> std::string
template <typename State>
bool check(const std::vector<Point<State>>& pts, const State& init, uint64_t budget, bool& exhausted)
{
    const size_t n = pts.size();
    exhausted = false;
    if (n > 60)
    {
        exhausted = true;
        return true;
    }
    std::unordered_set<std::string> seen;
    uint64_t nodes = 0;
    std::function<bool(uint64_t, const State&)> rec = [&](uint64_t done, const State& s) -> bool {
        if (done == (n == 64 ? ~0ULL : (1ULL << n) - 1))
        {
            return true;
        }
        if (++nodes > budget)
        {
            exhausted = true;
            return true;
        }
        std::string k(reinterpret_cast<const char*>(&done), 8);
        k += s.key();
        if (!seen.insert(std::move(k)).second)
        {
            return false;
        }
        // a point may be next when no pending point ended before it started
        uint64_t firstEnd = ~0ULL;
        for (size_t i = 0; i < n; ++i)
        {
            if (!(done >> i & 1) && pts[i].to < firstEnd)
            {
                firstEnd = pts[i].to;
            }
        }
        for (size_t i = 0; i < n; ++i)
        {
            if ((done >> i & 1) || pts[i].from > firstEnd)
            {
                continue;
            }
            if (pts[i].after >= 0 && !(done >> pts[i].after & 1))
            {
                continue;
            }
            State t = s;
            if (!pts[i].apply(t))
            {
                continue;
            }
            if (rec(done | 1ULL << i, t))
            {
                return true;
            }
        }
        return false;
    };
    return rec(0, init);
}
} // namespace lin
