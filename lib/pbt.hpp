// Small property-based-testing engine used by every harness in /verif.
//
// A test case is a sequence of bounded choices. In generation mode the choices come from a PRNG that is a pure
// function of (VERIF_SEED, test name, shard, case index); in replay mode they come from a replay file. Because every
// decision of a generator, a schedule or a fault injector goes through Case::draw, one generic shrinker (delete
// blocks, zero blocks, minimise single choices) works for values, operation histories, schedules and crash points.
//
// Each worker is a forked process, so a crash, a std::terminate or a hang of the code under test is an observation
// and not the end of the run. A failure is re-executed in fresh processes before it is reported.
#pragma once
#include <algorithm>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
struct Failure
{
    std::string key;
    std::string msg;
};

/// thrown when a case cannot be judged (e.g. the step budget of a schedule ran out); counted, never reported
struct Discard
{
    std::string why;
};

inline uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string& s)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s)
    {
        h = (h ^ c) * 1099511628211ULL;
    }
    return mix(h);
}
inline double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

/// what survives of a case whose process died
struct Mirror
{
    static constexpr uint64_t MAX = 4000000;
    uint64_t n;
    std::size_t logLen;
    char log[128 * 1024];
    uint32_t choices[MAX];
};

class Case
{
  public:
    explicit Case(uint64_t seed)
        : m_state(seed)
    {
    }
    explicit Case(std::vector<uint32_t> choices)
        : m_choices(std::move(choices))
        , m_replay(true)
    {
    }

    /// the only source of nondeterminism: a value in [0, n)
    uint32_t draw(uint32_t n)
    {
        if (n <= 1)
        {
            return 0;
        }
        uint32_t v;
        if (m_replay)
        {
            v = m_pos < m_choices.size() ? m_choices[m_pos] % n : 0;
            ++m_pos;
        }
        else
        {
            m_state += 0x9E3779B97F4A7C15ULL;
            v = static_cast<uint32_t>((mix(m_state) >> 11) % n);
            m_choices.push_back(v);
            if (m_mirror != nullptr && m_mirror->n < Mirror::MAX)
            {
                m_mirror->choices[m_mirror->n] = v;
                ++m_mirror->n;
            }
        }
        return v;
    }
    uint32_t range(uint32_t lo, uint32_t hi) // inclusive
    {
        return lo + draw(hi - lo + 1);
    }
    bool chance(uint32_t num, uint32_t den)
    {
        // inverted so that the shrunk value 0 means "no"
        return draw(den) >= den - num;
    }
    uint64_t u64()
    {
        uint64_t a = draw(1U << 16);
        uint64_t b = draw(1U << 16);
        uint64_t c = draw(1U << 16);
        uint64_t d = draw(1U << 16);
        return (a << 48) | (b << 32) | (c << 16) | d;
    }
    /// 64 bit value with boundary bias
    uint64_t u64b()
    {
        switch (draw(6))
        {
        case 0:
            return draw(16);
        case 1:
        {
            uint64_t p = 1ULL << draw(64);
            return p + draw(5) - 2;
        }
        case 2:
            return ~static_cast<uint64_t>(0) - draw(16);
        case 3:
            return (1ULL << 63) - 8 + draw(16);
        case 4:
        {
            uint64_t bits = draw(64);
            return u64() >> bits;
        }
        default:
            return u64();
        }
    }
    template <typename T>
    const T& pick(const std::vector<T>& v)
    {
        return v[draw(static_cast<uint32_t>(v.size()))];
    }
    template <typename T>
    T of(std::initializer_list<T> l)
    {
        return *(l.begin() + draw(static_cast<uint32_t>(l.size())));
    }
    /// weighted choice, returns the index
    uint32_t weighted(std::initializer_list<uint32_t> w)
    {
        uint32_t sum = 0;
        for (auto x : w)
        {
            sum += x;
        }
        uint32_t r = draw(sum);
        uint32_t i = 0;
        for (auto x : w)
        {
            if (r < x)
            {
                return i;
            }
            r -= x;
            ++i;
        }
        return 0;
    }

    [[noreturn]] void fail(const std::string& key, const std::string& msg)
    {
        log("FAIL %s: %s", key.c_str(), msg.c_str());
        throw Failure{key, msg};
    }
    void check(bool cond, const char* key, const std::string& msg = "")
    {
        if (!cond)
        {
            fail(key, msg);
        }
    }
    [[noreturn]] void discard(const std::string& why)
    {
        throw Discard{why};
    }
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char buf[512];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof(buf), fmt, ap);
        va_end(ap);
        m_hash = mix(m_hash ^ hashStr(buf));
        if (m_log.size() < 64 * 1024)
        {
            m_log += buf;
            m_log += '\n';
            if (m_mirror != nullptr)
            {
                const std::size_t l = std::min(strlen(buf), sizeof(m_mirror->log) - 2 - m_mirror->logLen);
                memcpy(m_mirror->log + m_mirror->logLen, buf, l);
                m_mirror->logLen += l;
                if (m_mirror->logLen < sizeof(m_mirror->log) - 2)
                {
                    m_mirror->log[m_mirror->logLen++] = '\n';
                }
            }
        }
        if (m_echo)
        {
            fprintf(stderr, "%s\n", buf);
        }
    }
    void nontrivial(bool b = true)
    {
        m_nontrivial = b;
    }
    /// named distribution counter
    void count(const char* bucket, uint64_t n = 1)
    {
        m_buckets[bucket] += n;
    }

    std::vector<uint32_t> m_choices;
    std::size_t m_pos{0};
    bool m_replay{false};
    bool m_nontrivial{false};
    bool m_echo{false};
    uint64_t m_hash{0};
    std::string m_log;
    std::map<std::string, uint64_t> m_buckets;
    uint32_t m_shard{0};
    Mirror* m_mirror{nullptr};

  private:
    uint64_t m_state{0};
};

#define PBT_CHECK(c, cond, key, ...)                                                                                   \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(cond))                                                                                                   \
        {                                                                                                              \
            char pbtBuf_[400];                                                                                         \
            snprintf(pbtBuf_, sizeof(pbtBuf_), __VA_ARGS__);                                                           \
            (c).fail((key), std::string(pbtBuf_) + "   [" #cond "]");                                                  \
        }                                                                                                              \
    } while (0)

struct Test
{
    std::string name;
    std::function<void(Case&)> run;
    /// share of the time budget
    double weight{1.0};
    /// kill a case after this many seconds; a hang that is confirmed is a failure
    double hangSec{20.0};
    /// how many cases may share process state before the worker is replaced
    uint64_t block{2000};
    /// real threads or processes whose schedule is not under control: a failure is confirmed by one repetition of its case, or by
    /// other cases that fail in the same way
    bool racy{false};
};

struct WorkerShm
{
    volatile uint64_t caseIdx;
    volatile uint64_t blockStart;
    volatile double caseStart;
    volatile uint64_t evaluations;
    volatile uint64_t nontrivial;
    volatile uint64_t discarded;
};

struct Options
{
    std::string test;
    uint64_t seed{1};
    double timeSec{20};
    uint64_t maxCases{~0ULL};
    uint32_t jobs{8};
    std::string outDir{"/tmp"};
    std::string replay;
    std::vector<std::string> known;
    bool echo{false};
    bool list{false};
};

inline uint64_t caseSeed(uint64_t seed, const std::string& test, uint32_t shard, uint64_t idx)
{
    return mix(mix(seed * 0x1000193ULL ^ hashStr(test)) ^ mix((static_cast<uint64_t>(shard) << 48) ^ idx));
}

inline void writeFile(const std::string& p, const std::string& s)
{
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f << s;
}
inline std::string readFile(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
inline std::string jsonEsc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += static_cast<char>(c);
        }
        else if (c == '\n')
        {
            o += "\\n";
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
        {
            o += static_cast<char>(c);
        }
    }
    return o;
}

enum class Outcome
{
    PASS,
    FAIL,
    DISCARD
};
struct Result
{
    Outcome outcome{Outcome::PASS};
    std::string key;
    std::string msg;
    std::string log;
    std::vector<uint32_t> choices;
};

/// run one case in this process
/// called after a child process is gone, to remove what it left behind
inline void (*&reaped())(pid_t)
{
    static void (*f)(pid_t){nullptr};
    return f;
}
inline void childGone(pid_t p)
{
    if (reaped() != nullptr)
    {
        reaped()(p);
    }
}

inline Result runHere(const Test& t, Case& c)
{
    Result r;
    try
    {
        t.run(c);
    }
    catch (const Failure& f)
    {
        r.outcome = Outcome::FAIL;
        r.key = f.key;
        r.msg = f.msg;
    }
    catch (const Discard& d)
    {
        r.outcome = Outcome::DISCARD;
        r.msg = d.why;
    }
    catch (const std::exception& e)
    {
        r.outcome = Outcome::FAIL;
        r.key = "exception";
        r.msg = e.what();
    }
    r.log = c.m_log;
    r.choices = c.m_choices;
    return r;
}

inline std::string serializeResult(const Result& r)
{
    std::stringstream ss;
    ss << static_cast<int>(r.outcome) << '\n' << r.key << '\n';
    std::string m = r.msg;
    for (auto& ch : m)
    {
        if (ch == '\n')
        {
            ch = ' ';
        }
    }
    ss << m << '\n' << r.choices.size() << '\n';
    for (auto x : r.choices)
    {
        ss << x << ' ';
    }
    ss << '\n' << r.log;
    return ss.str();
}
inline bool parseResult(const std::string& s, Result& r)
{
    std::stringstream ss(s);
    std::string line;
    if (!std::getline(ss, line))
    {
        return false;
    }
    r.outcome = static_cast<Outcome>(atoi(line.c_str()));
    std::getline(ss, r.key);
    std::getline(ss, r.msg);
    std::getline(ss, line);
    std::size_t n = std::strtoull(line.c_str(), nullptr, 10);
    r.choices.resize(n);
    for (auto& x : r.choices)
    {
        ss >> x;
    }
    std::getline(ss, line);
    std::stringstream rest;
    rest << ss.rdbuf();
    r.log = rest.str();
    return true;
}

inline void childSetup()
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

inline std::string sigKey(int status)
{
    if (WIFSIGNALED(status))
    {
        const int s = WTERMSIG(status);
        if (s == SIGABRT)
        {
            return "terminate";
        }
        if (s == SIGKILL)
        {
            return "hang";
        }
        return std::string("signal-") + std::to_string(s);
    }
    return std::string("exit-") + std::to_string(WEXITSTATUS(status));
}

/// run `fn` (which returns a Result) in a fresh process with a time limit
inline Mirror* mirror()
{
    static Mirror* m = static_cast<Mirror*>(
        mmap(nullptr, sizeof(Mirror), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    return m;
}
inline Result runForked(const std::function<Result()>& fn, double limit, const std::string& tmpBase)
{
    mirror()->n = 0;
    mirror()->logLen = 0;
    static uint64_t n = 0;
    const std::string path = tmpBase + ".res." + std::to_string(getpid()) + "." + std::to_string(n++);
    unlink(path.c_str());
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0)
    {
        setpgid(0, 0);
        childSetup();
        Result r = fn();
        writeFile(path, serializeResult(r));
        _exit(0);
    }
    setpgid(p, p);
    int status = 0;
    const double t0 = now();
    bool killed = false;
    for (;;)
    {
        pid_t w = waitpid(p, &status, WNOHANG);
        if (w == p)
        {
            break;
        }
        if (now() - t0 > limit)
        {
            kill(-p, SIGKILL);
            waitpid(p, &status, 0);
            killed = true;
            break;
        }
        usleep(now() - t0 < 0.05 ? 200 : 2000);
    }
    kill(-p, SIGKILL); // leftover grandchildren
    childGone(p);
    Result r;
    if (killed)
    {
        r.outcome = Outcome::FAIL;
        r.key = "hang";
        r.msg = "the case did not finish within the time limit";
    }
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && parseResult(readFile(path), r))
    {
    }
    else
    {
        r.outcome = Outcome::FAIL;
        r.key = sigKey(status);
        r.msg = "the process running the case died (" + r.key + ")";
    }
    unlink(path.c_str());
    if (r.choices.empty() && mirror()->n > 0)
    {
        r.choices.assign(mirror()->choices, mirror()->choices + mirror()->n);
    }
    if (r.log.empty() && mirror()->logLen > 0)
    {
        r.log.assign(mirror()->log, mirror()->logLen);
    }
    return r;
}

inline Result runChoices(const Test& t, const std::vector<uint32_t>& ch, double limit, const std::string& base, bool echo = false)
{
    return runForked(
        [&] {
            Case c(ch);
            c.m_echo = echo;
            c.m_mirror = mirror();
            return runHere(t, c);
        },
        limit,
        base);
}

inline std::vector<uint32_t> shrink(const Test& t, std::vector<uint32_t> ch, const std::string& key, double budget, double limit, const std::string& base)
{
    const double t0 = now();
    auto fails = [&](const std::vector<uint32_t>& cand) {
        auto r = runChoices(t, cand, limit, base);
        return r.outcome == Outcome::FAIL && r.key == key;
    };
    auto left = [&] { return now() - t0 < budget; };
    bool progress = true;
    while (progress && left())
    {
        progress = false;
        // drop the tail
        for (std::size_t k = ch.size(); k >= 1 && left(); k /= 2)
        {
            while (ch.size() >= k && left())
            {
                auto cand = ch;
                cand.resize(ch.size() - k);
                if (!fails(cand))
                {
                    break;
                }
                ch = cand;
                progress = true;
            }
        }
        // delete blocks
        for (std::size_t k : {64, 32, 16, 8, 5, 4, 3, 2, 1})
        {
            for (std::size_t i = ch.size(); i-- > 0 && left();)
            {
                if (i + k > ch.size())
                {
                    continue;
                }
                auto cand = ch;
                cand.erase(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + k));
                if (fails(cand))
                {
                    ch = cand;
                    progress = true;
                }
            }
        }
        // minimise values
        for (std::size_t i = 0; i < ch.size() && left(); ++i)
        {
            if (ch[i] == 0)
            {
                continue;
            }
            auto cand = ch;
            cand[i] = 0;
            if (fails(cand))
            {
                ch = cand;
                progress = true;
                continue;
            }
            uint32_t lo = 0;
            uint32_t hi = ch[i];
            while (hi - lo > 1 && left())
            {
                uint32_t mid = lo + (hi - lo) / 2;
                cand[i] = mid;
                if (fails(cand))
                {
                    hi = mid;
                }
                else
                {
                    lo = mid;
                }
            }
            if (hi != ch[i])
            {
                ch[i] = hi;
                progress = true;
            }
        }
    }
    return ch;
}

inline bool isKnown(const Options& o, const std::string& key)
{
    for (auto& k : o.known)
    {
        if (k == key)
        {
            return true;
        }
    }
    return false;
}

struct Summary
{
    uint64_t evaluations{0};
    uint64_t nontrivial{0};
    uint64_t discarded{0};
    uint64_t unconfirmed{0};
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> buckets;
    std::map<std::string, uint64_t> knownHits;
    std::vector<std::string> samples;
    std::vector<std::string> unconfirmedKeys;
    std::map<std::string, uint32_t> seen;
    bool violated{false};
    std::string key, msg, replay;
};

inline void workerLoop(const Test& t, const Options& o, uint32_t shard, uint64_t start, double deadline, WorkerShm* shm, const std::string& base)
{
    setpgid(0, 0);
    childSetup();
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> buckets;
    std::map<std::string, uint64_t> known;
    std::vector<std::string> samples;
    int rc = 0;
    shm->blockStart = start;
    for (uint64_t i = start;; ++i)
    {
        if (now() > deadline || i >= o.maxCases)
        {
            rc = 0;
            break;
        }
        if (i > start && i - start >= t.block)
        {
            rc = 76; // ask for a fresh process
            shm->caseIdx = i;
            break;
        }
        shm->caseIdx = i;
        shm->caseStart = now();
        Case c(caseSeed(o.seed, t.name, shard, i));
        c.m_shard = shard;
        Result r = runHere(t, c);
        shm->evaluations = shm->evaluations + 1;
        for (auto& b : c.m_buckets)
        {
            buckets[b.first] += b.second;
        }
        if (r.outcome == Outcome::DISCARD)
        {
            shm->discarded = shm->discarded + 1;
            continue;
        }
        if (r.outcome == Outcome::FAIL)
        {
            if (isKnown(o, r.key))
            {
                known[r.key]++;
                continue;
            }
            writeFile(base + ".fail", serializeResult(r));
            rc = 77;
            break;
        }
        if (c.m_nontrivial)
        {
            shm->nontrivial = shm->nontrivial + 1;
            uint64_t h = c.m_hash;
            if (h == 0)
            {
                for (auto x : c.m_choices)
                {
                    h = mix(h ^ x);
                }
            }
            if (hashes.size() < 4000000)
            {
                hashes.insert(h);
            }
            if (samples.size() < 2 && i >= 3)
            {
                samples.push_back(c.m_log.substr(0, 1200));
            }
        }
    }
    {
        std::ofstream f(base + ".hash", std::ios::binary | std::ios::app);
        for (auto h : hashes)
        {
            f.write(reinterpret_cast<const char*>(&h), sizeof h);
        }
    }
    {
        std::ofstream f(base + ".cnt", std::ios::app);
        for (auto& b : buckets)
        {
            f << "B " << b.second << ' ' << b.first << '\n';
        }
        for (auto& b : known)
        {
            f << "K " << b.second << ' ' << b.first << '\n';
        }
    }
    {
        std::ofstream f(base + ".smp", std::ios::app | std::ios::binary);
        for (auto& s : samples)
        {
            f << s << '\0';
        }
    }
    fflush(nullptr);
    _exit(rc);
}

inline std::string replayText(const Test& t, const Options& o, const std::string& key, const std::string& msg, const std::vector<uint32_t>& ch, const std::string& log, const std::string& mode)
{
    std::stringstream ss;
    ss << "test " << t.name << "\nseed " << o.seed << "\nkey " << key << "\nmsg " << msg << "\n" << mode << "choices " << ch.size();
    for (auto x : ch)
    {
        ss << ' ' << x;
    }
    ss << "\n--- log of the failing case ---\n" << log << "\n";
    return ss.str();
}

inline Summary runTest(const Test& t, const Options& o, double budget)
{
    Summary s;
    const double deadline = now() + budget;
    const uint32_t J = o.jobs;
    auto* shm = static_cast<WorkerShm*>(
        mmap(nullptr, sizeof(WorkerShm) * J, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset(static_cast<void*>(shm), 0, sizeof(WorkerShm) * J);
    std::vector<pid_t> pids(J, -1);
    std::vector<std::string> bases(J);
    for (uint32_t j = 0; j < J; ++j)
    {
        bases[j] = o.outDir + "/" + t.name + "." + std::to_string(j);
        for (auto suf : {".hash", ".cnt", ".smp", ".fail"})
        {
            unlink((bases[j] + suf).c_str());
        }
    }
    auto spawn = [&](uint32_t j, uint64_t start) {
        fflush(nullptr);
        shm[j].caseStart = now();
        pid_t p = fork();
        if (p == 0)
        {
            workerLoop(t, o, j, start, deadline, &shm[j], bases[j]);
        }
        setpgid(p, p);
        pids[j] = p;
    };
    auto stopAll = [&] {
        for (uint32_t j = 0; j < J; ++j)
        {
            if (pids[j] > 0)
            {
                kill(-pids[j], SIGKILL);
                int st;
                waitpid(pids[j], &st, 0);
                childGone(pids[j]);
                pids[j] = -1;
            }
        }
    };
    for (uint32_t j = 0; j < J; ++j)
    {
        spawn(j, 0);
    }
    const double lim = t.hangSec;
    // returns true when the failure is confirmed
    auto judge = [&](uint32_t j, Result r, uint64_t idx, uint64_t blockStart) -> bool {
        const uint64_t cs = caseSeed(o.seed, t.name, j, idx);
        const std::string tmp = o.outDir + "/" + t.name;
        auto fresh = [&] {
            return runForked(
                [&] {
                    Case c(cs);
                    c.m_shard = j;
                    c.m_mirror = mirror();
                    return runHere(t, c);
                },
                lim,
                tmp);
        };
        int again = 0;
        std::string key = r.key;
        // a case that does not end at all does not need to be seen so often
        const bool hung = r.key == "hang";
        const int need = t.racy || hung ? 1 : 3;
        for (int k = 0; k < (hung ? 2 : 3) && again < need && (need == 1 || again == k); ++k)
        {
            Result f = fresh();
            if (f.outcome == Outcome::FAIL)
            {
                ++again;
                key = f.key;
                r.msg = f.msg;
                if (!f.log.empty())
                {
                    r.log = f.log;
                }
                if (!f.choices.empty())
                {
                    r.choices = f.choices;
                }
            }
        }
        if (again == need)
        {
            if (isKnown(o, key))
            {
                s.knownHits[key]++;
                return false;
            }
            std::vector<uint32_t> ch = r.choices;
            std::string mode;
            if (ch.empty())
            {
                mode = "rawseed " + std::to_string(cs) + "\n";
            }
            else if (key != "hang" || lim <= 25)
            {
                auto sh = shrink(t, ch, key, 25.0, key == "hang" ? lim : std::min(lim, 10.0), tmp);
                Result f = runChoices(t, sh, lim, tmp);
                if (f.outcome == Outcome::FAIL)
                {
                    ch = sh;
                    if (!f.log.empty())
                    {
                        r.log = f.log;
                    }
                    r.msg = f.msg;
                }
            }
            s.violated = true;
            s.key = key;
            s.msg = r.msg;
            s.replay = o.outDir + "/" + t.name + ".replay";
            writeFile(s.replay, replayText(t, o, key, r.msg, ch, r.log, mode));
            return true;
        }
        // the failure may need state from earlier cases of the block
        int rangeFails = 0;
        Result rr;
        if (again == 0 && idx > blockStart)
        {
            for (int k = 0; k < 3 && rangeFails == k; ++k)
            {
                Result f = runForked(
                    [&] {
                        Result last;
                        for (uint64_t q = blockStart; q <= idx; ++q)
                        {
                            Case c(caseSeed(o.seed, t.name, j, q));
                            c.m_shard = j;
                            last = runHere(t, c);
                            if (last.outcome == Outcome::FAIL && !isKnown(o, last.key))
                            {
                                return last;
                            }
                        }
                        last.outcome = Outcome::PASS;
                        return last;
                    },
                    std::max(lim, 60.0),
                    tmp);
                if (f.outcome == Outcome::FAIL)
                {
                    ++rangeFails;
                    rr = f;
                }
            }
        }
        if (rangeFails == 3)
        {
            s.violated = true;
            s.key = rr.key;
            s.msg = rr.msg;
            s.replay = o.outDir + "/" + t.name + ".replay";
            std::stringstream mode;
            mode << "range " << j << ' ' << blockStart << ' ' << idx << '\n';
            writeFile(s.replay, replayText(t, o, rr.key, rr.msg, rr.choices, rr.log, mode.str()));
            return true;
        }
        if (t.racy && !isKnown(o, key) && ++s.seen[key] >= 3)
        {
            s.violated = true;
            s.key = key;
            s.msg = r.msg;
            s.replay = o.outDir + "/" + t.name + ".replay";
            writeFile(s.replay, replayText(t, o, key, r.msg, r.choices, r.log, "rawseed " + std::to_string(cs) + "\n"));
            return true;
        }
        ++s.unconfirmed;
        s.unconfirmedKeys.push_back(key + ": " + r.msg + " (alone " + std::to_string(again) + "/3, with predecessors "
                                    + std::to_string(rangeFails) + "/3)");
        fprintf(stderr, "UNCONFIRMED %s shard %u case %" PRIu64 " %s: %s\n%s\n", t.name.c_str(), j, idx, key.c_str(), r.msg.c_str(), r.log.c_str());
        return false;
    };

    uint32_t alive = J;
    double judging = 0;
    bool stop = false;
    while (alive > 0 && !stop)
    {
        int status = 0;
        bool any = false;
        for (uint32_t j = 0; j < J && !stop; ++j)
        {
            if (pids[j] <= 0)
            {
                continue;
            }
            pid_t w = waitpid(pids[j], &status, WNOHANG);
            bool hang = false;
            if (w == 0 && now() - shm[j].caseStart > lim)
            {
                kill(-pids[j], SIGKILL);
                w = waitpid(pids[j], &status, 0);
                hang = true;
            }
            if (w <= 0)
            {
                continue;
            }
            any = true;
            kill(-pids[j], SIGKILL);
            childGone(pids[j]);
            pids[j] = -1;
            const uint64_t idx = shm[j].caseIdx;
            if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0)
            {
                --alive;
                continue;
            }
            if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 76)
            {
                spawn(j, idx);
                continue;
            }
            Result r;
            r.outcome = Outcome::FAIL;
            if (hang)
            {
                r.key = "hang";
                r.msg = "hang";
            }
            else if (WIFEXITED(status) && WEXITSTATUS(status) == 77)
            {
                parseResult(readFile(bases[j] + ".fail"), r);
            }
            else
            {
                r.key = sigKey(status);
                r.msg = "worker died: " + r.key;
            }
            // keep the machine quiet while confirming
            for (uint32_t q = 0; q < J; ++q)
            {
                if (pids[q] > 0)
                {
                    kill(-pids[q], SIGSTOP);
                }
            }
            const double c0 = now();
            const bool confirmed = judge(j, r, idx, shm[j].blockStart);
            if (confirmed)
            {
                stop = true;
                break;
            }
            const double lost = now() - c0;
            judging += lost;
            if (judging > 200.0)
            {
                // too much time has gone into failures that cannot be reproduced
                stop = true;
                break;
            }
            for (uint32_t q = 0; q < J; ++q)
            {
                if (pids[q] > 0)
                {
                    shm[q].caseStart = shm[q].caseStart + lost;
                    kill(-pids[q], SIGCONT);
                }
            }
            spawn(j, idx + 1);
        }
        if (!any)
        {
            usleep(3000);
        }
    }
    stopAll();
    for (uint32_t j = 0; j < J; ++j)
    {
        s.evaluations += shm[j].evaluations;
        s.nontrivial += shm[j].nontrivial;
        s.discarded += shm[j].discarded;
        std::string h = readFile(bases[j] + ".hash");
        for (std::size_t k = 0; k + 8 <= h.size(); k += 8)
        {
            uint64_t v;
            memcpy(&v, h.data() + k, 8);
            s.hashes.insert(v);
        }
        std::stringstream cs(readFile(bases[j] + ".cnt"));
        std::string line;
        while (std::getline(cs, line))
        {
            std::stringstream ls(line);
            std::string kind;
            uint64_t n;
            ls >> kind >> n;
            std::string rest;
            std::getline(ls, rest);
            if (!rest.empty())
            {
                rest = rest.substr(1);
            }
            (kind == "B" ? s.buckets : s.knownHits)[rest] += n;
        }
        std::string smp = readFile(bases[j] + ".smp");
        std::size_t pos = 0;
        while (pos < smp.size() && s.samples.size() < 4)
        {
            auto e = smp.find('\0', pos);
            if (e == std::string::npos)
            {
                break;
            }
            s.samples.push_back(smp.substr(pos, e - pos));
            pos = e + 1;
        }
        for (auto suf : {".hash", ".cnt", ".smp", ".fail"})
        {
            unlink((bases[j] + suf).c_str());
        }
    }
    munmap(shm, sizeof(WorkerShm) * J);
    return s;
}

inline int replayMain(const std::vector<Test>& tests, const Options& o)
{
    std::stringstream ss(readFile(o.replay));
    std::string word;
    std::string test;
    std::vector<uint32_t> ch;
    uint64_t seed = 1;
    uint64_t raw = 0;
    bool hasRaw = false;
    bool hasRange = false;
    uint32_t shard = 0;
    uint64_t b = 0;
    uint64_t e = 0;
    std::string line;
    while (std::getline(ss, line))
    {
        std::stringstream ls(line);
        ls >> word;
        if (word == "test")
        {
            ls >> test;
        }
        else if (word == "seed")
        {
            ls >> seed;
        }
        else if (word == "rawseed")
        {
            ls >> raw;
            hasRaw = true;
        }
        else if (word == "range")
        {
            ls >> shard >> b >> e;
            hasRange = true;
        }
        else if (word == "choices")
        {
            std::size_t n = 0;
            ls >> n;
            ch.resize(n);
            for (auto& x : ch)
            {
                ls >> x;
            }
        }
        else if (word == "---")
        {
            break;
        }
    }
    for (auto& t : tests)
    {
        if (t.name != test)
        {
            continue;
        }
        Result r = runForked(
            [&] {
                if (hasRange)
                {
                    Result last;
                    for (uint64_t q = b; q <= e; ++q)
                    {
                        Case c(caseSeed(seed, t.name, shard, q));
                        c.m_shard = shard;
                        last = runHere(t, c);
                        if (last.outcome == Outcome::FAIL && !isKnown(o, last.key))
                        {
                            return last;
                        }
                    }
                    last.outcome = Outcome::PASS;
                    return last;
                }
                if (hasRaw)
                {
                    Case c(raw);
                    c.m_echo = o.echo;
                    return runHere(t, c);
                }
                Case c(ch);
                c.m_echo = o.echo;
                c.m_mirror = mirror();
                return runHere(t, c);
            },
            t.hangSec * (hasRange ? 10 : 1),
            o.outDir + "/" + t.name);
        printf("%s\n", r.log.c_str());
        printf("outcome=%s key=%s msg=%s\n",
               r.outcome == Outcome::FAIL ? "FAIL" : (r.outcome == Outcome::PASS ? "PASS" : "DISCARD"),
               r.key.c_str(),
               r.msg.c_str());
        return r.outcome == Outcome::FAIL ? 1 : 0;
    }
    fprintf(stderr, "no such test: %s\n", test.c_str());
    return 2;
}

inline int runAll(int argc, char** argv, const std::vector<Test>& tests)
{
    Options o;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--test")
        {
            o.test = val();
        }
        else if (a == "--seed")
        {
            o.seed = std::strtoull(val().c_str(), nullptr, 10);
        }
        else if (a == "--time")
        {
            o.timeSec = atof(val().c_str());
        }
        else if (a == "--cases")
        {
            o.maxCases = std::strtoull(val().c_str(), nullptr, 10);
        }
        else if (a == "--jobs")
        {
            o.jobs = static_cast<uint32_t>(atoi(val().c_str()));
        }
        else if (a == "--out")
        {
            o.outDir = val();
        }
        else if (a == "--replay")
        {
            o.replay = val();
        }
        else if (a == "--known")
        {
            o.known.push_back(val());
        }
        else if (a == "--echo")
        {
            o.echo = true;
        }
        else if (a == "--list")
        {
            o.list = true;
        }
    }
    if (o.list)
    {
        for (auto& t : tests)
        {
            printf("%s %g\n", t.name.c_str(), t.weight);
        }
        return 0;
    }
    if (!o.replay.empty())
    {
        return replayMain(tests, o);
    }
    std::vector<const Test*> sel;
    double wsum = 0;
    for (auto& t : tests)
    {
        bool take = o.test.empty();
        std::stringstream ss(o.test);
        std::string n;
        while (std::getline(ss, n, ','))
        {
            take = take || n == t.name;
        }
        if (take)
        {
            sel.push_back(&t);
            wsum += t.weight;
        }
    }
    if (sel.empty())
    {
        fprintf(stderr, "no test selected\n");
        return 2;
    }
    std::stringstream js;
    js << "[";
    bool first = true;
    int rc = 0;
    for (auto* t : sel)
    {
        const double t0 = now();
        Summary s = runTest(*t, o, o.timeSec * t->weight / wsum);
        if (!first)
        {
            js << ",";
        }
        first = false;
        js << "{\"test\":\"" << t->name << "\",\"evaluations\":" << s.evaluations << ",\"nontrivial\":" << s.nontrivial
           << ",\"distinct_nontrivial\":" << s.hashes.size() << ",\"discarded\":" << s.discarded
           << ",\"unconfirmed\":" << s.unconfirmed << ",\"wall_s\":" << (now() - t0) << ",\"buckets\":{";
        bool f2 = true;
        for (auto& b : s.buckets)
        {
            js << (f2 ? "" : ",") << "\"" << jsonEsc(b.first) << "\":" << b.second;
            f2 = false;
        }
        js << "},\"known\":{";
        f2 = true;
        for (auto& b : s.knownHits)
        {
            js << (f2 ? "" : ",") << "\"" << jsonEsc(b.first) << "\":" << b.second;
            f2 = false;
        }
        js << "},\"samples\":[";
        f2 = true;
        for (auto& b : s.samples)
        {
            js << (f2 ? "" : ",") << "\"" << jsonEsc(b) << "\"";
            f2 = false;
        }
        js << "],\"unconfirmed_keys\":[";
        f2 = true;
        for (auto& b : s.unconfirmedKeys)
        {
            js << (f2 ? "" : ",") << "\"" << jsonEsc(b) << "\"";
            f2 = false;
        }
        js << "],\"violated\":" << (s.violated ? "true" : "false") << ",\"key\":\"" << jsonEsc(s.key) << "\",\"msg\":\""
           << jsonEsc(s.msg) << "\",\"replay\":\"" << jsonEsc(s.replay) << "\"}";
        if (s.violated)
        {
            rc = 1;
            break;
        }
    }
    js << "]\n";
    writeFile(o.outDir + "/result.json", js.str());
    return rc;
}
} // namespace pbt
