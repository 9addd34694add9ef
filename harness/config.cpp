// Command lines and configuration files (S25): generated option sets, argument vectors and TOML texts against independently
// written rules.
#include "iceoryx_posh/gateway/toml_gateway_config_parser.hpp"
#include "iceoryx_posh/iceoryx_posh_config.hpp"
#include "iceoryx_posh/roudi/roudi_cmd_line_parser.hpp"
#include "iceoryx_posh/roudi/roudi_cmd_line_parser_config_file_option.hpp"
#include "iceoryx_posh/roudi/roudi_config_toml_file_provider.hpp"
#include "iox/cli_definition.hpp"
#include "iox/cli/command_line_parser.hpp"
#include "iox/posix_group.hpp"
#include "iox_env.hpp"

#include <fcntl.h>
#include <getopt.h>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

using pbt::Case;
using S = std::string;
using iox::TruncateToCapacity;
using namespace iox::cli;

namespace
{
struct NullBuf : std::streambuf
{
    int overflow(int c) override
    {
        return c;
    }
} g_null;

S scratch()
{
    const char* d = getenv("VERIF_SCRATCH");
    return d ? d : "/tmp";
}
void mute()
{
    static bool done = false;
    if (!done)
    {
        done = true;
        std::cout.rdbuf(&g_null);
        std::cerr.rdbuf(&g_null);
        opterr = 0;
        env::quiet();
    }
}

/// an argument vector the code under test may permute
struct Argv
{
    std::vector<std::vector<char>> text;
    std::vector<char*> ptr;
    explicit Argv(const std::vector<S>& a)
    {
        for (auto& s : a)
        {
            text.emplace_back(s.begin(), s.end());
            text.back().push_back('\0');
        }
        for (auto& t : text)
        {
            ptr.push_back(t.data());
        }
        ptr.push_back(nullptr);
    }
    int argc() const
    {
        return static_cast<int>(text.size());
    }
    char** argv()
    {
        return ptr.data();
    }
};

S joined(const std::vector<S>& a)
{
    S r;
    for (auto& s : a)
    {
        r += (r.empty() ? "" : " ") + (s.size() > 40 ? s.substr(0, 37) + "...(" + std::to_string(s.size()) + ")" : "'" + s + "'");
    }
    return r;
}

// ---------------------------------------------------------------------------------------------- option definition and parser
struct Opt
{
    char sh{0};
    S lg;
    OptionType type{OptionType::Switch};
    S def;
};

S word(Case& c)
{
    static const char* const W[] = {"alpha", "beta", "al", "alp", "set", "set-it", "x9", "be_ta", "Alpha", "help", "helper", "a b", "eq=1"};
    if (c.chance(1, 12))
    {
        uint64_t n = c.range(2, MAX_OPTION_NAME_LENGTH);
        S s(n, 'q');
        s[0] = static_cast<char>('a' + c.draw(3));
        return s;
    }
    return W[c.draw(sizeof(W) / sizeof(W[0]))];
}

void definition(Case& c)
{
    mute();
    uint64_t failures = 0;
    auto onFail = [&failures] { ++failures; };
    OptionDefinition def("generated", onFail);
    std::vector<Opt> model;
    model.push_back({'h', "help", OptionType::Switch, ""});
    uint64_t n = c.draw(9);
    if (c.chance(1, 8))
    {
        n = c.range(10, 20);
    }
    for (uint64_t i = 0; i < n && model.size() < MAX_NUMBER_OF_ARGUMENTS; ++i)
    {
        Opt o;
        switch (c.draw(8))
        {
        case 0:
            o.sh = 0;
            o.lg = word(c);
            break;
        case 1:
            o.sh = static_cast<char>('a' + c.draw(26));
            break;
        case 2:
            o.sh = c.chance(1, 2) ? '-' : 0;
            o.lg = c.chance(1, 2) ? S("-") + word(c).substr(0, 30) : S();
            break;
        default:
            o.sh = static_cast<char>((c.chance(1, 2) ? 'a' : 'A') + c.draw(12));
            o.lg = word(c);
        }
        static const OptionType T[] = {OptionType::Switch, OptionType::Required, OptionType::Optional, OptionType::Optional};
        o.type = T[c.draw(4)];
        if (o.type == OptionType::Optional)
        {
            o.def = c.chance(1, 3) ? S() : std::to_string(c.draw(1000));
        }
        bool bad = (o.sh == 0 && o.lg.empty()) || (!o.lg.empty() && o.lg[0] == '-') || o.sh == '-';
        for (auto& m : model)
        {
            bad = bad || (o.sh != 0 && m.sh == o.sh) || (!o.lg.empty() && m.lg == o.lg);
        }
        failures = 0;
        OptionName_t lg(TruncateToCapacity, o.lg.c_str());
        if (o.type == OptionType::Switch)
        {
            def.addSwitch(o.sh, lg, "d");
        }
        else if (o.type == OptionType::Required)
        {
            def.addRequired(o.sh, lg, "d", "t");
        }
        else
        {
            def.addOptional(o.sh, lg, "d", "t", Argument_t(TruncateToCapacity, o.def.c_str()));
        }
        PBT_CHECK(c, (failures > 0) == bad, "cli-registration", "option -%c --%s: %s", o.sh ? o.sh : '0', o.lg.c_str(),
                  bad ? "should have been refused" : "was refused");
        c.log("option -%c --%s type %d%s", o.sh ? o.sh : '0', o.lg.c_str(), int(o.type), bad ? " refused" : "");
        if (!bad)
        {
            model.push_back(o);
        }
    }

    // ------------------------------------------------------------------------------------------------------------ arguments
    uint64_t rounds = c.range(1, 3);
    for (uint64_t r = 0; r < rounds; ++r)
    {
        uint64_t offset = c.chance(1, 4) ? c.draw(4) : 1;
        std::vector<S> args{"prog"};
        for (uint64_t i = 1; i < offset; ++i)
        {
            args.push_back(c.chance(1, 2) ? "command" : "-z");
        }
        // a permutation of options, mostly with everything that is required
        std::vector<uint64_t> order;
        for (uint64_t i = 0; i < model.size(); ++i)
        {
            bool take = model[i].type == OptionType::Required ? !c.chance(1, 20) : (i == 0 ? c.chance(1, 30) : c.chance(1, 2));
            if (take)
            {
                order.insert(order.begin() + static_cast<long>(c.draw(static_cast<uint32_t>(order.size() + 1))), i);
            }
        }
        if (!order.empty() && c.chance(1, 16))
        {
            order.push_back(order[c.draw(static_cast<uint32_t>(order.size()))]);
        }
        for (auto i : order)
        {
            auto& o = model[i];
            bool useShort = o.lg.empty() || (o.sh != 0 && c.chance(1, 2));
            args.push_back(useShort ? S("-") + o.sh : S("--") + o.lg);
            if (o.type != OptionType::Switch)
            {
                static const char* const V[] = {"7", "-5", "value", "", "-h", "--help", "a=b", "4294967296"};
                S v = V[c.draw(8)];
                if (c.chance(1, 10))
                {
                    v = S(c.range(MAX_OPTION_ARGUMENT_LENGTH - 1, MAX_OPTION_ARGUMENT_LENGTH + 1 - (c.chance(3, 4) ? 1 : 0)), 'v');
                }
                args.push_back(v);
            }
        }
        if (c.chance(1, 5) && args.size() > std::max<uint64_t>(offset, 1))
        {
            uint64_t at = c.range(std::max<uint64_t>(offset, 1), args.size());
            static const char* const J[] = {"", "-", "--", "---x", "-ab", "plain", "--unknown", "-?", "----", "--alpha=1", "--alphabet", "-help"};
            S j = J[c.draw(12)];
            if (c.chance(1, 8))
            {
                j = S("--") + S(c.range(MAX_OPTION_NAME_LENGTH - 1, MAX_OPTION_NAME_LENGTH + 4), 'q');
            }
            switch (c.draw(3))
            {
            case 0:
                args.insert(args.begin() + static_cast<long>(at), j);
                break;
            case 1:
                args[std::min<size_t>(at, args.size() - 1)] = j;
                break;
            default:
                args.resize(at);
            }
        }

        // the rules
        bool fail = false;
        std::map<uint64_t, S> got; // index into model -> value
        for (uint64_t i = std::max<uint64_t>(offset, 1); i < args.size() && !fail; ++i)
        {
            auto& a = args[i];
            bool isShort = a.size() == 2 && a[0] == '-' && a[1] != '-';
            bool isLong = a.size() >= 4 && a[0] == '-' && a[1] == '-' && a[2] != '-';
            int64_t hit = -1;
            for (uint64_t k = 0; k < model.size(); ++k)
            {
                if ((isShort && model[k].sh == a[1]) || (isLong && model[k].lg == a.substr(2)))
                {
                    hit = static_cast<int64_t>(k);
                }
            }
            if (hit < 0 || got.count(static_cast<uint64_t>(hit)))
            {
                fail = true;
                break;
            }
            auto& o = model[static_cast<uint64_t>(hit)];
            if (o.type == OptionType::Switch)
            {
                got[static_cast<uint64_t>(hit)] = "";
            }
            else if (i + 1 >= args.size() || args[i + 1].size() > MAX_OPTION_ARGUMENT_LENGTH)
            {
                fail = true;
            }
            else
            {
                got[static_cast<uint64_t>(hit)] = args[++i];
            }
        }
        fail = fail || got.count(0);
        for (uint64_t k = 0; k < model.size(); ++k)
        {
            fail = fail || (model[k].type == OptionType::Required && !got.count(k));
        }

        Argv av(args);
        failures = 0;
        auto result = parseCommandLineArguments(def, av.argc(), av.argv(), offset);
        c.log("args %s offset %lu: %s", joined(args).c_str(), (unsigned long)offset, fail ? "to be refused" : "valid");
        PBT_CHECK(c, (failures > 0) == fail, fail ? "cli-accepts-invalid" : "cli-refuses-valid", "arguments %s offset %lu", joined(args).c_str(),
                  (unsigned long)offset);
        if (fail)
        {
            c.count("refused");
            continue;
        }
        c.nontrivial();
        c.count("accepted");
        PBT_CHECK(c, S(result.binaryName()) == "prog", "cli-binary-name", "%s", result.binaryName());
        for (uint64_t k = 0; k < model.size(); ++k)
        {
            auto& o = model[k];
            std::vector<OptionName_t> names;
            if (o.sh)
            {
                names.push_back(OptionName_t(TruncateToCapacity, &o.sh, 1));
            }
            if (!o.lg.empty())
            {
                names.push_back(OptionName_t(TruncateToCapacity, o.lg.c_str()));
            }
            for (auto& nm : names)
            {
                if (o.type == OptionType::Switch)
                {
                    PBT_CHECK(c, result.isSwitchSet(nm) == (got.count(k) > 0), "cli-switch", "switch %s", nm.c_str());
                    continue;
                }
                PBT_CHECK(c, !result.isSwitchSet(nm), "cli-switch", "%s is no switch", nm.c_str());
                S want = got.count(k) ? got[k] : o.def;
                auto v = result.get<Argument_t>(nm);
                PBT_CHECK(c, v.has_value() && S(v.value().c_str()) == want, "cli-value", "%s should be '%s' and is '%s'", nm.c_str(), want.c_str(),
                          v.has_value() ? v.value().c_str() : "<error>");
                auto num = result.get<int32_t>(nm);
                bool isNum = want == "7" || want == "-5" || (!want.empty() && want.size() < 5 && want.find_first_not_of("0123456789") == S::npos);
                PBT_CHECK(c, num.has_value() == isNum, "cli-number", "%s = '%s'", nm.c_str(), want.c_str());
                if (isNum)
                {
                    PBT_CHECK(c, num.value() == atoi(want.c_str()), "cli-number", "%s = '%s' gives %d", nm.c_str(), want.c_str(), num.value());
                }
                else
                {
                    PBT_CHECK(c, num.error() == Arguments::Error::UNABLE_TO_CONVERT_VALUE, "cli-error", "%s", nm.c_str());
                }
            }
        }
        auto none = result.get<Argument_t>(OptionName_t("no-such"));
        PBT_CHECK(c, none.has_error() && none.error() == Arguments::Error::NO_SUCH_VALUE, "cli-error", "unknown name");
    }
}

// ------------------------------------------------------------------------------------------------------ structs from macros
using Str = iox::string<20>;
struct Cmd
{
    IOX_CLI_DEFINITION(Cmd);
    IOX_CLI_OPTIONAL(Str, text, {"def ault"}, 's', "text", "text");
    IOX_CLI_REQUIRED(uint8_t, small, 'a', "small", "small");
    IOX_CLI_OPTIONAL(int64_t, big, -9223372036854775807LL, 'b', "big", "big");
    IOX_CLI_OPTIONAL(uint64_t, ubig, 18446744073709551615ULL, 'u', "ubig", "ubig");
    IOX_CLI_SWITCH(on, 'o', "on", "on");
    IOX_CLI_OPTIONAL(int8_t, tiny, -7, iox::cli::NO_SHORT_OPTION, "tiny", "long only");
    IOX_CLI_SWITCH(longOnly, iox::cli::NO_SHORT_OPTION, "long-only", "long only");
    IOX_CLI_OPTIONAL(uint16_t, shortOnly, 12, 'k', "", "short only");
    IOX_CLI_SWITCH(shortSwitch, 'w', "", "short only");
    IOX_CLI_OPTIONAL(bool, flag, true, 'f', "flag", "bool");
    IOX_CLI_OPTIONAL(bool, flagOff, false, 'g', "flag-off", "bool");
    IOX_CLI_OPTIONAL(double, dbl, 0.5, 'd', "dbl", "double");
};
struct Need
{
    IOX_CLI_DEFINITION(Need);
    IOX_CLI_REQUIRED(Str, name, iox::cli::NO_SHORT_OPTION, "name", "name");
    IOX_CLI_REQUIRED(int32_t, num, 'n', "", "num");
    IOX_CLI_REQUIRED(bool, yes, 'y', "yes", "bool");
};
struct Out
{
    char text[64];
};
template <typename F>
S inChild(Case& c, F&& f, int& status)
{
    int fd[2];
    if (pipe(fd) != 0)
    {
        c.discard("pipe");
    }
    pid_t p = fork();
    if (p == 0)
    {
        close(fd[0]);
        S s = f();
        (void)!write(fd[1], s.data(), s.size());
        _exit(0);
    }
    close(fd[1]);
    S r;
    char b[512];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0)
    {
        r.append(b, static_cast<size_t>(n));
    }
    close(fd[0]);
    waitpid(p, &status, 0);
    return r;
}

struct Field
{
    char sh;
    const char* lg;
    int kind; // 0 switch, 1 string, 2 integer, 3 bool, 4 double
    __int128 lo, hi;
    const char* def; // nullptr: required
};

bool decimal(const S& s, __int128 lo, __int128 hi, S& out)
{
    size_t i = 0;
    bool neg = false;
    if (i < s.size() && s[i] == '-')
    {
        neg = true;
        ++i;
    }
    if (i >= s.size() || s.size() > 25)
    {
        return false;
    }
    __int128 v = 0;
    for (; i < s.size(); ++i)
    {
        if (s[i] < '0' || s[i] > '9')
        {
            return false;
        }
        v = v * 10 + (s[i] - '0');
    }
    v = neg ? -v : v;
    if (v < lo || v > hi || (neg && lo >= 0))
    {
        return false;
    }
    out = neg ? "-" : "";
    __uint128_t u = static_cast<__uint128_t>(neg ? -v : v);
    S d;
    do
    {
        d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
        u /= 10;
    } while (u);
    out = (v < 0 ? S("-") : S()) + d;
    return true;
}

template <typename T>
void add(S& s, const T& v)
{
    s += std::to_string(v) + "|";
}

void structs(Case& c)
{
    mute();
    static const std::vector<Field> CMD = {{'s', "text", 1, 0, 20, "def ault"},
                                           {'a', "small", 2, 0, 255, nullptr},
                                           {'b', "big", 2, INT64_MIN, INT64_MAX, "-9223372036854775807"},
                                           {'u', "ubig", 2, 0, static_cast<__int128>(UINT64_MAX), "18446744073709551615"},
                                           {'o', "on", 0, 0, 0, nullptr},
                                           {0, "tiny", 2, -128, 127, "-7"},
                                           {0, "long-only", 0, 0, 0, nullptr},
                                           {'k', "", 2, 0, 65535, "12"},
                                           {'w', "", 0, 0, 0, nullptr},
                                           {'f', "flag", 3, 0, 0, "true"},
                                           {'g', "flag-off", 3, 0, 0, "false"},
                                           {'d', "dbl", 4, 0, 0, "0.5"}};
    static const std::vector<Field> NEED = {{0, "name", 1, 0, 20, nullptr}, {'n', "", 2, INT32_MIN, INT32_MAX, nullptr}, {'y', "yes", 3, 0, 0, nullptr}};
    bool second = c.chance(1, 4);
    auto& fields = second ? NEED : CMD;
    std::vector<S> args{"/bin/prog"};
    std::vector<S> want;
    bool fail = false;
    std::vector<std::pair<uint64_t, std::vector<S>>> given;
    for (auto& f : fields)
    {
        bool required = f.kind != 0 && !f.def;
        S value = f.kind == 0 ? "0" : (f.def ? f.def : "");
        if (required ? !c.chance(1, 25) : c.chance(1, 3))
        {
            bool useShort = !f.lg[0] || (f.sh && c.chance(1, 2));
            std::vector<S> a{useShort ? S("-") + f.sh : S("--") + f.lg};
            S v;
            bool ok = true;
            bool wild = c.chance(1, 12);
            switch (f.kind)
            {
            case 0:
                value = "1";
                break;
            case 1:
                v = S(wild ? c.range(19, 23) : c.draw(12), 'x') + (c.chance(1, 2) ? "" : "-");
                ok = v.size() <= 20;
                value = v;
                break;
            case 2:
            {
                static const char* const J[] = {"", "1x", "99999999999999999999", "-", "0x10", "1.5", "-99999999999999999999", "1e3"};
                if (wild && c.chance(1, 2))
                {
                    v = J[c.draw(8)];
                }
                else
                {
                    __int128 x = c.chance(1, 2) ? f.lo + static_cast<__int128>(c.draw(3)) : f.hi - static_cast<__int128>(c.draw(3));
                    if (wild)
                    {
                        x = c.chance(1, 2) ? f.lo - 1 - static_cast<__int128>(c.draw(300)) : f.hi + 1 + static_cast<__int128>(c.draw(300));
                    }
                    S t;
                    decimal("0", 0, 0, t);
                    bool neg = x < 0;
                    __uint128_t u = static_cast<__uint128_t>(neg ? -x : x);
                    S d;
                    do
                    {
                        d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
                        u /= 10;
                    } while (u);
                    v = (neg ? "-" : "") + d;
                }
                ok = decimal(v, f.lo, f.hi, value);
                break;
            }
            case 3:
                v = wild ? S(c.chance(1, 2) ? "1" : "True") : S(c.chance(1, 2) ? "true" : "false");
                ok = !wild;
                value = v;
                break;
            default:
                v = wild ? S("0.2.5") : S(c.chance(1, 2) ? "2.25" : "-3");
                ok = !wild;
                value = v;
            }
            if (f.kind != 0)
            {
                a.push_back(v);
            }
            fail = fail || !ok;
            given.insert(given.begin() + static_cast<long>(c.draw(static_cast<uint32_t>(given.size() + 1))), {0, a});
        }
        else if (required)
        {
            fail = true;
        }
        want.push_back(value);
    }
    for (auto& g : given)
    {
        args.insert(args.end(), g.second.begin(), g.second.end());
    }
    Argv av(args);
    int status = 0;
    auto onFail = [] { _exit(42); };
    S got = inChild(
        c,
        [&]() -> S {
            S s;
            if (second)
            {
                auto n = Need::parse(av.argc(), av.argv(), "d", 1U, onFail);
                s += S(n.name().c_str()) + "|";
                add(s, n.num());
                s += n.yes() ? "true|" : "false|";
                s += n.binaryName();
                return s;
            }
            auto m = Cmd::parse(av.argc(), av.argv(), "d", 1U, onFail);
            s += S(m.text().c_str()) + "|";
            add(s, m.small());
            add(s, m.big());
            add(s, m.ubig());
            add(s, int(m.on()));
            add(s, m.tiny());
            add(s, int(m.longOnly()));
            add(s, m.shortOnly());
            add(s, int(m.shortSwitch()));
            s += m.flag() ? "true|" : "false|";
            s += m.flagOff() ? "true|" : "false|";
            s += m.dbl() == 0.5 ? "0.5|" : m.dbl() == 2.25 ? "2.25|" : m.dbl() == -3 ? "-3|" : "?|";
            s += m.binaryName();
            return s;
        },
        status);
    S w;
    for (auto& v : want)
    {
        w += v + "|";
    }
    w += "/bin/prog";
    c.log("%s -> %s", joined(args).c_str(), fail ? "refused" : w.c_str());
    if (fail)
    {
        PBT_CHECK(c, WIFEXITED(status) && WEXITSTATUS(status) == 42, "cli-struct-accepts-invalid", "%s: status %x, %s", joined(args).c_str(), status,
                  got.c_str());
        return;
    }
    PBT_CHECK(c, WIFEXITED(status) && WEXITSTATUS(status) != 42, "cli-struct-refuses-valid", "%s: status %x", joined(args).c_str(), status);
    c.nontrivial();
    PBT_CHECK(c, WEXITSTATUS(status) == 0 && got == w, "cli-struct-values", "%s gives %s instead of %s", joined(args).c_str(), got.c_str(), w.c_str());
}

// ------------------------------------------------------------------------------------------------------- RouDi's command line
using iox::config::CmdLineArgs_t;
using iox::config::CmdLineParserResult;
struct Lng
{
    const char* name;
    bool arg;
    char sh;
};
const std::vector<Lng> LONGS = {{"help", false, 'h'},      {"version", false, 'v'},        {"monitoring-mode", true, 'm'}, {"log-level", true, 'l'},
                                {"domain-id", true, 'd'},  {"unique-roudi-id", true, 'u'}, {"compatibility", true, 'x'},   {"termination-delay", true, 't'},
                                {"kill-delay", true, 'k'}, {"config-file", true, 'c'}};

struct Want
{
    bool run{true};
    int mon{-1}, level{-1}, compat{-1};
    int64_t domain{-1}, id{-1}, term{-1}, kill{-1};
    S config;
};

/// 0 fine, 1 unknown option, 2 invalid parameter
int rule(char o, const S& v, Want& w)
{
    auto among = [&](std::initializer_list<const char*> l) {
        int i = 0;
        for (auto x : l)
        {
            if (v == x)
            {
                return i;
            }
            ++i;
        }
        return -1;
    };
    auto num = [&](int64_t hi, int64_t& out) {
        S s;
        if (!decimal(v, 0, hi, s))
        {
            return 2;
        }
        out = atoll(s.c_str());
        return 0;
    };
    int k = 0;
    switch (o)
    {
    case 'h':
    case 'v':
        w.run = false;
        return 0;
    case 'm':
        k = among({"off", "on"});
        w.mon = k >= 0 ? k : w.mon;
        return k >= 0 ? 0 : 2;
    case 'l':
        k = among({"off", "fatal", "error", "warning", "info", "debug", "trace"});
        w.level = k >= 0 ? k : w.level;
        return k >= 0 ? 0 : 2;
    case 'x':
        k = among({"off", "major", "minor", "patch", "commitId", "buildDate"});
        w.compat = k >= 0 ? k : w.compat;
        return k >= 0 ? 0 : 2;
    case 'd':
        return num(65535, w.domain);
    case 'u':
        return num(65535, w.id);
    case 't':
        return num(UINT32_MAX, w.term);
    case 'k':
        return num(UINT32_MAX, w.kill);
    case 'c':
        w.config = v;
        return 0;
    default:
        return 1;
    }
}

/// the conventions of getopt_long, with the arguments in any order; 0, 1 (unknown) or 2 (invalid)
int rules(const std::vector<S>& a, bool withFile, Want& w)
{
    auto find = [&](char ch) -> const Lng* {
        for (auto& l : LONGS)
        {
            if (l.sh == ch && (withFile || ch != 'c'))
            {
                return &l;
            }
        }
        return nullptr;
    };
    for (size_t i = 1; i < a.size(); ++i)
    {
        auto& s = a[i];
        if (s == "--")
        {
            break;
        }
        if (s.size() < 2 || s[0] != '-')
        {
            continue;
        }
        if (s[1] == '-')
        {
            auto eq = s.find('=');
            S name = s.substr(2, eq == S::npos ? S::npos : eq - 2);
            const Lng* hit = nullptr;
            for (auto& l : LONGS)
            {
                if (name == l.name && (withFile || l.sh != 'c'))
                {
                    hit = &l;
                }
            }
            if (!hit)
            {
                return 1; // abbreviations are not generated
            }
            S v;
            if (eq != S::npos)
            {
                if (!hit->arg)
                {
                    return 1;
                }
                v = s.substr(eq + 1);
            }
            else if (hit->arg)
            {
                if (i + 1 >= a.size())
                {
                    return 1;
                }
                v = a[++i];
            }
            if (int r = rule(hit->sh, v, w))
            {
                return r;
            }
            continue;
        }
        for (size_t k = 1; k < s.size(); ++k)
        {
            auto* hit = find(s[k]);
            if (!hit)
            {
                return 1;
            }
            S v;
            if (hit->arg)
            {
                if (k + 1 < s.size())
                {
                    v = s.substr(k + 1);
                }
                else if (i + 1 < a.size())
                {
                    v = a[++i];
                }
                else
                {
                    return 1;
                }
                k = s.size();
            }
            if (int r = rule(hit->sh, v, w))
            {
                return r;
            }
        }
    }
    return 0;
}

void roudiArgs(Case& c)
{
    mute();
    bool withFile = c.chance(1, 2);
    std::vector<S> args{"./iox-roudi"};
    uint64_t n = c.draw(6);
    for (uint64_t i = 0; i < n; ++i)
    {
        auto& l = LONGS[c.weighted({1, 1, 5, 5, 5, 5, 5, 5, 5, withFile ? 6U : 1U})];
        S v;
        bool wild = c.chance(1, 16);
        switch (l.sh)
        {
        case 'm':
            v = wild ? "On" : c.chance(1, 2) ? "on" : "off";
            break;
        case 'l':
        {
            static const char* const L[] = {"off", "fatal", "error", "warning", "info", "debug", "trace", "verbose"};
            v = wild ? "warn" : L[c.draw(7)];
            break;
        }
        case 'x':
        {
            static const char* const L[] = {"off", "major", "minor", "patch", "commitId", "buildDate"};
            v = wild ? "commitid" : L[c.draw(6)];
            break;
        }
        case 'd':
        case 'u':
            v = wild ? (c.chance(1, 2) ? "65536" : c.chance(1, 2) ? "-1" : "1x") : std::to_string(c.chance(1, 3) ? 65535 - c.draw(2) : c.draw(1000));
            break;
        case 't':
        case 'k':
            v = wild ? (c.chance(1, 2) ? "4294967296" : c.chance(1, 2) ? "-1" : "") : std::to_string(c.chance(1, 3) ? 4294967295U - c.draw(2) : c.draw(1000));
            break;
        case 'c':
            v = c.chance(1, 2) ? "/etc/x.toml" : S("/") + S(c.draw(60), 'p');
            break;
        default:
            break;
        }
        if (c.chance(1, 40))
        {
            static const char* const J[] = {"-", "plain", "--", "-z", "--unknown", "--help=1", "-"};
            args.push_back(J[c.draw(7)]);
        }
        bool useShort = c.chance(1, 2);
        bool attached = c.chance(1, 3);
        if (withFile && useShort && l.sh != 'c' && !c.chance(1, 8))
        {
            attached = false; // see the recorded finding below
        }
        if (!l.arg)
        {
            args.push_back(useShort ? S("-") + l.sh : S("--") + l.name);
        }
        else if (attached && (!useShort || !v.empty()))
        {
            args.push_back(useShort ? S("-") + l.sh + v : S("--") + l.name + "=" + v);
        }
        else
        {
            args.push_back(useShort ? S("-") + l.sh : S("--") + l.name);
            if (!c.chance(1, 40))
            {
                args.push_back(v);
            }
        }
    }
    Want w;
    int expect = rules(args, withFile, w);
    Argv av(args);
    optind = 0;
    // recorded findings: with the config file option, another short option with its value attached is not understood, and
    // after help no config file option is
    bool attachedShort = false, fileAfterHelp = false, help = false;
    for (size_t i = 1; withFile && i < args.size(); ++i)
    {
        auto& s = args[i];
        attachedShort = attachedShort || (s.size() > 2 && s[0] == '-' && s[1] != '-' && s[1] != 'c');
        help = help || s == "-h" || s == "--help";
        fileAfterHelp = fileAfterHelp || (help && (s == "--" || s.compare(0, 2, "-c") == 0 || s.compare(0, 4, "--co") == 0));
    }
    static const char* const fileKey = "config-file-after-help";
    const char* refused = attachedShort ? "config-file-parser-attached-value" : fileAfterHelp ? fileKey : "roudi-args-refused";
    const char* value = attachedShort ? refused : "roudi-args-value";
    auto check = [&](auto& parser) {
        auto r = parser.parse(av.argc(), av.argv());
        c.log("%s%s -> %d", withFile ? "(with -c) " : "", joined(args).c_str(), expect);
        PBT_CHECK(c, r.has_error() == (expect != 0), expect ? "roudi-args-accepted" : refused, "%s%s", withFile ? "(with -c) " : "",
                  joined(args).c_str());
        if (expect)
        {
            auto e = expect == 1 ? CmdLineParserResult::UNKNOWN_OPTION_USED : CmdLineParserResult::INVALID_PARAMETER;
            PBT_CHECK(c, r.error() == e || attachedShort || fileAfterHelp, "roudi-args-error", "%s: wrong kind of error", joined(args).c_str());
            return;
        }
        if (args.size() > 1)
        {
            c.nontrivial();
        }
        auto& v = r.value();
        iox::config::RouDiConfig d;
        auto& g = v.roudiConfig;
        PBT_CHECK(c, v.run == w.run, value, "%s", joined(args).c_str());
        if (help)
        {
            return; // RouDi does not run: the values are of no use
        }
        PBT_CHECK(c, g.monitoringMode == (w.mon < 0 ? d.monitoringMode : w.mon ? iox::roudi::MonitoringMode::ON : iox::roudi::MonitoringMode::OFF), value,
                  "monitoring mode, %s", joined(args).c_str());
        static const iox::log::LogLevel LL[] = {iox::log::LogLevel::Off,  iox::log::LogLevel::Fatal, iox::log::LogLevel::Error, iox::log::LogLevel::Warn,
                                                iox::log::LogLevel::Info, iox::log::LogLevel::Debug, iox::log::LogLevel::Trace};
        PBT_CHECK(c, g.logLevel == (w.level < 0 ? d.logLevel : LL[w.level]), value, "log level, %s", joined(args).c_str());
        using CL = iox::version::CompatibilityCheckLevel;
        static const CL CC[] = {CL::OFF, CL::MAJOR, CL::MINOR, CL::PATCH, CL::COMMIT_ID, CL::BUILD_DATE};
        PBT_CHECK(c, g.compatibilityCheckLevel == (w.compat < 0 ? d.compatibilityCheckLevel : CC[w.compat]), value, "compatibility, %s",
                  joined(args).c_str());
        PBT_CHECK(c, static_cast<uint16_t>(g.domainId) == (w.domain < 0 ? static_cast<uint16_t>(d.domainId) : w.domain), value, "domain id, %s",
                  joined(args).c_str());
        PBT_CHECK(c, static_cast<uint16_t>(g.uniqueRouDiId) == (w.id < 0 ? static_cast<uint16_t>(d.uniqueRouDiId) : w.id), value, "RouDi id, %s",
                  joined(args).c_str());
        PBT_CHECK(c, g.processTerminationDelay == (w.term < 0 ? d.processTerminationDelay : iox::units::Duration::fromSeconds(w.term)), value,
                  "termination delay, %s", joined(args).c_str());
        PBT_CHECK(c, g.processKillDelay == (w.kill < 0 ? d.processKillDelay : iox::units::Duration::fromSeconds(w.kill)), value, "kill delay, %s",
                  joined(args).c_str());
        PBT_CHECK(c, S(v.configFilePath.c_str()) == w.config, value, "config file, %s", joined(args).c_str());
        PBT_CHECK(c, g.sharesAddressSpaceWithApplications == d.sharesAddressSpaceWithApplications && g.introspectionChunkCount == d.introspectionChunkCount
                         && g.discoveryChunkCount == d.discoveryChunkCount,
                  value, "something else was changed, %s", joined(args).c_str());
    };
    if (withFile)
    {
        iox::config::CmdLineParserConfigFileOption p;
        check(p);
    }
    else
    {
        iox::config::CmdLineParser p;
        check(p);
    }
}

// --------------------------------------------------------------------------------------------------------------- TOML files
using PE = iox::roudi::RouDiConfigFileParseError;
struct Num
{
    S text;          // empty: not given
    bool usable{false};
    bool strange{false}; // given, but no number of the right range
    uint64_t v{0};
};
Num number(Case& c, uint64_t hi, uint32_t badIn)
{
    Num n;
    if (c.chance(1, badIn))
    {
        static const char* const J[] = {"-1", "\"8\"", "8.5", "true", "[1]", "-9223372036854775808"};
        n.strange = true;
        switch (c.draw(3))
        {
        case 0:
            return Num{};
        case 1:
            n.text = J[c.draw(6)];
            return n;
        default:
            if (hi < INT64_MAX)
            {
                n.text = std::to_string(hi + 1 + c.draw(5));
                return n;
            }
            n.text = "-7";
            return n;
        }
    }
    n.usable = true;
    n.v = c.chance(1, 6) ? std::min<uint64_t>(hi, INT64_MAX) - c.draw(2) : c.draw(1U << c.range(1, 24)) + 1U;
    n.text = std::to_string(n.v);
    return n;
}

void tomlFile(Case& c)
{
    mute();
    std::ostringstream t;
    std::set<PE> problems;
    bool vague = false; // an error, of whichever kind
    auto blank = [&] {
        if (c.chance(1, 6))
        {
            t << (c.chance(1, 2) ? "\n" : "# a comment [[segment]]\n");
        }
    };
    struct Pool
    {
        uint64_t size;
        uint32_t count;
    };
    struct Seg
    {
        S reader, writer;
        std::vector<Pool> pools;
    };
    std::vector<Seg> segs;
    uint32_t bad = c.chance(1, 2) ? 1000000 : 12;
    const S own = S(iox::PosixGroup::getGroupOfCurrentProcess().getName().c_str());
    bool general = !c.chance(1, bad);
    if (general)
    {
        t << "[general]\n";
        blank();
        Num v;
        v.text = "1";
        v.usable = true;
        v.v = 1;
        if (c.chance(1, bad))
        {
            v = number(c, UINT32_MAX, 2);
        }
        if (!v.text.empty())
        {
            t << "version = " << v.text << "\n";
        }
        if (v.strange)
        {
            vague = true;
        }
        else if (!v.usable || v.v != 1)
        {
            problems.insert(PE::INVALID_CONFIG_FILE_VERSION);
        }
    }
    else
    {
        problems.insert(PE::NO_GENERAL_SECTION);
    }
    uint64_t ns = c.chance(1, bad) ? 0 : c.chance(1, 10) ? iox::MAX_SHM_SEGMENTS : c.range(1, 4);
    if (c.chance(1, bad))
    {
        ns = iox::MAX_SHM_SEGMENTS + 1;
        problems.insert(PE::MAX_NUMBER_OF_SEGMENTS_EXCEEDED);
    }
    if (ns == 0)
    {
        problems.insert(PE::NO_SEGMENTS);
    }
    for (uint64_t i = 0; i < ns; ++i)
    {
        blank();
        t << "[[segment]]\n";
        Seg s{own, own, {}};
        auto name = [&] { return S(c.chance(1, 8) ? 32 : c.range(1, 12), static_cast<char>('a' + c.draw(26))); };
        if (c.chance(1, 2))
        {
            s.reader = name();
            t << "reader = \"" << s.reader << "\"\n";
        }
        blank();
        if (c.chance(1, 2))
        {
            s.writer = name();
            t << "writer = \"" << s.writer << "\"\n";
        }
        uint64_t np = c.chance(1, bad) ? 0 : c.chance(1, 10) ? iox::MAX_NUMBER_OF_MEMPOOLS : c.range(1, 4);
        if (c.chance(1, bad))
        {
            np = iox::MAX_NUMBER_OF_MEMPOOLS + 1;
            problems.insert(PE::MAX_NUMBER_OF_MEMPOOLS_PER_SEGMENT_EXCEEDED);
        }
        if (np == 0)
        {
            problems.insert(PE::SEGMENT_WITHOUT_MEMPOOL);
        }
        for (uint64_t k = 0; k < np; ++k)
        {
            blank();
            t << (c.chance(1, 3) ? "  " : "") << "[[segment.mempool]]\n";
            Num size = number(c, UINT64_MAX, bad);
            Num count = number(c, UINT32_MAX, bad);
            auto put = [&](const char* key, const Num& n) {
                if (!n.text.empty())
                {
                    t << key << " = " << n.text << "\n";
                }
            };
            bool swap = c.chance(1, 2);
            put(swap ? "count" : "size", swap ? count : size);
            blank();
            put(swap ? "size" : "count", swap ? size : count);
            vague = vague || size.strange || count.strange;
            if (!size.usable && !size.strange)
            {
                problems.insert(PE::MEMPOOL_WITHOUT_CHUNK_SIZE);
            }
            if (!count.usable && !count.strange)
            {
                problems.insert(PE::MEMPOOL_WITHOUT_CHUNK_COUNT);
            }
            s.pools.push_back({size.v, static_cast<uint32_t>(count.v)});
        }
        segs.push_back(s);
    }
    S text = t.str();
    bool mutated = c.chance(1, 8);
    if (mutated)
    {
        uint64_t k = c.range(1, 4);
        for (uint64_t i = 0; i < k && !text.empty(); ++i)
        {
            static const char CH[] = "[]\"=#.\n 0-a\\'{},_x";
            size_t at = c.draw(static_cast<uint32_t>(text.size()));
            switch (c.draw(4))
            {
            case 0:
                text.erase(at, 1 + c.draw(6));
                break;
            case 1:
                text.insert(at, 1, CH[c.draw(sizeof(CH) - 1)]);
                break;
            case 2:
                text[at] = CH[c.draw(sizeof(CH) - 1)];
                break;
            default:
                text.resize(at);
            }
        }
    }
    for (size_t p = 0, q; p < text.size(); p = q + 1)
    {
        q = text.find('\n', p);
        q = q == S::npos ? text.size() : q;
        c.log("| %s", text.substr(p, q - p).c_str());
    }
    CmdLineArgs_t cmd;
    cmd.roudiConfig.logLevel = iox::log::LogLevel::Debug;
    cmd.roudiConfig.processKillDelay = iox::units::Duration::fromSeconds(c.draw(100));
    cmd.roudiConfig.uniqueRouDiId = iox::roudi::UniqueRouDiId{static_cast<uint16_t>(c.draw(65536))};
    bool viaFile = c.chance(1, 4);
    bool noFile = viaFile && c.chance(1, 6);
    auto run = [&]() -> iox::expected<iox::IceoryxConfig, PE> {
        if (!viaFile)
        {
            std::istringstream in(text);
            return iox::config::TomlRouDiConfigFileProvider::parse(in);
        }
        std::string pathText = scratch() + "/vrf1_toml_XXXXXX";
        char* path = &pathText[0];
        int fd = mkstemp(path);
        (void)!write(fd, text.data(), text.size());
        close(fd);
        if (noFile)
        {
            unlink(path);
        }
        cmd.configFilePath = iox::roudi::ConfigFilePathString_t(TruncateToCapacity, path);
        iox::config::TomlRouDiConfigFileProvider p(cmd);
        auto r = p.parse();
        unlink(path);
        return r;
    };
    auto r = run();
    if (noFile)
    {
        PBT_CHECK(c, r.has_error() && r.error() == PE::FILE_OPEN_FAILED, "toml-missing-file", "no error for a missing file");
        return;
    }
    if (mutated)
    {
        c.count("mutated");
        return;
    }
    bool fail = vague || !problems.empty();
    PBT_CHECK(c, r.has_error() == fail, fail ? "toml-accepts-invalid" : "toml-refuses-valid", "%s", fail ? "an invalid file is accepted" : "a valid file is refused");
    if (fail)
    {
        c.count("refused");
        if (!vague)
        {
            PBT_CHECK(c, problems.count(r.error()), "toml-error", "the reported error %d is none the file has", int(r.error()));
        }
        return;
    }
    c.nontrivial();
    auto& g = r.value();
    PBT_CHECK(c, g.m_sharedMemorySegments.size() == segs.size(), "toml-segments", "%lu segments instead of %lu", (unsigned long)g.m_sharedMemorySegments.size(),
              (unsigned long)segs.size());
    for (size_t i = 0; i < segs.size(); ++i)
    {
        auto& a = g.m_sharedMemorySegments[i];
        PBT_CHECK(c, segs[i].reader == a.m_readerGroup.c_str() && segs[i].writer == a.m_writerGroup.c_str(), "toml-groups",
                  "segment %lu: reader '%s' writer '%s' instead of '%s' '%s'", (unsigned long)i, a.m_readerGroup.c_str(), a.m_writerGroup.c_str(),
                  segs[i].reader.c_str(), segs[i].writer.c_str());
        auto& pools = a.m_mempoolConfig.m_mempoolConfig;
        PBT_CHECK(c, pools.size() == segs[i].pools.size(), "toml-pools", "segment %lu has %lu pools instead of %lu", (unsigned long)i, (unsigned long)pools.size(),
                  (unsigned long)segs[i].pools.size());
        for (size_t k = 0; k < pools.size(); ++k)
        {
            PBT_CHECK(c, pools[k].m_size == segs[i].pools[k].size && pools[k].m_chunkCount == segs[i].pools[k].count, "toml-pools",
                      "segment %lu pool %lu: %lu x %u instead of %lu x %u", (unsigned long)i, (unsigned long)k, (unsigned long)pools[k].m_size,
                      pools[k].m_chunkCount, (unsigned long)segs[i].pools[k].size, segs[i].pools[k].count);
        }
    }
    if (viaFile)
    {
        PBT_CHECK(c, g.logLevel == cmd.roudiConfig.logLevel && g.processKillDelay == cmd.roudiConfig.processKillDelay
                         && static_cast<uint16_t>(g.uniqueRouDiId) == static_cast<uint16_t>(cmd.roudiConfig.uniqueRouDiId),
                  "toml-options", "options of the command line were lost");
    }
}

void gatewayFile(Case& c)
{
    mute();
    using GE = iox::config::TomlGatewayConfigParseError;
    std::ostringstream t;
    std::set<int> problems;
    std::vector<std::array<S, 3>> want;
    uint32_t bad = c.chance(1, 2) ? 1000000 : 12;
    uint64_t n = c.chance(1, bad) ? 0 : c.range(1, 6);
    if (c.chance(1, bad))
    {
        n = iox::MAX_GATEWAY_SERVICES + (c.chance(1, 2) ? 0 : 1);
    }
    if (n == 0)
    {
        problems.insert(GE::INCOMPLETE_CONFIGURATION);
        t << "x = 1\n";
    }
    if (n > iox::MAX_GATEWAY_SERVICES)
    {
        problems.insert(GE::MAXIMUM_NUMBER_OF_ENTRIES_EXCEEDED);
    }
    for (uint64_t i = 0; i < n; ++i)
    {
        t << "[[services]]\n";
        std::array<S, 3> d;
        static const char* const K[] = {"service", "instance", "event"};
        uint64_t first = c.draw(3);
        for (uint64_t k = 0; k < 3; ++k)
        {
            uint64_t f = (first + k) % 3;
            static const char FIRST[] = "abZ_A";
            static const char REST[] = "ab0Z_9A";
            S s(1, FIRST[c.draw(5)]);
            uint64_t len = c.chance(1, 8) ? 99 : c.draw(8);
            for (uint64_t q = 0; q < len; ++q)
            {
                s += REST[c.draw(7)];
            }
            if (c.chance(1, bad))
            {
                static const char* const J[] = {"", "9a", "a-b", "a b", "a.b", "/a", "a\\u00e4", "*", "a/"};
                s = J[c.draw(9)];
                problems.insert(GE::INVALID_SERVICE_DESCRIPTION);
            }
            d[f] = s;
            if (c.chance(1, bad))
            {
                problems.insert(GE::INCOMPLETE_SERVICE_DESCRIPTION);
                if (c.chance(1, 2))
                {
                    t << K[f] << " = 5\n";
                }
                continue;
            }
            t << K[f] << " = \"" << s << "\"\n";
        }
        want.push_back(d);
    }
    S text = t.str();
    bool mutated = c.chance(1, 8);
    if (mutated)
    {
        size_t at = c.draw(static_cast<uint32_t>(text.size()));
        static const char CH[] = "[]\"=#.\n 0-a\\'{},_x";
        text[at] = CH[c.draw(sizeof(CH) - 1)];
    }
    for (size_t p = 0, q; p < text.size(); p = q + 1)
    {
        q = text.find('\n', p);
        q = q == S::npos ? text.size() : q;
        c.log("| %s", text.substr(p, q - p).c_str());
    }
    auto run = [&]() -> iox::expected<iox::config::GatewayConfig, GE> {
        if (c.chance(3, 4))
        {
            std::istringstream in(text);
            return iox::config::TomlGatewayConfigParser::parse(in);
        }
        std::string pathText = scratch() + "/vrf1_gw_XXXXXX";
        char* path = &pathText[0];
        int fd = mkstemp(path);
        (void)!write(fd, text.data(), text.size());
        close(fd);
        auto r = iox::config::TomlGatewayConfigParser::parse(iox::roudi::ConfigFilePathString_t(TruncateToCapacity, path));
        unlink(path);
        return r;
    };
    auto r = run();
    if (mutated)
    {
        return;
    }
    PBT_CHECK(c, r.has_error() == !problems.empty(), problems.empty() ? "gateway-refuses-valid" : "gateway-accepts-invalid", "wrong judgement");
    if (r.has_error())
    {
        PBT_CHECK(c, problems.count(r.error()), "gateway-error", "the reported error %d is none the file has", int(r.error()));
        return;
    }
    c.nontrivial();
    auto& v = r.value().m_configuredServices;
    PBT_CHECK(c, v.size() == want.size(), "gateway-services", "%lu instead of %lu", (unsigned long)v.size(), (unsigned long)want.size());
    for (size_t i = 0; i < want.size(); ++i)
    {
        auto& d = v[i].m_serviceDescription;
        PBT_CHECK(c, want[i][0] == d.getServiceIDString().c_str() && want[i][1] == d.getInstanceIDString().c_str() && want[i][2] == d.getEventIDString().c_str(),
                  "gateway-services", "entry %lu differs", (unsigned long)i);
    }
}
} // namespace

int main(int argc, char** argv)
{
    return pbt::runAll(argc, argv,
                       {{"definition", definition, 2}, {"structs", structs, 1}, {"roudi_args", roudiArgs, 2}, {"toml", tomlFile, 2}, {"gateway", gatewayFile, 1}});
}
