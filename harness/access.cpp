// Who may read and write which segment, for generated users, groups and configurations (S28). The user database the process
// sees is generated; the kernel enforces the rights against child processes that take these identities.
#include "iceoryx_posh/internal/mepoo/segment_manager.hpp"
#include "iceoryx_posh/internal/runtime/shared_memory_user.hpp"
#include "iox/detail/posix_acl.hpp"
#include "iox/file.hpp"
#include "iox/file_management_interface.hpp"
#include "iox/group_name.hpp"
#include "iox/posix_shared_memory_object.hpp"
#include "iox/relative_pointer.hpp"
#include "iox/user_name.hpp"
#include "iox_env.hpp"

#include <algorithm>
#include <fcntl.h>
#include <grp.h>
#include <pwd.h>
#include <set>
#include <sys/acl.h>
#include <acl/libacl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>

using pbt::Case;

namespace
{
struct User
{
    std::string name;
    uid_t uid;
    gid_t primary;
    std::vector<gid_t> more;
};
struct Group
{
    std::string name;
    gid_t gid;
};
struct Db
{
    std::vector<User> users;
    std::vector<Group> groups;
} g_db;
passwd g_pw;
group g_gr;
char g_none[] = "";
char* g_noMembers[] = {nullptr};

passwd* found(const User& u)
{
    static std::string n;
    n = u.name;
    g_pw = passwd{};
    g_pw.pw_name = &n[0];
    g_pw.pw_passwd = g_none;
    g_pw.pw_uid = u.uid;
    g_pw.pw_gid = u.primary;
    g_pw.pw_gecos = g_none;
    g_pw.pw_dir = g_none;
    g_pw.pw_shell = g_none;
    return &g_pw;
}
group* found(const Group& x)
{
    static std::string n;
    n = x.name;
    g_gr.gr_name = &n[0];
    g_gr.gr_passwd = g_none;
    g_gr.gr_gid = x.gid;
    g_gr.gr_mem = g_noMembers;
    return &g_gr;
}
} // namespace
extern "C" passwd* getpwnam(const char* n)
{
    errno = 0;
    for (auto& u : g_db.users)
    {
        if (u.name == n)
        {
            return found(u);
        }
    }
    return nullptr;
}
extern "C" passwd* getpwuid(uid_t id)
{
    errno = 0;
    for (auto& u : g_db.users)
    {
        if (u.uid == id)
        {
            return found(u);
        }
    }
    return nullptr;
}
extern "C" group* getgrnam(const char* n)
{
    errno = 0;
    for (auto& x : g_db.groups)
    {
        if (x.name == n)
        {
            return found(x);
        }
    }
    return nullptr;
}
extern "C" group* getgrgid(gid_t id)
{
    errno = 0;
    for (auto& x : g_db.groups)
    {
        if (x.gid == id)
        {
            return found(x);
        }
    }
    return nullptr;
}
extern "C" int getgrouplist(const char* n, gid_t first, gid_t* out, int* count)
{
    std::vector<gid_t> all{first};
    for (auto& u : g_db.users)
    {
        if (u.name == n)
        {
            for (auto x : u.more)
            {
                if (x != first)
                {
                    all.push_back(x);
                }
            }
        }
    }
    const int room = *count;
    *count = static_cast<int>(all.size());
    for (int i = 0; i < room && i < *count; ++i)
    {
        out[i] = all[static_cast<size_t>(i)];
    }
    return *count > room ? -1 : *count;
}

namespace
{
std::string genName(Case& c, const char* base, uint32_t i)
{
    std::string s = std::string(base) + std::to_string(i);
    switch (c.draw(5))
    {
    case 0:
        s += "-x_y";
        break;
    case 1:
        // the maximum length
        while (s.size() < 32)
        {
            s += 'q';
        }
        break;
    default:
        break;
    }
    return s;
}
std::set<gid_t> groupsOf(const User& u)
{
    std::set<gid_t> r(u.more.begin(), u.more.end());
    r.insert(u.primary);
    return r;
}
void genDb(Case& c, uint32_t maxGroups, uint32_t maxUsers)
{
    g_db = Db{};
    // the identity of the process itself (RouDi)
    g_db.groups.push_back({"root", getgid()});
    g_db.users.push_back({"root", getuid(), getgid(), {}});
    const uint32_t ng = 1 + c.draw(maxGroups);
    for (uint32_t i = 0; i < ng; ++i)
    {
        g_db.groups.push_back({genName(c, "grp", i), 70000 + i * 7 + c.draw(5)});
    }
    const uint32_t nu = 1 + c.draw(maxUsers);
    for (uint32_t i = 0; i < nu; ++i)
    {
        User u;
        u.name = genName(c, "usr", i);
        u.uid = 80000 + i * 7 + c.draw(5);
        u.primary = g_db.groups[1 + c.draw(ng)].gid;
        std::set<gid_t> seen{u.primary};
        for (uint32_t k = c.draw(4); k > 0; --k)
        {
            auto x = g_db.groups[1 + c.draw(ng)].gid;
            if (seen.insert(x).second)
            {
                u.more.push_back(x);
            }
        }
        if (c.chance(1, 3))
        {
            std::reverse(u.more.begin(), u.more.end());
        }
        g_db.users.push_back(u);
    }
}
std::string nameOf(gid_t g)
{
    for (auto& x : g_db.groups)
    {
        if (x.gid == g)
        {
            return x.name;
        }
    }
    return "";
}

struct Seg
{
    gid_t reader;
    gid_t writer;
    std::vector<env::PoolCfg> pools;
    uint64_t id{0};
    uint64_t size{0};
    bool known{false};
    uint64_t chunkBytes() const
    {
        uint64_t n = 0;
        for (auto& p : pools)
        {
            n += p.count * (p.size + sizeof(iox::mepoo::ChunkHeader));
        }
        return n;
    }
};

/// runs f in a child process with the identity of u and returns what it wrote
template <typename F>
std::string asUser(Case& c, const User& u, F&& f)
{
    int fd[2];
    if (pipe(fd) != 0)
    {
        c.discard("no pipe");
    }
    pid_t p = fork();
    if (p < 0)
    {
        c.discard("no fork");
    }
    if (p == 0)
    {
        close(fd[0]);
        signal(SIGABRT, SIG_DFL);
        signal(SIGSEGV, SIG_DFL);
        alarm(20);
        std::vector<gid_t> gs(u.more);
        gs.push_back(u.primary);
        if (setgroups(gs.size(), gs.data()) != 0 || setresgid(u.primary, u.primary, u.primary) != 0
            || setresuid(u.uid, u.uid, u.uid) != 0)
        {
            (void)!write(fd[1], "noid", 4);
            _exit(0);
        }
        std::string r = f();
        size_t at = 0;
        while (at < r.size())
        {
            auto n = write(fd[1], r.data() + at, r.size() - at);
            if (n <= 0)
            {
                break;
            }
            at += static_cast<size_t>(n);
        }
        (void)!write(fd[1], ".", 1);
        _exit(0);
    }
    close(fd[1]);
    std::string out;
    char b[4096];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0)
    {
        out.append(b, static_cast<size_t>(n));
    }
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (out == "noid")
    {
        c.discard("cannot take another identity");
    }
    if (out.empty() || out.back() != '.')
    {
        out += WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
    }
    return out;
}

/// whether a write to p survives, tried in a child
bool canWrite(volatile uint8_t* p)
{
    pid_t k = fork();
    if (k == 0)
    {
        signal(SIGSEGV, SIG_DFL);
        signal(SIGBUS, SIG_DFL);
        *p = 0x55;
        _exit(*p == 0x55 ? 0 : 1);
    }
    int st = 0;
    waitpid(k, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

void segments(Case& c)
{
    env::quiet();
    const bool large = c.chance(1, 60);
    genDb(c, large ? 4 : 8, large ? 2 : 5);
    std::vector<Seg> segs;
    if (large)
    {
        // the maximum number of segments; one user may read them all
        const gid_t base = 90000;
        const uint32_t n = iox::MAX_SHM_SEGMENTS - c.draw(2);
        for (uint32_t i = 0; i < n; ++i)
        {
            g_db.groups.push_back({"wr" + std::to_string(i), base + i});
            segs.push_back({g_db.groups[1].gid, static_cast<gid_t>(base + i), {{64, 1}}});
        }
        g_db.users[1].primary = g_db.groups[1].gid;
    }
    else
    {
        std::vector<gid_t> writers;
        for (size_t i = 1; i < g_db.groups.size(); ++i)
        {
            writers.push_back(g_db.groups[i].gid);
        }
        const uint32_t n = c.draw(6);
        for (uint32_t i = 0; i < n && !writers.empty(); ++i)
        {
            Seg s;
            auto k = c.draw(static_cast<uint32_t>(writers.size()));
            s.writer = writers[k];
            writers.erase(writers.begin() + k);
            s.reader = c.chance(1, 4) ? s.writer
                                      : g_db.groups[1 + c.draw(static_cast<uint32_t>(g_db.groups.size() - 1))].gid;
            uint64_t sz = 64;
            for (uint32_t p = 1 + c.draw(3); p > 0; --p)
            {
                s.pools.push_back({sz, 1 + c.draw(5)});
                sz += 64 * (1 + c.draw(3));
            }
            segs.push_back(s);
        }
    }
    iox::IceoryxConfig cfg;
    for (auto& s : segs)
    {
        iox::mepoo::MePooConfig mc;
        for (auto& p : s.pools)
        {
            mc.addMemPool({p.size, p.count});
        }
        cfg.m_sharedMemorySegments.push_back(
            {iox::PosixGroup::groupName_t(iox::TruncateToCapacity, nameOf(s.reader).c_str()),
             iox::PosixGroup::groupName_t(iox::TruncateToCapacity, nameOf(s.writer).c_str()),
             mc});
        c.log("segment: reader %s writer %s, %zu pools", nameOf(s.reader).c_str(), nameOf(s.writer).c_str(), s.pools.size());
    }
    cfg.introspectionChunkCount = 10;
    cfg.discoveryChunkCount = 10;
    cfg.domainId = iox::DomainId{env::processDomain()};
    cfg.sharesAddressSpaceWithApplications = true;
    for (auto& u : g_db.users)
    {
        std::string t;
        for (auto x : u.more)
        {
            t += " " + nameOf(x);
        }
        c.log("user %s: %s%s", u.name.c_str(), nameOf(u.primary).c_str(), t.c_str());
    }

    iox::roudi::IceOryxRouDiComponents comp(cfg);
    comp.portManager.stopPortIntrospection();
    auto& mm = comp.rouDiMemoryManager;
    auto* sm = mm.segmentManager().value();
    const uint64_t mgmtId = mm.mgmtMemoryProvider()->segmentId().value();
    const uint64_t mgmtSize = mm.mgmtMemoryProvider()->size();
    const auto smOffset = iox::UntypedRelativePointer::getOffset(iox::segment_id_t{mgmtId}, sm);
    const std::string prefix = iox::iceoryxResourcePrefix(cfg.domainId, iox::ResourceType::USER_DEFINED).c_str();
    auto shmName = [&](const Seg& s) { return "/" + prefix + nameOf(s.writer); };

    uint32_t judged = 0;
    for (auto& u : g_db.users)
    {
        auto gs = groupsOf(u);
        std::vector<size_t> writable, readable;
        for (size_t i = 0; i < segs.size(); ++i)
        {
            if (gs.count(segs[i].writer) != 0)
            {
                writable.push_back(i);
            }
            else if (gs.count(segs[i].reader) != 0)
            {
                readable.push_back(i);
            }
        }
        iox::PosixUser pu{iox::PosixUser::userName_t(iox::TruncateToCapacity, u.name.c_str())};
        auto info = sm->getSegmentInformationWithWriteAccessForUser(pu);
        PBT_CHECK(c,
                  info.m_memoryManager.has_value() == !writable.empty(),
                  "write-access",
                  "user %s is in the writer group of %zu segments, write access %s",
                  u.name.c_str(),
                  writable.size(),
                  info.m_memoryManager.has_value() ? "granted" : "refused");
        if (info.m_memoryManager.has_value())
        {
            // its pools are those of one of these segments
            auto& m = info.m_memoryManager.value().get();
            bool any = false;
            for (auto i : writable)
            {
                bool same = m.getNumberOfMemPools() == segs[i].pools.size();
                for (uint32_t k = 0; same && k < segs[i].pools.size(); ++k)
                {
                    auto pi = m.getMemPoolInfo(k);
                    same = pi.m_numChunks == segs[i].pools[k].count
                           && pi.m_chunkSize == segs[i].pools[k].size + sizeof(iox::mepoo::ChunkHeader);
                }
                any = any || same;
            }
            PBT_CHECK(c, any, "write-pools", "user %s got the pools of another segment", u.name.c_str());
        }
        ++judged;
        if (writable.size() > 1)
        {
            // documented as unsupported: never a mapping with two writable segments
            auto r = asUser(c, u, [&] {
                auto mp = sm->getSegmentMappings(pu);
                int w = 0;
                for (auto& x : mp)
                {
                    w += x.m_isWritable ? 1 : 0;
                }
                return "w" + std::to_string(w);
            });
            PBT_CHECK(c,
                      r == "w0." || r.find("signal") != std::string::npos || r.find("exit") != std::string::npos,
                      "two-writable",
                      "user %s in several writer groups: %s",
                      u.name.c_str(),
                      r.c_str());
            continue;
        }
        auto mp = sm->getSegmentMappings(pu);
        std::set<size_t> got;
        for (auto& x : mp)
        {
            size_t i = 0;
            while (i < segs.size() && nameOf(segs[i].writer) != x.m_sharedMemoryName.c_str())
            {
                ++i;
            }
            PBT_CHECK(c, i < segs.size(), "unknown-segment", "user %s: mapping of '%s'", u.name.c_str(), x.m_sharedMemoryName.c_str());
            PBT_CHECK(c, got.insert(i).second, "mapped-twice", "user %s: segment of %s listed twice", u.name.c_str(), nameOf(segs[i].writer).c_str());
            const bool w = std::find(writable.begin(), writable.end(), i) != writable.end();
            const bool r = std::find(readable.begin(), readable.end(), i) != readable.end();
            PBT_CHECK(c, w || r, "mapping-without-right", "user %s: segment of %s mapped without any right", u.name.c_str(), nameOf(segs[i].writer).c_str());
            PBT_CHECK(c,
                      x.m_isWritable == w,
                      "mapping-mode",
                      "user %s: segment of %s mapped %s",
                      u.name.c_str(),
                      nameOf(segs[i].writer).c_str(),
                      x.m_isWritable ? "writable" : "read-only");
            if (!segs[i].known)
            {
                segs[i].known = true;
                segs[i].id = x.m_segmentId;
                segs[i].size = x.m_size;
                for (auto& o : segs)
                {
                    PBT_CHECK(c, &o == &segs[i] || !o.known || o.id != x.m_segmentId, "same-id", "two segments with id %lu", x.m_segmentId);
                }
                PBT_CHECK(c, x.m_size >= segs[i].chunkBytes(), "segment-size", "segment of %lu bytes for %lu bytes of chunks", x.m_size, segs[i].chunkBytes());
            }
            PBT_CHECK(c, segs[i].id == x.m_segmentId && segs[i].size == x.m_size, "other-id", "segment of %s: other id or size", nameOf(segs[i].writer).c_str());
            if (info.m_memoryManager.has_value() && w)
            {
                PBT_CHECK(c, info.m_segmentID == x.m_segmentId, "write-id", "write access to id %lu, mapping has %lu", info.m_segmentID, x.m_segmentId);
            }
        }
        PBT_CHECK(c,
                  got.size() == writable.size() + readable.size(),
                  "mapping-missing",
                  "user %s: %zu segments mapped, rights for %zu",
                  u.name.c_str(),
                  got.size(),
                  writable.size() + readable.size());
    }

    // a recognisable byte at the end of every segment, written through its name
    std::vector<uint8_t*> maps(segs.size(), nullptr);
    std::vector<uint64_t> sizes(segs.size(), 0);
    for (size_t i = 0; i < segs.size(); ++i)
    {
        int fd = shm_open(shmName(segs[i]).c_str(), O_RDWR | O_CLOEXEC, 0);
        PBT_CHECK(c, fd >= 0, "no-shm", "no shared memory '%s'", shmName(segs[i]).c_str());
        struct stat st
        {
        };
        fstat(fd, &st);
        sizes[i] = static_cast<uint64_t>(st.st_size);
        maps[i] = static_cast<uint8_t*>(mmap(nullptr, sizes[i], PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
        maps[i][sizes[i] - 1] = static_cast<uint8_t>(100 + i);
    }
    uint32_t entered = 0;
    for (auto& u : g_db.users)
    {
        if (u.uid == 0)
        {
            continue;
        }
        auto gs = groupsOf(u);
        // what the kernel allows
        auto raw = asUser(c, u, [&] {
            std::string r;
            for (auto& s : segs)
            {
                for (int mode : {O_RDONLY, O_RDWR})
                {
                    int fd = shm_open(shmName(s).c_str(), mode | O_CLOEXEC, 0);
                    r += fd >= 0 ? '1' : '0';
                    if (fd >= 0)
                    {
                        close(fd);
                    }
                }
            }
            return r;
        });
        std::string want;
        size_t nw = 0;
        for (auto& s : segs)
        {
            const bool w = gs.count(s.writer) != 0;
            nw += w ? 1 : 0;
            want += w || gs.count(s.reader) != 0 ? '1' : '0';
            want += w ? '1' : '0';
        }
        PBT_CHECK(c,
                  raw == want + ".",
                  "kernel-access",
                  "user %s: may open (read, write per segment) %s, expected %s",
                  u.name.c_str(),
                  raw.c_str(),
                  want.c_str());
        if (nw > 1)
        {
            continue;
        }
        // what an application of that user gets; applications have to be in RouDi's group as well, whose members the
        // management segment is open to
        auto member = u;
        member.more.push_back(getgid());
        auto app = asUser(c, member, [&] {
            iox::UntypedRelativePointer::unregisterAll();
            auto r = iox::runtime::SharedMemoryUser::create(cfg.domainId, mgmtId, mgmtSize, smOffset);
            if (r.has_error())
            {
                return "error" + std::to_string(static_cast<int>(r.error()));
            }
            std::string t;
            for (size_t i = 0; i < segs.size(); ++i)
            {
                auto* b = segs[i].known ? static_cast<uint8_t*>(iox::UntypedRelativePointer::getBasePtr(iox::segment_id_t{segs[i].id}))
                                        : nullptr;
                if (b == nullptr)
                {
                    t += "00";
                    continue;
                }
                t += b[segs[i].size - 1] == 100 + i ? '1' : 'x';
                t += canWrite(b + segs[i].size / 2) ? '1' : '0';
            }
            return t;
        });
        PBT_CHECK(c,
                  app == want + ".",
                  "application-access",
                  "application of user %s: access (read, write per segment) %s, expected %s",
                  u.name.c_str(),
                  app.c_str(),
                  want.c_str());
        ++entered;
    }
    for (size_t i = 0; i < segs.size(); ++i)
    {
        munmap(maps[i], sizes[i]);
    }
    c.count("users judged", judged);
    c.count("applications entered", entered);
    c.nontrivial(!segs.empty() && entered > 0);
    if (large)
    {
        c.count("maximum number of segments", 1);
    }
}

void identities(Case& c)
{
    env::quiet();
    genDb(c, 8, 6);
    uint32_t n = 0;
    auto uname = [](const std::string& s) { return iox::PosixUser::userName_t(iox::TruncateToCapacity, s.c_str()); };
    auto gname = [](const std::string& s) { return iox::PosixGroup::groupName_t(iox::TruncateToCapacity, s.c_str()); };
    for (uint32_t k = 0; k < 12; ++k)
    {
        ++n;
        // an existing or an unknown user
        const User* u = c.chance(3, 4) ? &g_db.users[c.draw(static_cast<uint32_t>(g_db.users.size()))] : nullptr;
        const std::string un = u != nullptr ? u->name : "ghost" + std::to_string(c.draw(3));
        const uid_t ui = u != nullptr ? u->uid : 60000 + c.draw(3);
        const Group* g = c.chance(3, 4) ? &g_db.groups[c.draw(static_cast<uint32_t>(g_db.groups.size()))] : nullptr;
        const std::string gn = g != nullptr ? g->name : "ghosts" + std::to_string(c.draw(3));
        const gid_t gi = g != nullptr ? g->gid : 61000 + c.draw(3);

        auto a = iox::PosixUser::getUserID(uname(un));
        PBT_CHECK(c, a.has_value() == (u != nullptr) && (!a.has_value() || *a == ui), "user-id", "id of user %s", un.c_str());
        auto b = iox::PosixUser::getUserName(ui);
        PBT_CHECK(c, b.has_value() == (u != nullptr) && (!b.has_value() || un == b->c_str()), "user-name", "name of user %u", ui);
        auto d = iox::PosixGroup::getGroupID(gname(gn));
        PBT_CHECK(c, d.has_value() == (g != nullptr) && (!d.has_value() || *d == gi), "group-id", "id of group %s", gn.c_str());
        auto f = iox::PosixGroup::getGroupName(gi);
        PBT_CHECK(c, f.has_value() == (g != nullptr) && (!f.has_value() || gn == f->c_str()), "group-name", "name of group %u", gi);
        for (int byName = 0; byName < 2; ++byName)
        {
            auto pu = byName != 0 ? iox::PosixUser(uname(un)) : iox::PosixUser(ui);
            auto pg = byName != 0 ? iox::PosixGroup(gname(gn)) : iox::PosixGroup(gi);
            PBT_CHECK(c, pu.doesExist() == (u != nullptr), "user-exists", "user %s by %s: exists is %d", un.c_str(), byName != 0 ? "name" : "id", pu.doesExist());
            PBT_CHECK(c, pg.doesExist() == (g != nullptr), "group-exists", "group %s by %s: exists is %d", gn.c_str(), byName != 0 ? "name" : "id", pg.doesExist());
            if (u != nullptr)
            {
                PBT_CHECK(c, pu.getID() == ui && un == pu.getName().c_str(), "user", "user %s", un.c_str());
            }
            if (g != nullptr)
            {
                PBT_CHECK(c, pg.getID() == gi && gn == pg.getName().c_str(), "group", "group %s", gn.c_str());
            }
            std::vector<gid_t> got;
            for (auto& x : pu.getGroups())
            {
                got.push_back(x.getID());
            }
            std::sort(got.begin(), got.end());
            std::vector<gid_t> want;
            if (u != nullptr)
            {
                auto s = groupsOf(*u);
                want.assign(s.begin(), s.end());
            }
            PBT_CHECK(c, got == want, "groups", "user %s: %zu groups instead of %zu", un.c_str(), got.size(), want.size());
        }
        auto o = iox::Ownership::from_user_and_group(ui, gi);
        PBT_CHECK(c, o.has_value() == (u != nullptr && g != nullptr) && (!o.has_value() || (o->uid() == ui && o->gid() == gi)),
                  "ownership-ids", "ownership of %u %u", ui, gi);
        auto cu = iox::UserName::create(iox::string<32>(iox::TruncateToCapacity, un.c_str()));
        auto cg = iox::GroupName::create(iox::string<32>(iox::TruncateToCapacity, gn.c_str()));
        if (!cu.has_error() && !cg.has_error())
        {
            auto p = iox::Ownership::from_user_and_group(cu.value(), cg.value());
            PBT_CHECK(c, p.has_value() == (u != nullptr && g != nullptr) && (!p.has_value() || (p->uid() == ui && p->gid() == gi)),
                      "ownership-names", "ownership of %s %s: %s", un.c_str(), gn.c_str(), p.has_value() ? "given" : "none");
        }
    }
    c.count("identities", n);
    c.nontrivial(true);
}

std::string scratch()
{
    const char* d = getenv("VERIF_SCRATCH");
    return std::string(d != nullptr ? d : "/tmp") + "/acc" + std::to_string(getpid());
}

void acl(Case& c)
{
    env::quiet();
    genDb(c, 6, 6);
    using A = iox::detail::PosixAcl;
    A a;
    std::map<std::pair<int, uint32_t>, int> want;
    int total = 0;
    bool dup = false;
    static const A::Permission perms[] = {A::Permission::NONE, A::Permission::READ, A::Permission::WRITE, A::Permission::READWRITE};
    auto put = [&](int tag, uint32_t id, A::Permission p, bool ok) {
        if (ok)
        {
            dup = dup || want.count({tag, id}) != 0;
            want[{tag, id}] = static_cast<int>(p);
            ++total;
        }
    };
    const uint32_t n = c.draw(c.chance(1, 8) ? 26 : 8);
    const bool wellFormed = c.chance(3, 4);
    auto base = [&](A::Category k) {
        auto p = perms[c.draw(4)];
        const bool room = total < A::MaxNumOfPermissions;
        bool ok = a.addPermissionEntry(k, p);
        PBT_CHECK(c, ok == room, "acl-entry", "entry %d %s", total, ok ? "accepted" : "refused");
        put(static_cast<int>(k), 0, p, ok);
    };
    if (wellFormed)
    {
        base(A::Category::USER);
        base(A::Category::GROUP);
        base(A::Category::OTHERS);
    }
    for (uint32_t i = 0; i < n; ++i)
    {
        const bool room = total < A::MaxNumOfPermissions;
        auto p = perms[c.draw(4)];
        const bool known = c.chance(5, 6);
        switch (c.draw(wellFormed ? 4 : 5))
        {
        case 0: {
            auto& u = g_db.users[c.draw(static_cast<uint32_t>(g_db.users.size()))];
            bool ok = a.addUserPermission(p, iox::PosixUser::userName_t(iox::TruncateToCapacity, known ? u.name.c_str() : c.chance(1, 2) ? "" : "ghost"));
            PBT_CHECK(c, ok == (known && room), "acl-user", "%s user, entry %d: %s", known ? "known" : "unknown", total, ok ? "accepted" : "refused");
            put(ACL_USER, u.uid, p, ok);
            break;
        }
        case 1: {
            auto& g = g_db.groups[c.draw(static_cast<uint32_t>(g_db.groups.size()))];
            bool ok = a.addGroupPermission(p, iox::PosixGroup::groupName_t(iox::TruncateToCapacity, known ? g.name.c_str() : c.chance(1, 2) ? "" : "ghosts"));
            PBT_CHECK(c, ok == (known && room), "acl-group", "%s group, entry %d: %s", known ? "known" : "unknown", total, ok ? "accepted" : "refused");
            put(ACL_GROUP, g.gid, p, ok);
            break;
        }
        case 2: {
            auto& u = g_db.users[c.draw(static_cast<uint32_t>(g_db.users.size()))];
            bool ok = a.addPermissionEntry(A::Category::SPECIFIC_USER, p, known ? u.uid : 4242);
            PBT_CHECK(c, ok == (known && room), "acl-user", "%s user id, entry %d: %s", known ? "known" : "unknown", total, ok ? "accepted" : "refused");
            put(ACL_USER, u.uid, p, ok);
            break;
        }
        case 3: {
            auto& g = g_db.groups[c.draw(static_cast<uint32_t>(g_db.groups.size()))];
            bool ok = a.addPermissionEntry(A::Category::SPECIFIC_GROUP, p, known ? g.gid : 4242);
            PBT_CHECK(c, ok == (known && room), "acl-group", "%s group id, entry %d: %s", known ? "known" : "unknown", total, ok ? "accepted" : "refused");
            put(ACL_GROUP, g.gid, p, ok);
            break;
        }
        default:
            base(c.of({A::Category::USER, A::Category::GROUP, A::Category::OTHERS}));
            break;
        }
    }
    const bool valid = !dup && want.count({ACL_USER_OBJ, 0}) != 0 && want.count({ACL_GROUP_OBJ, 0}) != 0 && want.count({ACL_OTHER, 0}) != 0;
    // a shared memory object: the kind of file the rights are set for
    const std::string name = std::string("/") + iox::build::IOX_DEFAULT_RESOURCE_PREFIX + "_" + std::to_string(env::processDomain()) + "_acl";
    int fd = shm_open(name.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0640);
    if (fd < 0)
    {
        c.discard("no shared memory");
    }
    fchmod(fd, 0640);
    const bool ok = a.writePermissionsToFile(fd);
    std::map<std::pair<int, uint32_t>, int> got;
    acl_t x = acl_get_fd(fd);
    acl_entry_t en;
    for (int r = acl_get_entry(x, ACL_FIRST_ENTRY, &en); r == 1; r = acl_get_entry(x, ACL_NEXT_ENTRY, &en))
    {
        acl_tag_t tag;
        acl_permset_t ps;
        acl_get_tag_type(en, &tag);
        acl_get_permset(en, &ps);
        uint32_t id = 0;
        if (tag == ACL_USER || tag == ACL_GROUP)
        {
            auto* q = static_cast<uint32_t*>(acl_get_qualifier(en));
            id = *q;
            acl_free(q);
        }
        int p = (acl_get_perm(ps, ACL_READ) == 1 ? ACL_READ : 0) | (acl_get_perm(ps, ACL_WRITE) == 1 ? ACL_WRITE : 0)
                | (acl_get_perm(ps, ACL_EXECUTE) == 1 ? ACL_EXECUTE : 0);
        got[{tag, id}] = p;
    }
    acl_free(x);
    close(fd);
    shm_unlink(name.c_str());
    PBT_CHECK(c, ok == valid, "acl-write", "%d entries, %s list: write %s", total, valid ? "valid" : "invalid", ok ? "succeeded" : "failed");
    if (!ok)
    {
        want.clear();
        want[{ACL_USER_OBJ, 0}] = ACL_READ | ACL_WRITE;
        want[{ACL_GROUP_OBJ, 0}] = ACL_READ;
        want[{ACL_OTHER, 0}] = 0;
    }
    // the mask never takes away what was asked for
    auto mask = got.find({ACL_MASK, 0});
    if (mask != got.end())
    {
        PBT_CHECK(c, mask->second == (ACL_READ | ACL_WRITE), "acl-mask", "mask %d", mask->second);
        got.erase(mask);
    }
    PBT_CHECK(c, got == want, "acl-content", "file has %zu entries (other rights) instead of %zu", got.size(), want.size());
    c.count("entries", static_cast<uint64_t>(total));
    c.nontrivial(total >= 3);
}

void ownership(Case& c)
{
    env::quiet();
    genDb(c, 6, 6);
    const auto path = scratch();
    (void)unlink(path.c_str());
    auto fp = iox::FilePath::create(iox::string<255>(iox::TruncateToCapacity, path.c_str()));
    // (a file that the owner may not read and write cannot be created for that)
    const uint32_t initial = c.draw(01000) | 0600;
    mode_t mask = static_cast<mode_t>(c.chance(1, 2) ? 0 : c.draw(0100));
    mode_t old = umask(mask);
    auto file = iox::FileBuilder()
                    .open_mode(iox::OpenMode::ExclusiveCreate)
                    .access_mode(iox::AccessMode::ReadWrite)
                    .permissions(iox::access_rights::from_value_sanitized(static_cast<iox::access_rights::value_type>(initial)))
                    .create(fp.value());
    umask(old);
    PBT_CHECK(c, !file.has_error(), "file-create", "file not created: %d", static_cast<int>(file.has_error() ? static_cast<int>(file.error()) : -1));
    auto& f = file.value();
    uint32_t mode = initial & ~mask;
    uid_t uid = getuid();
    gid_t gid = getgid();
    uint64_t size = 0;
    uint32_t n = 0;
    auto verify = [&] {
        struct stat st
        {
        };
        stat(path.c_str(), &st);
        auto p = f.get_permissions();
        PBT_CHECK(c, (st.st_mode & 07777) == mode, "file-mode", "mode %o instead of %o", st.st_mode & 07777, mode);
        PBT_CHECK(c, !p.has_error() && (p.value().value() & 0777) == (mode & 0777), "file-get-mode", "reported mode %o instead of %o", p.has_error() ? 0 : p.value().value(), mode);
        auto o = f.get_ownership();
        PBT_CHECK(c, st.st_uid == uid && st.st_gid == gid, "file-owner", "owner %u:%u instead of %u:%u", st.st_uid, st.st_gid, uid, gid);
        PBT_CHECK(c, !o.has_error() && o.value().uid() == uid && o.value().gid() == gid, "file-get-owner", "reported owner differs");
        auto s = f.get_size();
        PBT_CHECK(c, !s.has_error() && s.value() == size, "file-size", "size %lu instead of %lu", s.has_error() ? 0 : s.value(), size);
        ++n;
    };
    verify();
    for (uint32_t k = 1 + c.draw(8); k > 0; --k)
    {
        switch (c.draw(3))
        {
        case 0: {
            mode = c.draw(010000);
            auto r = f.set_permissions(iox::access_rights::from_value_sanitized(static_cast<iox::access_rights::value_type>(mode)));
            PBT_CHECK(c, !r.has_error(), "file-set-mode", "mode %o refused", mode);
            break;
        }
        case 1: {
            auto& u = g_db.users[c.draw(static_cast<uint32_t>(g_db.users.size()))];
            auto& g = g_db.groups[c.draw(static_cast<uint32_t>(g_db.groups.size()))];
            auto o = iox::Ownership::from_user_and_group(u.uid, g.gid);
            PBT_CHECK(c, o.has_value(), "ownership-ids", "ownership of known %s and %s", u.name.c_str(), g.name.c_str());
            auto r = f.set_ownership(o.value());
            PBT_CHECK(c, !r.has_error(), "file-set-owner", "owner refused");
            uid = u.uid;
            gid = g.gid;
            // a change of owner may clear the set-id bits
            struct stat st
            {
            };
            stat(path.c_str(), &st);
            mode = (mode & 01777) | (st.st_mode & 06000 & mode);
            break;
        }
        default: {
            uint8_t b[64] = {};
            auto len = 1 + c.draw(64);
            if (auto r = f.write_at(size, b, len); !r.has_error())
            {
                size += r.value();
            }
            struct stat st
            {
            };
            stat(path.c_str(), &st);
            mode = (mode & 01777) | (st.st_mode & 06000 & mode);
            break;
        }
        }
        verify();
    }
    (void)unlink(path.c_str());
    c.count("states", n);
    c.nontrivial(n >= 2);
}
} // namespace

int main(int argc, char** argv)
{
    std::vector<pbt::Test> tests;
    auto add = [&](const char* n, auto f, double weight, uint64_t block) {
        pbt::Test t;
        t.name = n;
        t.run = f;
        t.weight = weight;
        t.block = block;
        t.hangSec = 40;
        tests.push_back(t);
    };
    add("segments", segments, 3.0, 100);
    add("identities", identities, 0.5, 3000);
    add("acl", acl, 1.0, 2000);
    add("ownership", ownership, 0.5, 2000);
    return pbt::runAll(argc, argv, tests);
}
