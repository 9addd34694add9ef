// Chunk layout and pool choice (S06), position independent pointers (S24), wire format of the daemon's messages (S22).
#include "iceoryx_posh/capro/service_description.hpp"
#include "iceoryx_posh/internal/mepoo/memory_manager.hpp"
#include "iceoryx_posh/internal/mepoo/shared_chunk.hpp"
#include "iceoryx_posh/internal/mepoo/shm_safe_unmanaged_chunk.hpp"
#include "iceoryx_posh/internal/runtime/ipc_message.hpp"
#include "iceoryx_posh/mepoo/chunk_header.hpp"
#include "iceoryx_posh/mepoo/mepoo_config.hpp"
#include "iceoryx_posh/popo/client_options.hpp"
#include "iceoryx_posh/popo/publisher_options.hpp"
#include "iceoryx_posh/popo/server_options.hpp"
#include "iceoryx_posh/popo/subscriber_options.hpp"
#include "iox/bump_allocator.hpp"
#include "iox/detail/serialization.hpp"
#include "iox/logging.hpp"
#include "iox/relative_pointer.hpp"
#include "iox/detail/relative_pointer_data.hpp"
#include "iox/relocatable_ptr.hpp"
#include "pbt.hpp"

#include <memory>
#include <set>
#include <sys/mman.h>
#include <unistd.h>

using pbt::Case;
using S = std::string;
using namespace iox::mepoo;
using u128 = unsigned __int128;

namespace
{
// ------------------------------------------------------------------ layout of one chunk (S06)
constexpr uint64_t HUGE_MAP = 18ULL << 30;
uint8_t* hugeMap()
{
    static uint8_t* p = [] {
        void* m = mmap(nullptr, HUGE_MAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return m == MAP_FAILED ? nullptr : static_cast<uint8_t*>(m);
    }();
    return p;
}
uint64_t near(Case& c, uint64_t v)
{
    return v + c.draw(5) - 2;
}
uint32_t alignment(Case& c, uint32_t maxShift)
{
    if (c.chance(1, 12))
    {
        return c.chance(1, 3) ? 0 : static_cast<uint32_t>(near(c, 1ULL << c.range(2, 31)));
    }
    return 1U << c.draw(maxShift + 1);
}
struct Wish
{
    uint64_t ps;
    uint32_t pa, hs, ha;
};
u128 required(const Wish& w)
{
    const u128 pa = w.pa == 0 ? 1 : w.pa;
    const u128 H = sizeof(ChunkHeader);
    if (w.hs == 0)
    {
        return pa <= alignof(ChunkHeader) ? H + w.ps : H - alignof(ChunkHeader) + pa + w.ps;
    }
    const u128 pre = (H + w.hs + 3) / 4 * 4;
    return pre + (pa > 4 ? pa : 4) + w.ps;
}
bool pow2(uint32_t x)
{
    return x != 0 && (x & (x - 1)) == 0;
}
/// which errors are justified
std::set<ChunkSettings::Error> faults(const Wish& w)
{
    std::set<ChunkSettings::Error> r;
    uint32_t pa = w.pa == 0 ? 1 : w.pa, ha = w.ha == 0 ? 1 : w.ha;
    if (!pow2(pa) || !pow2(ha))
    {
        r.insert(ChunkSettings::Error::ALIGNMENT_NOT_POWER_OF_TWO);
    }
    if (ha > alignof(ChunkHeader))
    {
        r.insert(ChunkSettings::Error::USER_HEADER_ALIGNMENT_EXCEEDS_CHUNK_HEADER_ALIGNMENT);
    }
    if (w.hs % ha != 0)
    {
        r.insert(ChunkSettings::Error::USER_HEADER_SIZE_NOT_MULTIPLE_OF_ITS_ALIGNMENT);
    }
    // too large, or the offset of the payload does not fit into the chunk header
    if (required(w) > u128(~0ULL) || (w.hs != 0 && required(w) - w.ps > 0xffffffffU))
    {
        r.insert(ChunkSettings::Error::REQUIRED_CHUNK_SIZE_EXCEEDS_MAX_CHUNK_SIZE);
    }
    return r;
}
/// the headers of a chunk at `chunk` of `size` bytes
void checkLayout(Case& c, ChunkHeader* h, uint64_t size, const Wish& w, const char* where)
{
    const auto base = reinterpret_cast<uint64_t>(h);
    const auto pay = reinterpret_cast<uint64_t>(h->userPayload());
    const uint32_t pa = w.pa == 0 ? 1 : w.pa;
    const uint32_t ha = w.ha == 0 ? 1 : w.ha;
    PBT_CHECK(c, pay % pa == 0, "layout-alignment", "%s: payload at %#lx is not aligned to %u", where, pay, pa);
    PBT_CHECK(c, pay >= base + sizeof(ChunkHeader) + w.hs, "layout-overlap", "%s: payload at offset %lu, headers take %lu", where, pay - base, sizeof(ChunkHeader) + w.hs);
    PBT_CHECK(c, u128(pay - base) + w.ps <= size, "layout-overrun", "%s: payload at offset %lu with %lu bytes in a chunk of %lu", where, pay - base, w.ps, size);
    PBT_CHECK(c, ChunkHeader::fromUserPayload(h->userPayload()) == h, "layout-back", "%s: payload does not lead back to the chunk header", where);
    const auto* ch = h;
    PBT_CHECK(c, ch->userPayload() == h->userPayload() && ChunkHeader::fromUserPayload(ch->userPayload()) == h, "layout-back", "%s: const access differs", where);
    if (w.hs == 0)
    {
        PBT_CHECK(c, h->userHeader() == nullptr && h->userHeaderId() == ChunkHeader::NO_USER_HEADER, "layout-user-header", "%s: a user header that was not asked for", where);
    }
    else
    {
        const auto uh = reinterpret_cast<uint64_t>(h->userHeader());
        PBT_CHECK(c, h->userHeaderId() != ChunkHeader::NO_USER_HEADER && uh % ha == 0 && uh >= base + sizeof(ChunkHeader) && uh + w.hs <= pay, "layout-user-header", "%s: user header at offset %lu size %u, payload at %lu", where, uh - base, w.hs, pay - base);
        PBT_CHECK(c, ChunkHeader::fromUserHeader(h->userHeader()) == h, "layout-back", "%s: user header does not lead back to the chunk header", where);
    }
    PBT_CHECK(c, h->chunkSize() == size && h->userHeaderSize() == w.hs && h->userPayloadSize() == w.ps && h->userPayloadAlignment() == pa, "layout-fields", "%s: sizes in the header are wrong", where);
    PBT_CHECK(c, h->usedSizeOfChunk() == pay - base + w.ps, "layout-fields", "%s: used size %lu", where, h->usedSizeOfChunk());
}
void fill(void* p, uint64_t n, uint64_t tag)
{
    auto* b = static_cast<uint8_t*>(p);
    for (uint64_t i = 0; i < n; ++i)
    {
        b[i] = static_cast<uint8_t>(tag + i * 7);
    }
}
bool filled(const void* p, uint64_t n, uint64_t tag)
{
    auto* b = static_cast<const uint8_t*>(p);
    for (uint64_t i = 0; i < n; ++i)
    {
        if (b[i] != static_cast<uint8_t>(tag + i * 7))
        {
            return false;
        }
    }
    return true;
}
void layoutTest(Case& c)
{
    Wish w{};
    const bool big = c.chance(1, 4);
    w.pa = alignment(c, big ? 31 : 12);
    w.ha = c.chance(1, 10) ? alignment(c, 6) : 1U << c.draw(4);
    const uint32_t unit = w.ha == 0 ? 1 : w.ha;
    w.hs = c.chance(1, 3) ? 0 : static_cast<uint32_t>(big && c.chance(1, 2) ? c.u64b() : c.draw(64));
    if (!c.chance(1, 10))
    {
        w.hs = w.hs / unit * unit;
    }
    w.ps = big ? (c.chance(1, 3) ? ~0ULL - c.draw(200) - (c.chance(1, 2) ? w.pa : 0) - (c.chance(1, 2) ? w.hs : 0) : c.u64b()) : c.draw(c.chance(1, 8) ? 5000 : 200);
    c.log("payload %lu aligned to %u, user header %u aligned to %u", w.ps, w.pa, w.hs, w.ha);
    auto s = ChunkSettings::create(w.ps, w.pa, w.hs, w.ha);
    auto f = faults(w);
    PBT_CHECK(c, s.has_value() == f.empty(), "settings-accept", "settings were %s", f.empty() ? "refused" : "accepted");
    if (!s.has_value())
    {
        PBT_CHECK(c, f.count(s.error()) == 1, "settings-error", "wrong error %u", unsigned(s.error()));
        return;
    }
    const uint64_t need = static_cast<uint64_t>(required(w));
    PBT_CHECK(c, s->requiredChunkSize() == need, "settings-size", "required chunk size %lu but %lu expected", s->requiredChunkSize(), need);
    PBT_CHECK(c, s->userPayloadSize() == w.ps && s->userPayloadAlignment() == (w.pa == 0 ? 1 : w.pa) && s->userHeaderSize() == w.hs && s->userHeaderAlignment() == (w.ha == 0 ? 1 : w.ha), "settings-fields", "settings do not say what was asked for");
    if (hugeMap() == nullptr || need > HUGE_MAP / 2)
    {
        return;
    }
    // every address a pool could place the chunk at is a multiple of 8
    const uint64_t slack = c.chance(1, 6) ? c.draw(64) * 8 : 0;
    const uint64_t room = HUGE_MAP - need - slack - 64;
    uint64_t off = c.chance(3, 4) ? c.draw(std::min<uint64_t>(room / 8, 4096)) * 8 : 0;
    if (big && c.chance(1, 2))
    {
        off = c.draw(room / 8) * 8;
    }
    uint8_t* at = hugeMap() + off;
    const uint64_t guard = 16;
    fill(at + need + slack, guard, 0x31);
    auto* h = new (at) ChunkHeader(need + slack, s.value());
    checkLayout(c, h, need + slack, w, "fresh chunk");
    const uint64_t pn = std::min<uint64_t>(w.ps, 6000), hn = std::min<uint64_t>(w.hs, 6000);
    auto* pay = static_cast<uint8_t*>(h->userPayload());
    fill(pay + (w.ps - pn), pn, 0x11);
    fill(pay, pn, 0x11);
    if (w.hs != 0)
    {
        auto* uh = static_cast<uint8_t*>(h->userHeader());
        fill(uh + (w.hs - hn), hn, 0x77);
        fill(uh, hn, 0x77);
    }
    checkLayout(c, h, need + slack, w, "written chunk");
    PBT_CHECK(c, filled(pay, pn, 0x11) && filled(at + need + slack, guard, 0x31) && (w.hs == 0 || filled(h->userHeader(), hn, 0x77)), "layout-content", "user header, payload or the memory behind the chunk changed");
    static uint32_t uses = 0;
    if (big && ++uses % 256 == 0)
    {
        madvise(hugeMap(), HUGE_MAP, MADV_DONTNEED);
    }
    c.nontrivial(w.hs != 0 || w.pa > 8);
}

// ------------------------------------------------------------------ pools (S06)
struct Mem
{
    explicit Mem(uint64_t n)
        : size(n)
        , p(static_cast<uint8_t*>(n == 0 ? nullptr : aligned_alloc(8, (n + 7) / 8 * 8)))
    {
    }
    ~Mem()
    {
        free(p);
    }
    uint64_t size;
    uint8_t* p;
};
struct Held
{
    Wish w;
    uint32_t pool;
    uint64_t tag;
    ChunkHeader* h;
    std::vector<SharedChunk> refs;
    std::vector<ShmSafeUnmanagedChunk> raw;
};
void configCase(Case& c, MePooConfig& cfg, std::vector<std::pair<uint64_t, uint32_t>>& pools)
{
    uint64_t n = c.chance(1, 10) ? c.range(1, 8) : c.range(1, 4);
    std::map<uint64_t, uint32_t> sum;
    for (uint64_t i = 0; i < n; ++i)
    {
        uint64_t size = c.chance(1, 4) ? c.range(1, 4) * 64 : c.range(1, 60) * 8;
        auto count = static_cast<uint32_t>(c.range(1, 4));
        cfg.addMemPool({size, count});
        sum[size] += count;
    }
    cfg.optimize();
    const auto* got = cfg.getMemPoolConfig();
    PBT_CHECK(c, got->size() == sum.size(), "config-optimize", "%lu pools after merging instead of %lu", got->size(), sum.size());
    size_t k = 0;
    for (auto& e : sum)
    {
        PBT_CHECK(c, (*got)[k].m_size == e.first && (*got)[k].m_chunkCount == e.second, "config-optimize", "pool %lu has size %lu and %u chunks instead of %lu and %u", k, uint64_t((*got)[k].m_size), (*got)[k].m_chunkCount, e.first, e.second);
        pools.emplace_back(e.first + sizeof(ChunkHeader), e.second);
        ++k;
    }
}
void poolsTest(Case& c)
{
    MePooConfig cfg;
    std::vector<std::pair<uint64_t, uint32_t>> pools;
    if (c.chance(1, 40))
    {
        MemoryManager none;
        auto s = ChunkSettings::create(c.draw(100), 8);
        auto r = none.getChunk(s.value());
        PBT_CHECK(c, r.has_error() && r.error() == MemoryManager::Error::NO_MEMPOOLS_AVAILABLE && none.getNumberOfMemPools() == 0, "pool-error", "a chunk without any pool");
        return;
    }
    configCase(c, cfg, pools);
    const uint64_t mg = MemoryManager::requiredManagementMemorySize(cfg), ck = MemoryManager::requiredChunkMemorySize(cfg);
    PBT_CHECK(c, MemoryManager::requiredFullMemorySize(cfg) == mg + ck, "pool-size", "full size is not the sum");
    Mem mgmt(mg), chunks(ck);
    iox::BumpAllocator ma(mgmt.p, mg), ca(chunks.p, ck);
    // with or without registered segments; the pointers kept in the pools have to lead to the same place
    const bool reg = c.chance(1, 2);
    iox::optional<iox::segment_id_underlying_t> i1, i2;
    if (reg)
    {
        i1 = iox::UntypedRelativePointer::registerPtr(mgmt.p, mg);
        i2 = iox::UntypedRelativePointer::registerPtr(chunks.p, ck);
        PBT_CHECK(c, i1.has_value() && i2.has_value(), "register", "segment cannot be registered");
    }
    auto mm = std::make_unique<MemoryManager>();
    mm->configureMemoryManager(cfg, ma, ca);
    PBT_CHECK(c, mm->getNumberOfMemPools() == pools.size(), "pool-count", "%u pools", mm->getNumberOfMemPools());
    std::vector<uint32_t> used(pools.size(), 0), peak(pools.size(), 0);
    std::vector<std::unique_ptr<Held>> held;
    uint64_t tags = 1, got = 0;
    auto verify = [&](Held& h) {
        checkLayout(c, h.h, pools[h.pool].first, h.w, "held chunk");
        PBT_CHECK(c, filled(h.h->userPayload(), h.w.ps, h.tag) && (h.w.hs == 0 || filled(h.h->userHeader(), h.w.hs, h.tag + 1)), "pool-content", "content of a held chunk changed");
    };
    const uint64_t steps = c.range(1, 40);
    for (uint64_t k = 0; k < steps; ++k)
    {
        switch (held.empty() ? 0 : c.weighted({6, 2, 2, 2, 2, 2, 1}))
        {
        case 0:
        {
            Wish w{};
            const auto& aim = pools[c.draw(pools.size())];
            w.pa = c.chance(1, 2) ? 8 : 1U << c.draw(8);
            w.ha = 1U << c.draw(4);
            w.hs = c.chance(1, 2) ? 0 : static_cast<uint32_t>(c.draw(40) / w.ha * w.ha);
            w.ps = 0;
            const uint64_t least = static_cast<uint64_t>(required(w));
            // around the limit of a pool
            w.ps = c.chance(1, 2) && aim.first + 2 >= least ? aim.first + 2 - least - std::min<uint64_t>(aim.first + 2 - least, c.draw(5)) : c.draw(560);
            auto s = ChunkSettings::create(w.ps, w.pa, w.hs, w.ha);
            PBT_CHECK(c, s.has_value(), "settings-accept", "valid settings refused");
            const uint64_t need = static_cast<uint64_t>(required(w));
            size_t p = 0;
            while (p < pools.size() && pools[p].first < need)
            {
                ++p;
            }
            auto r = mm->getChunk(s.value());
            c.log("get %lu/%u header %u/%u -> pool %lu: %s", w.ps, w.pa, w.hs, w.ha, p, r.has_value() ? "ok" : "error");
            if (p == pools.size())
            {
                PBT_CHECK(c, r.has_error() && r.error() == MemoryManager::Error::NO_MEMPOOL_FOR_REQUESTED_CHUNK_SIZE, "pool-error", "chunk of %lu bytes where no pool is large enough", need);
                break;
            }
            if (used[p] == pools[p].second)
            {
                PBT_CHECK(c, r.has_error() && r.error() == MemoryManager::Error::MEMPOOL_OUT_OF_CHUNKS, "pool-error", "pool %lu is exhausted but the result differs", p);
                break;
            }
            PBT_CHECK(c, r.has_value(), "pool-refused", "pool %lu has %u of %u chunks in use but the request was refused", p, used[p], pools[p].second);
            auto x = std::make_unique<Held>();
            x->w = w;
            x->pool = static_cast<uint32_t>(p);
            x->tag = tags++;
            x->h = r->getChunkHeader();
            x->refs.push_back(std::move(r.value()));
            PBT_CHECK(c, x->refs[0].getUserPayload() == x->h->userPayload(), "pool-chunk", "payload of the shared chunk differs");
            auto* b = reinterpret_cast<uint8_t*>(x->h);
            PBT_CHECK(c, b >= chunks.p && b + pools[p].first <= chunks.p + ck && reinterpret_cast<uint64_t>(b) % 8 == 0, "pool-place", "chunk outside of its memory or misaligned");
            for (auto& o : held)
            {
                auto* q = reinterpret_cast<uint8_t*>(o->h);
                PBT_CHECK(c, b + pools[p].first <= q || q + pools[o->pool].first <= b, "pool-overlap", "chunk overlaps one that is in use");
            }
            checkLayout(c, x->h, pools[p].first, w, "new chunk");
            fill(x->h->userPayload(), w.ps, x->tag);
            if (w.hs != 0)
            {
                fill(x->h->userHeader(), w.hs, x->tag + 1);
            }
            ++used[p];
            peak[p] = std::max(peak[p], used[p]);
            held.push_back(std::move(x));
            ++got;
            break;
        }
        case 1: // another reference
        {
            auto& h = *held[c.draw(held.size())];
            if (!h.refs.empty())
            {
                SharedChunk copy = h.refs[c.draw(h.refs.size())];
                PBT_CHECK(c, copy == h.refs[0] && copy == h.h->userPayload() && copy.getChunkHeader() == h.h, "pool-chunk", "copy differs");
                h.refs.push_back(copy);
            }
            break;
        }
        case 2: // into the form kept in shared memory
        {
            auto& h = *held[c.draw(held.size())];
            if (!h.refs.empty())
            {
                h.raw.emplace_back(std::move(h.refs.back()));
                h.refs.pop_back();
                auto& r = h.raw.back();
                PBT_CHECK(c, !r.isLogicalNullptr() && r.getChunkHeader() == h.h, "pool-unmanaged", "unmanaged chunk refers to another chunk");
                PBT_CHECK(c, r.isNotLogicalNullptrAndHasNoOtherOwners() == (h.refs.size() + h.raw.size() == 1), "pool-unmanaged", "wrong answer about other owners");
            }
            break;
        }
        case 3: // and back
        {
            auto& h = *held[c.draw(held.size())];
            if (!h.raw.empty())
            {
                if (c.chance(1, 2))
                {
                    h.refs.push_back(h.raw.back().cloneToSharedChunk());
                }
                else
                {
                    h.refs.push_back(h.raw.back().releaseToSharedChunk());
                    PBT_CHECK(c, h.raw.back().isLogicalNullptr() && !h.raw.back().releaseToSharedChunk() && h.raw.back().getChunkHeader() == nullptr, "pool-unmanaged", "released unmanaged chunk still refers to something");
                    h.raw.pop_back();
                }
                PBT_CHECK(c, h.refs.back().getChunkHeader() == h.h, "pool-unmanaged", "shared chunk refers to another chunk");
            }
            break;
        }
        case 4: // drop a reference
        case 5:
        {
            const size_t i = c.draw(held.size());
            auto& h = *held[i];
            verify(h);
            if (!h.refs.empty())
            {
                h.refs.erase(h.refs.begin() + static_cast<long>(c.draw(h.refs.size())));
            }
            else
            {
                SharedChunk x = h.raw.back().releaseToSharedChunk();
                h.raw.pop_back();
            }
            if (h.refs.empty() && h.raw.empty())
            {
                --used[h.pool];
                held.erase(held.begin() + static_cast<long>(i));
            }
            break;
        }
        default: // assignments between references
        {
            auto& h = *held[c.draw(held.size())];
            if (h.refs.size() >= 2)
            {
                if (c.chance(1, 2))
                {
                    h.refs[0] = h.refs[1];
                }
                else
                {
                    h.refs[0] = std::move(h.refs.back());
                    PBT_CHECK(c, !h.refs.back(), "pool-chunk", "moved-from chunk is not empty");
                    h.refs.pop_back();
                }
                PBT_CHECK(c, h.refs[0].getChunkHeader() == h.h, "pool-chunk", "assigned chunk differs");
            }
            break;
        }
        }
        for (size_t p = 0; p < pools.size(); ++p)
        {
            auto i = mm->getMemPoolInfo(static_cast<uint32_t>(p));
            PBT_CHECK(c, i.m_usedChunks == used[p] && i.m_minFreeChunks == pools[p].second - peak[p] && i.m_numChunks == pools[p].second && i.m_chunkSize == pools[p].first, "pool-info", "pool %lu reports %u used, %u min free, %u chunks of %lu; %u used and peak %u expected", p, i.m_usedChunks, i.m_minFreeChunks, i.m_numChunks, i.m_chunkSize, used[p], peak[p]);
        }
        for (auto& h : held)
        {
            verify(*h);
        }
    }
    for (auto& h : held)
    {
        h->refs.clear();
        for (auto& r : h->raw)
        {
            r.releaseToSharedChunk();
        }
    }
    held.clear();
    for (size_t p = 0; p < pools.size(); ++p)
    {
        PBT_CHECK(c, mm->getMemPoolInfo(static_cast<uint32_t>(p)).m_usedChunks == 0, "pool-leak", "chunks of pool %lu are still in use", p);
    }
    mm.reset();
    if (reg)
    {
        iox::UntypedRelativePointer::unregisterPtr(iox::segment_id_t{*i1});
        iox::UntypedRelativePointer::unregisterPtr(iox::segment_id_t{*i2});
    }
    c.nontrivial(got >= 3);
}

// ------------------------------------------------------------------ bump allocator (S06)
void bumpTest(Case& c)
{
    alignas(256) static uint8_t buf[8192];
    const uint64_t shift = c.draw(64), len = c.chance(1, 20) ? 0 : c.draw(c.chance(1, 2) ? 200 : 4000);
    uint8_t* start = buf + shift;
    iox::BumpAllocator a(start, len);
    uint64_t pos = 0, good = 0;
    std::vector<std::pair<uint64_t, uint64_t>> out;
    for (uint64_t k = 0, n = c.range(1, 14); k < n; ++k)
    {
        if (c.chance(1, 12))
        {
            a.deallocate();
            pos = 0;
            out.clear();
            continue;
        }
        const uint64_t al = 1ULL << (c.chance(1, 10) ? c.draw(64) : c.draw(9));
        uint64_t size = c.chance(1, 3) ? c.draw(20) : c.chance(1, 4) ? near(c, len - pos) : c.chance(1, 4) ? ~0ULL - c.draw(len + 64) : c.draw(300);
        const uint64_t s0 = reinterpret_cast<uint64_t>(start);
        const u128 at = (u128(s0) + pos + al - 1) / al * al;
        const bool fits = size != 0 && at - s0 + size <= len;
        auto r = a.allocate(size, al);
        c.log("allocate %lu aligned to %lu at %lu of %lu: %s", size, al, pos, len, r.has_value() ? "ok" : "refused");
        PBT_CHECK(c, r.has_value() == fits, "bump-accept", "%lu bytes aligned to %lu with %lu of %lu in use were %s", size, al, pos, len, fits ? "refused" : "granted");
        if (!fits)
        {
            PBT_CHECK(c, r.error() == (size == 0 ? iox::BumpAllocatorError::REQUESTED_ZERO_SIZED_MEMORY : iox::BumpAllocatorError::OUT_OF_MEMORY), "bump-error", "wrong error");
            continue;
        }
        const auto p = reinterpret_cast<uint64_t>(r.value());
        PBT_CHECK(c, p % al == 0 && p >= s0 && p + size <= s0 + len, "bump-place", "misaligned or outside");
        for (auto& o : out)
        {
            PBT_CHECK(c, p + size <= o.first || o.second <= p, "bump-overlap", "overlaps an earlier allocation");
        }
        out.emplace_back(p, p + size);
        pos = static_cast<uint64_t>(at - s0) + size;
        ++good;
    }
    c.nontrivial(good >= 2);
}

// ------------------------------------------------------------------ relative pointers (S24)
constexpr uint32_t SEGS = 5;
constexpr uint64_t SEG_MAX = 64 * 1024;
struct Views
{
    uint8_t* v[2][SEGS];
    Views()
    {
        int fd = memfd_create("views", 0);
        (void)!ftruncate(fd, SEGS * SEG_MAX);
        for (auto& view : v)
        {
            for (uint32_t i = 0; i < SEGS; ++i)
            {
                view[i] = static_cast<uint8_t*>(mmap(nullptr, SEG_MAX, PROT_READ | PROT_WRITE, MAP_SHARED, fd, i * SEG_MAX));
            }
        }
        close(fd);
    }
};
Views& views()
{
    static Views v;
    return v;
}
void relptrTest(Case& c)
{
    using RP = iox::RelativePointer<uint64_t>;
    using UP = iox::UntypedRelativePointer;
    UP::unregisterAll();
    auto& V = views();
    struct Seg
    {
        uint8_t* p[2];
        uint64_t size;
        uint64_t id{0}; // 0: not registered
    };
    // the order of the segments in the address space differs from case to case, and between the views
    std::vector<Seg> seg(SEGS);
    std::vector<uint32_t> perm(SEGS);
    for (uint32_t i = 0; i < SEGS; ++i)
    {
        perm[i] = i;
    }
    for (uint32_t i = SEGS - 1; i > 0; --i)
    {
        std::swap(perm[i], perm[c.draw(i + 1)]);
    }
    for (uint32_t i = 0; i < SEGS; ++i)
    {
        seg[i].p[0] = V.v[0][perm[i]];
        seg[i].p[1] = V.v[1][perm[i]];
        seg[i].size = c.chance(1, 2) ? SEG_MAX : c.range(1, SEG_MAX / 8) * 8;
    }
    int view = 0;
    // what a stored relative pointer means
    struct Target
    {
        int kind{0}; // 0: null, 1: into a segment, 2: raw, 3: dangling
        uint32_t seg{0};
        uint64_t off{0};
        uint64_t id{0};
        uint64_t* raw{nullptr};
    };
    static uint64_t outside[8];
    constexpr uint32_t N = 6;
    RP ptr[N];
    iox::RelativePointerData data[N];
    Target t[N];
    uint64_t regs = 0, checks = 0;
    auto idOf = [&](uint64_t* p) -> uint64_t {
        auto b = reinterpret_cast<uint8_t*>(p);
        for (auto& s : seg)
        {
            if (s.id != 0 && b >= s.p[view] && b < s.p[view] + s.size)
            {
                return s.id;
            }
        }
        return 0;
    };
    auto dangle = [&](uint64_t id) {
        for (auto& x : t)
        {
            if (x.kind == 1 && x.id == id)
            {
                x.kind = 3;
            }
        }
    };
    auto check = [&](uint32_t i) {
        auto& x = t[i];
        uint64_t* want = x.kind == 1 ? reinterpret_cast<uint64_t*>(seg[x.seg].p[view] + x.off) : x.kind == 2 ? x.raw : nullptr;
        if (x.kind == 3)
        {
            return;
        }
        PBT_CHECK(c, ptr[i].get() == want, "relptr-target", "pointer %u of kind %d leads to %p instead of %p", i, x.kind, (void*)ptr[i].get(), (void*)want);
        PBT_CHECK(c, static_cast<bool>(ptr[i]) == (want != nullptr) && (ptr[i] == want) && (want == ptr[i]) && !(ptr[i] != want) && ((ptr[i] == nullptr) == (want == nullptr)), "relptr-compare", "comparisons of pointer %u", i);
        if (x.kind == 1)
        {
            PBT_CHECK(c, ptr[i].getId() == x.id && ptr[i].getOffset() == x.off && reinterpret_cast<uint8_t*>(ptr[i].getBasePtr()) == seg[x.seg].p[view], "relptr-parts", "pointer %u has id %lu offset %lu; %lu and %lu expected", i, uint64_t(ptr[i].getId()), uint64_t(ptr[i].getOffset()), x.id, x.off);
            PBT_CHECK(c, data[i].id() == x.id && data[i].offset() == x.off && !data[i].isLogicalNullptr(), "relptr-data", "packed pointer %u has id %u offset %lu", i, data[i].id(), data[i].offset());
            RP again(data[i].offset(), iox::segment_id_t{data[i].id()});
            PBT_CHECK(c, again.get() == want && again == ptr[i].get(), "relptr-data", "packed pointer %u leads elsewhere", i);
            *ptr[i].get() = x.off + 77;
            PBT_CHECK(c, *ptr[i] == x.off + 77, "relptr-target", "dereferencing");
            ++checks;
        }
        else
        {
            PBT_CHECK(c, x.kind != 0 || data[i].isLogicalNullptr(), "relptr-data", "packed null pointer");
        }
    };
    auto pack = [&](uint32_t i) {
        data[i] = t[i].kind == 1 ? iox::RelativePointerData(static_cast<uint16_t>(ptr[i].getId()), ptr[i].getOffset()) : iox::RelativePointerData();
    };
    for (uint64_t k = 0, n = c.range(4, 40); k < n; ++k)
    {
        const auto i = static_cast<uint32_t>(c.draw(N)), j = static_cast<uint32_t>(c.draw(N));
        auto& s = seg[c.draw(SEGS)];
        const auto si = static_cast<uint32_t>(&s - seg.data());
        switch (regs < 2 ? 0 : c.weighted({3, 2, 6, 2, 2, 2, 1, 2}))
        {
        case 0:
        {
            if (s.id != 0)
            {
                break;
            }
            if (c.chance(1, 2))
            {
                auto r = RP::registerPtr(reinterpret_cast<uint64_t*>(s.p[view]), s.size);
                PBT_CHECK(c, r.has_value() && *r != 0, "register", "segment %u was not registered", si);
                for (auto& o : seg)
                {
                    PBT_CHECK(c, o.id != *r, "register", "id %lu given twice", uint64_t(*r));
                }
                s.id = *r;
            }
            else
            {
                const uint64_t id = c.chance(1, 10) ? c.range(9990, 10010) : c.range(1, 7);
                bool taken = false;
                for (auto& o : seg)
                {
                    taken |= o.id == id;
                }
                const bool ok = RP::registerPtrWithId(iox::segment_id_t{id}, reinterpret_cast<uint64_t*>(s.p[view]), s.size);
                PBT_CHECK(c, ok == (!taken && id < iox::MAX_POINTER_REPO_CAPACITY), "register", "registration of id %lu", id);
                if (ok)
                {
                    s.id = id;
                }
            }
            c.log("segment %u at %p registered as %lu", si, (void*)s.p[view], s.id);
            ++regs;
            break;
        }
        case 1:
            if (s.id != 0)
            {
                c.log("segment %u unregistered", si);
                PBT_CHECK(c, RP::unregisterPtr(iox::segment_id_t{s.id}), "unregister", "registered id %lu", s.id);
                PBT_CHECK(c, !RP::unregisterPtr(iox::segment_id_t{s.id}), "unregister", "twice");
                PBT_CHECK(c, RP::getBasePtr(iox::segment_id_t{s.id}) == nullptr, "unregister", "base pointer remains");
                dangle(s.id);
                s.id = 0;
            }
            break;
        case 2: // point somewhere
        case 3:
        {
            uint64_t off = c.chance(1, 3) ? 0 : c.chance(1, 3) ? s.size - 8 : c.draw(s.size / 8) * 8;
            uint64_t* p = c.chance(1, 8) ? &outside[c.draw(8)] : c.chance(1, 8) ? nullptr : reinterpret_cast<uint64_t*>(s.p[view] + off);
            const uint64_t id = idOf(p);
            Target x;
            if (p == nullptr)
            {
                x.kind = 0;
            }
            else if (id != 0)
            {
                x = Target{1, si, off, id, nullptr};
            }
            else
            {
                x = Target{2, 0, 0, 0, p};
            }
            if (c.chance(1, 2))
            {
                ptr[i] = p;
            }
            else
            {
                ptr[i] = RP(p);
            }
            t[i] = x;
            c.log("pointer %u: kind %d segment %u offset %lu id %lu, is %lu", i, x.kind, x.seg, x.off, x.id, uint64_t(ptr[i].getId()));
            pack(i);
            break;
        }
        case 4:
        {
            RP copy(ptr[j]);
            ptr[i] = copy;
            t[i] = t[j];
            pack(i);
            break;
        }
        case 5:
            if (i != j)
            {
                if (c.chance(1, 2))
                {
                    ptr[i] = std::move(ptr[j]);
                }
                else
                {
                    RP m(std::move(ptr[j]));
                    ptr[i] = std::move(m);
                }
                t[i] = t[j];
                t[j] = Target{};
                pack(i);
                pack(j);
            }
            break;
        case 6:
            for (auto& o : seg)
            {
                if (o.id != 0)
                {
                    dangle(o.id);
                    o.id = 0;
                }
            }
            RP::unregisterAll();
            c.log("all unregistered");
            break;
        default: // another process: the same segments, mapped elsewhere
        {
            RP::unregisterAll();
            view = 1 - view;
            for (auto& o : seg)
            {
                if (o.id != 0)
                {
                    PBT_CHECK(c, RP::registerPtrWithId(iox::segment_id_t{o.id}, reinterpret_cast<uint64_t*>(o.p[view]), o.size), "register", "in the other view");
                }
            }
            for (uint32_t m = 0; m < N; ++m)
            {
                // a raw pointer into memory that is mapped elsewhere now
                if (t[m].kind == 2 && !(t[m].raw >= outside && t[m].raw < outside + 8))
                {
                    t[m].kind = 3;
                }
            }
            c.log("view %d", view);
            break;
        }
        }
        for (uint32_t m = 0; m < N; ++m)
        {
            check(m);
        }
    }
    UP::unregisterAll();
    c.nontrivial(checks >= 3);
}
void dataTest(Case& c)
{
    using D = iox::RelativePointerData;
    const auto id = static_cast<uint16_t>(c.chance(1, 3) ? 65535 - c.draw(3) : c.u64b());
    const uint64_t off = c.chance(1, 3) ? (1ULL << 48) - 4 + c.draw(6) : c.chance(1, 4) ? c.u64b() : c.u64b() & ((1ULL << 48) - 1);
    D d(id, off);
    const bool valid = id < 65535 && off < (1ULL << 48) - 1;
    PBT_CHECK(c, d.isLogicalNullptr() == !valid, "relptr-data", "id %u offset %lx is %snull", id, off, valid ? "" : "not ");
    if (valid)
    {
        PBT_CHECK(c, d.id() == id && d.offset() == off, "relptr-data", "id %u offset %lx became %u %lx", id, off, d.id(), d.offset());
    }
    D e = d;
    e.reset();
    PBT_CHECK(c, e.isLogicalNullptr() && D().isLogicalNullptr(), "relptr-data", "reset");
    c.nontrivial(valid);
}
void relocTest(Case& c)
{
    constexpr uint32_t N = 5, M = 8;
    struct Block
    {
        uint64_t before[M];
        iox::relocatable_ptr<uint64_t> p[N];
        iox::relocatable_ptr<void> v[N];
        uint64_t after[M];
    };
    static_assert(alignof(Block) <= 16, "");
    std::vector<uint8_t> mem(sizeof(Block) * 4 + 64);
    auto* base = mem.data() + (8 - reinterpret_cast<uint64_t>(mem.data()) % 8) % 8;
    Block* b = new (base) Block;
    for (uint32_t i = 0; i < M; ++i)
    {
        b->before[i] = 100 + i;
        b->after[i] = 200 + i;
    }
    // -1: null, 0..M-1 before, M.. after, 1000+i: v[i] itself, 2000: outside (not relocated)
    int tp[N], tv[N];
    std::fill(tp, tp + N, -1);
    std::fill(tv, tv + N, -1);
    static uint64_t outside = 4711;
    bool hasOutside = false;
    auto addr = [&](int k) -> uint64_t* { return k < 0 ? nullptr : k < int(M) ? &b->before[k] : k < int(2 * M) ? &b->after[k - int(M)] : k == 2000 ? &outside : reinterpret_cast<uint64_t*>(&b->v[k - 1000]); };
    uint64_t moves = 0;
    for (uint64_t k = 0, n = c.range(2, 30); k < n; ++k)
    {
        const auto i = c.draw(N), j = c.draw(N);
        const int tgt = c.chance(1, 8) ? -1 : int(c.draw(2 * M));
        switch (c.draw(8))
        {
        case 0:
            b->p[i] = iox::relocatable_ptr<uint64_t>(addr(tgt));
            tp[i] = tgt;
            break;
        case 1:
            b->v[i] = iox::relocatable_ptr<void>(addr(c.chance(1, 6) ? 1000 + int(i) : tgt));
            tv[i] = b->v[i].get() == &b->v[i] ? 1000 + int(i) : tgt;
            break;
        case 2:
            b->p[i] = b->p[j];
            tp[i] = tp[j];
            break;
        case 3:
            if (i != j)
            {
                b->p[i] = std::move(b->p[j]);
                tp[i] = tp[j];
                tp[j] = -1;
            }
            break;
        case 4:
        {
            iox::relocatable_ptr<uint64_t> local(b->p[j]);
            PBT_CHECK(c, local.get() == addr(tp[j]) && local == b->p[j] && !(local != b->p[j]), "reloc-target", "copy on the stack");
            iox::relocatable_ptr<uint64_t> local2(std::move(local));
            PBT_CHECK(c, local.get() == nullptr && local2.get() == addr(tp[j]), "reloc-target", "move on the stack");
            b->p[i] = local2;
            tp[i] = tp[j];
            break;
        }
        case 5:
            b->v[i] = b->v[j];
            tv[i] = tv[j];
            break;
        case 6: // outside of the block: right as long as nothing is relocated
            b->p[i] = iox::relocatable_ptr<uint64_t>(&outside);
            tp[i] = 2000;
            hasOutside = true;
            break;
        default:
        {
            uint8_t* to = base + c.draw(3 * sizeof(Block) / 8) * 8;
            memmove(to, reinterpret_cast<uint8_t*>(b), sizeof(Block));
            b = reinterpret_cast<Block*>(to);
            for (auto& x : tp)
            {
                if (x == 2000)
                {
                    x = -2;
                }
            }
            ++moves;
        }
        }
        for (uint32_t m = 0; m < N; ++m)
        {
            if (tp[m] == -2)
            {
                b->p[m] = iox::relocatable_ptr<uint64_t>(nullptr);
                tp[m] = -1;
            }
            PBT_CHECK(c, b->p[m].get() == addr(tp[m]), "reloc-target", "pointer %u leads elsewhere", m);
            const auto& cp = b->p[m];
            PBT_CHECK(c, cp.get() == addr(tp[m]) && static_cast<uint64_t*>(b->p[m]) == addr(tp[m]), "reloc-target", "pointer %u leads elsewhere (const)", m);
            PBT_CHECK(c, b->v[m].get() == addr(tv[m]), "reloc-target", "untyped pointer %u leads elsewhere", m);
            if (tp[m] >= 0)
            {
                const uint64_t w = tp[m] == 2000 ? 4711 : tp[m] < int(M) ? 100 + uint64_t(tp[m]) : 200 + uint64_t(tp[m]) - M;
                PBT_CHECK(c, *b->p[m] == w && *b->p[m].operator->() == w, "reloc-target", "pointer %u reads something else", m);
            }
        }
    }
    c.nontrivial(moves > 0 || hasOutside);
}

// ------------------------------------------------------------------ wire format (S22)
S show(const S& s)
{
    S r = "\"";
    for (unsigned char ch : s)
    {
        char b[8];
        snprintf(b, sizeof b, ch >= 32 && ch < 127 ? "%c" : "\\x%02x", ch);
        r += b;
    }
    return r + "\"";
}
bool space(char ch)
{
    return ch == ' ' || (ch >= '\t' && ch <= '\r');
}
/// an unsigned number as it is understood by convert::from_string
bool number(const S& s, uint64_t max, uint64_t& v)
{
    size_t i = 0;
    while (i < s.size() && space(s[i]))
    {
        ++i;
    }
    if (i < s.size() && s[i] == '+')
    {
        ++i;
    }
    if (i == s.size())
    {
        return false;
    }
    u128 x = 0;
    for (; i < s.size(); ++i)
    {
        if (s[i] < '0' || s[i] > '9')
        {
            return false;
        }
        x = x * 10 + unsigned(s[i] - '0');
        if (x > max)
        {
            return false;
        }
    }
    v = uint64_t(x);
    return true;
}
/// "<length>:<bytes>" repeated
bool split(S s, std::vector<S>& out)
{
    while (!s.empty())
    {
        auto p = s.find(':');
        uint64_t n = 0;
        if (p == S::npos || !number(s.substr(0, p), ~0ULL, n) || n > s.size() - p - 1)
        {
            return false;
        }
        out.push_back(s.substr(p + 1, n));
        s = s.substr(p + 1 + n);
    }
    return true;
}
S word(Case& c, uint64_t maxLen)
{
    S s;
    static const char X[] = "aZ0123456789::::,/ _\n\xff.";
    const uint64_t n = c.chance(1, 6) ? maxLen : c.draw(std::min<uint64_t>(maxLen, 12) + 1);
    for (uint64_t i = 0; i < n; ++i)
    {
        s += X[c.draw(sizeof(X) - 1)];
    }
    return s;
}
S mutate(Case& c, S s)
{
    for (uint64_t k = 0, n = c.draw(3); k < n; ++k)
    {
        const uint64_t at = s.empty() ? 0 : c.draw(s.size());
        switch (c.draw(8))
        {
        case 0:
            s = s.substr(0, at);
            break;
        case 1:
            if (!s.empty())
            {
                s.erase(at, 1);
            }
            break;
        case 2:
            s.insert(at, 1, "0123456789:+- ,x"[c.draw(16)]);
            break;
        case 3:
            if (!s.empty())
            {
                s[at] = "0123456789:+- ,x"[c.draw(16)];
            }
            break;
        case 4: // a huge length
        {
            const S big = std::to_string(~0ULL - c.draw(60));
            s = c.chance(1, 2) ? s.substr(0, at) + big + ":" + s.substr(at) : big + s.substr(std::min(s.size(), s.find(':')));
            break;
        }
        case 5:
            s += c.chance(1, 2) ? "0:" : word(c, 6);
            break;
        case 6: // replace a number by another one
        {
            auto p = s.find_first_of("0123456789", at);
            if (p != S::npos)
            {
                auto q = s.find_first_not_of("0123456789", p);
                s = s.substr(0, p) + std::to_string(c.chance(1, 2) ? c.draw(300) : c.u64b()) + (q == S::npos ? "" : s.substr(q));
            }
            break;
        }
        default:
        {
            // a well-formed entry with other content
            S w = word(c, 30);
            w = c.chance(1, 2) ? std::to_string(c.chance(1, 2) ? c.draw(4) : c.u64b()) : w;
            s = c.chance(1, 2) ? std::to_string(w.size()) + ":" + w + s : s + std::to_string(w.size()) + ":" + w;
        }
        }
    }
    return s;
}
struct Field
{
    uint64_t maxNum; // 0: a string of at most maxLen bytes
    uint64_t maxLen;
    uint64_t v{0};
    S s;
};
/// parses the text independently; true if it denotes all fields
bool parse(const S& text, std::vector<Field>& f)
{
    std::vector<S> e;
    if (!split(text, e) || e.size() != f.size())
    {
        return false;
    }
    for (size_t i = 0; i < f.size(); ++i)
    {
        if (f[i].maxNum == 0)
        {
            if (e[i].size() > f[i].maxLen)
            {
                return false;
            }
            f[i].s = e[i];
        }
        else if (!number(e[i], f[i].maxNum, f[i].v))
        {
            return false;
        }
    }
    return true;
}
constexpr uint64_t M64 = ~0ULL;
iox::NodeName_t node(const S& s)
{
    return iox::NodeName_t(iox::TruncateToCapacity, s.c_str(), s.size());
}
template <typename Str>
S str(const Str& s)
{
    return S(s.c_str(), s.size());
}
template <typename O>
void wireCase(Case& c, const O& o, std::vector<Field> f, bool (*same)(const O&, const std::vector<Field>&), S (*ser)(const O&), const char* name)
{
    const S good = ser(o);
    std::vector<Field> g = f;
    PBT_CHECK(c, same(o, f), "wire-setup", "%s", name);
    PBT_CHECK(c, parse(good, g), "wire-format", "%s: %s is not well-formed", name, show(good).c_str());
    auto back = O::deserialize(iox::Serialization(good));
    PBT_CHECK(c, back.has_value() && same(back.value(), f), "wire-round-trip", "%s does not survive as %s", name, show(good).c_str());
    const S bad = mutate(c, good);
    std::vector<Field> w = f;
    const bool ok = parse(bad, w);
    auto r = O::deserialize(iox::Serialization(bad));
    PBT_CHECK(c, r.has_value() == ok, "wire-accept", "%s: %s was %s", name, show(bad).c_str(), ok ? "refused" : "accepted");
    if (ok)
    {
        PBT_CHECK(c, same(r.value(), w), "wire-value", "%s: %s has the wrong value", name, show(bad).c_str());
    }
    c.count(ok ? "accepted" : "refused");
    c.nontrivial(bad != good);
}
void wireTest(Case& c)
{
    using namespace iox::popo;
    using CP = ConsumerTooSlowPolicy;
    using QP = QueueFullPolicy;
    const S n = word(c, 99);
    const bool b = c.chance(1, 2), b2 = c.chance(1, 2), p1 = c.chance(1, 2), p2 = c.chance(1, 2);
    const uint64_t x = c.u64b(), y = c.u64b();
    const iox::NodeName_t nn = node(n);
    switch (c.draw(6))
    {
    case 0:
    {
        PublisherOptions o;
        o.historyCapacity = x;
        o.nodeName = nn;
        o.offerOnCreate = b;
        o.subscriberTooSlowPolicy = p1 ? CP::DISCARD_OLDEST_DATA : CP::WAIT_FOR_CONSUMER;
        return wireCase<PublisherOptions>(
            c, o, {{M64, 0, x, ""}, {0, nn.capacity(), 0, str(nn)}, {1, 0, b, ""}, {1, 0, p1, ""}},
            [](const PublisherOptions& q, const std::vector<Field>& f) { return q.historyCapacity == f[0].v && str(q.nodeName) == f[1].s && q.offerOnCreate == (f[2].v != 0) && (q.subscriberTooSlowPolicy == CP::DISCARD_OLDEST_DATA) == (f[3].v != 0); },
            [](const PublisherOptions& q) { return q.serialize().toString(); }, "PublisherOptions");
    }
    case 1:
    {
        SubscriberOptions o;
        o.queueCapacity = x;
        o.historyRequest = y;
        o.nodeName = nn;
        o.subscribeOnCreate = b;
        o.queueFullPolicy = p1 ? QP::DISCARD_OLDEST_DATA : QP::BLOCK_PRODUCER;
        o.requiresPublisherHistorySupport = b2;
        return wireCase<SubscriberOptions>(
            c, o, {{M64, 0, x, ""}, {M64, 0, y, ""}, {0, nn.capacity(), 0, str(nn)}, {1, 0, b, ""}, {1, 0, p1, ""}, {1, 0, b2, ""}},
            [](const SubscriberOptions& q, const std::vector<Field>& f) { return q.queueCapacity == f[0].v && q.historyRequest == f[1].v && str(q.nodeName) == f[2].s && q.subscribeOnCreate == (f[3].v != 0) && (q.queueFullPolicy == QP::DISCARD_OLDEST_DATA) == (f[4].v != 0) && q.requiresPublisherHistorySupport == (f[5].v != 0); },
            [](const SubscriberOptions& q) { return q.serialize().toString(); }, "SubscriberOptions");
    }
    case 2:
    {
        ClientOptions o;
        o.responseQueueCapacity = x;
        o.nodeName = nn;
        o.connectOnCreate = b;
        o.responseQueueFullPolicy = p1 ? QP::DISCARD_OLDEST_DATA : QP::BLOCK_PRODUCER;
        o.serverTooSlowPolicy = p2 ? CP::DISCARD_OLDEST_DATA : CP::WAIT_FOR_CONSUMER;
        return wireCase<ClientOptions>(
            c, o, {{M64, 0, x, ""}, {0, nn.capacity(), 0, str(nn)}, {1, 0, b, ""}, {1, 0, p1, ""}, {1, 0, p2, ""}},
            [](const ClientOptions& q, const std::vector<Field>& f) { return q.responseQueueCapacity == f[0].v && str(q.nodeName) == f[1].s && q.connectOnCreate == (f[2].v != 0) && (q.responseQueueFullPolicy == QP::DISCARD_OLDEST_DATA) == (f[3].v != 0) && (q.serverTooSlowPolicy == CP::DISCARD_OLDEST_DATA) == (f[4].v != 0); },
            [](const ClientOptions& q) { return q.serialize().toString(); }, "ClientOptions");
    }
    case 3:
    {
        ServerOptions o;
        o.requestQueueCapacity = x;
        o.nodeName = nn;
        o.offerOnCreate = b;
        o.requestQueueFullPolicy = p1 ? QP::DISCARD_OLDEST_DATA : QP::BLOCK_PRODUCER;
        o.clientTooSlowPolicy = p2 ? CP::DISCARD_OLDEST_DATA : CP::WAIT_FOR_CONSUMER;
        return wireCase<ServerOptions>(
            c, o, {{M64, 0, x, ""}, {0, nn.capacity(), 0, str(nn)}, {1, 0, b, ""}, {1, 0, p1, ""}, {1, 0, p2, ""}},
            [](const ServerOptions& q, const std::vector<Field>& f) { return q.requestQueueCapacity == f[0].v && str(q.nodeName) == f[1].s && q.offerOnCreate == (f[2].v != 0) && (q.requestQueueFullPolicy == QP::DISCARD_OLDEST_DATA) == (f[3].v != 0) && (q.clientTooSlowPolicy == CP::DISCARD_OLDEST_DATA) == (f[4].v != 0); },
            [](const ServerOptions& q) { return q.serialize().toString(); }, "ServerOptions");
    }
    case 4:
    {
        using SD = iox::capro::ServiceDescription;
        using Id = iox::capro::IdString_t;
        const S a = word(c, 100), i = word(c, 100), e = word(c, 100);
        auto id = [](const S& s) { return Id(iox::TruncateToCapacity, s.c_str(), s.size()); };
        uint32_t h[4];
        for (auto& q : h)
        {
            q = static_cast<uint32_t>(c.u64b());
        }
        const uint64_t iface = c.draw(uint64_t(iox::capro::Interfaces::INTERFACE_END));
        SD o(id(a), id(i), id(e), SD::ClassHash{h[0], h[1], h[2], h[3]}, static_cast<iox::capro::Interfaces>(iface));
        if (b)
        {
            o.setLocal();
        }
        constexpr uint64_t M32 = 0xffffffffULL;
        return wireCase<SD>(
            c, o,
            {{0, 100, 0, a}, {0, 100, 0, i}, {0, 100, 0, e}, {M32, 0, h[0], ""}, {M32, 0, h[1], ""}, {M32, 0, h[2], ""}, {M32, 0, h[3], ""}, {1, 0, b, ""}, {uint64_t(iox::capro::Interfaces::INTERFACE_END) - 1, 0, iface, ""}},
            [](const SD& q, const std::vector<Field>& f) {
                auto ch = q.getClassHash();
                return str(q.getServiceIDString()) == f[0].s && str(q.getInstanceIDString()) == f[1].s && str(q.getEventIDString()) == f[2].s && ch[0] == f[3].v && ch[1] == f[4].v && ch[2] == f[5].v && ch[3] == f[6].v && q.isLocal() == (f[7].v != 0) && uint64_t(q.getScope()) == f[7].v && uint64_t(q.getSourceInterface()) == f[8].v;
            },
            [](const SD& q) { return static_cast<iox::Serialization>(q).toString(); }, "ServiceDescription");
    }
    default:
    {
        // plain entries and access by index
        const S w1 = word(c, 40), w2 = word(c, 20);
        const auto i16 = static_cast<int16_t>(c.u64b());
        const auto u8 = static_cast<uint8_t>(c.u64b());
        const auto i64 = static_cast<int64_t>(c.u64b());
        iox::string<20> s20(iox::TruncateToCapacity, w2.c_str(), w2.size());
        auto ser = iox::Serialization::create(w1, i16, s20, u8, i64, b);
        S r1;
        iox::string<20> r2;
        int16_t r16 = 0;
        uint8_t r8 = 0;
        int64_t r64 = 0;
        bool rb = !b;
        PBT_CHECK(c, ser.extract(r1, r16, r2, r8, r64, rb) && r1 == w1 && r16 == i16 && str(r2) == w2 && r8 == u8 && r64 == i64 && rb == b, "wire-round-trip", "entries do not survive as %s", show(ser.toString()).c_str());
        const S bad = mutate(c, ser.toString());
        std::vector<S> e;
        // as many leading entries as are well-formed
        S rest = bad;
        bool all = true;
        while (!rest.empty())
        {
            auto p = rest.find(':');
            uint64_t len = 0;
            if (p == S::npos || !number(rest.substr(0, p), ~0ULL, len) || len > rest.size() - p - 1)
            {
                all = false;
                break;
            }
            e.push_back(rest.substr(p + 1, len));
            rest = rest.substr(p + 1 + len);
        }
        iox::Serialization q(bad);
        for (unsigned k = 0; k < e.size() + 2; ++k)
        {
            S got;
            const bool ok = q.getNth(k, got);
            PBT_CHECK(c, ok == (k < e.size()) && (!ok || got == e[k]), "wire-nth", "entry %u of %s: %s %s", k, show(bad).c_str(), ok ? "found" : "not found", show(got).c_str());
        }
        S a1, a2, a3;
        PBT_CHECK(c, q.extract(a1, a2, a3) == (all && e.size() == 3), "wire-accept", "three entries of %s", show(bad).c_str());
        c.nontrivial(bad != ser.toString());
    }
    }
}
void ipcmsgTest(Case& c)
{
    using iox::runtime::IpcMessage;
    IpcMessage m;
    std::vector<S> e;
    bool valid = true;
    uint64_t ops = 0;
    for (uint64_t k = 0, n = c.range(1, 10); k < n; ++k)
    {
        S w = word(c, 30);
        if (!c.chance(1, 10))
        {
            w.erase(std::remove(w.begin(), w.end(), ','), w.end());
        }
        const bool ok = w.find(',') == S::npos;
        PBT_CHECK(c, m.isValidEntry(w) == ok, "message-entry", "isValidEntry(%s)", show(w).c_str());
        switch (c.weighted({5, 2, 1, 2, 1}))
        {
        case 0:
            m << w;
            valid &= ok;
            if (ok)
            {
                e.push_back(w);
            }
            break;
        case 1:
        {
            const uint64_t v = c.u64b();
            m.addEntry(v);
            e.push_back(std::to_string(v));
            break;
        }
        case 2:
            m.clearMessage();
            e.clear();
            valid = true;
            break;
        case 3:
        {
            S t;
            e.clear();
            for (uint64_t i = 0, q = c.draw(5); i < q; ++i)
            {
                S x = word(c, 8);
                x.erase(std::remove(x.begin(), x.end(), ','), x.end());
                e.push_back(x);
                t += x + ",";
            }
            valid = true;
            if (c.chance(1, 6))
            {
                t += "x";
                valid = false;
            }
            if (c.chance(1, 2))
            {
                m.setMessage(t);
            }
            else
            {
                m = IpcMessage(t);
            }
            break;
        }
        default:
            m = IpcMessage({w, "b"});
            e.clear();
            if (ok)
            {
                e.push_back(w);
            }
            e.push_back("b");
            valid = ok;
        }
        PBT_CHECK(c, m.isValid() == valid, "message-valid", "message is %svalid", valid ? "not " : "");
        if (valid)
        {
            S t;
            for (auto& x : e)
            {
                t += x + ",";
            }
            PBT_CHECK(c, m.getNumberOfElements() == e.size() && m.getMessage() == t, "message-content", "message is %s but %s expected", show(m.getMessage()).c_str(), show(t).c_str());
            IpcMessage back(m.getMessage());
            PBT_CHECK(c, back.isValid() && back == m && back.getNumberOfElements() == e.size(), "message-round-trip", "%s", show(t).c_str());
            for (uint32_t i = 0; i < e.size() + 2; ++i)
            {
                PBT_CHECK(c, m.getElementAtIndex(i) == (i < e.size() ? e[i] : S()) && back.getElementAtIndex(i) == m.getElementAtIndex(i), "message-element", "element %u of %s", i, show(t).c_str());
            }
            ++ops;
        }
        else
        {
            // undefined until it is cleared
            m.clearMessage();
            e.clear();
            valid = true;
        }
    }
    c.nontrivial(ops >= 2);
}
} // namespace

int main(int argc, char** argv)
{
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    std::vector<pbt::Test> tests;
    tests.push_back({"layout", layoutTest, 1.0, 20});
    tests.push_back({"pools", poolsTest, 1.0, 20});
    tests.push_back({"bump", bumpTest, 0.5, 20});
    tests.push_back({"relptr", relptrTest, 1.0, 20});
    tests.push_back({"relptr_data", dataTest, 0.3, 20});
    tests.push_back({"relocatable", relocTest, 0.7, 20});
    tests.push_back({"wire", wireTest, 1.0, 20});
    tests.push_back({"ipc_message", ipcmsgTest, 0.6, 20});
    return pbt::runAll(argc, argv, tests);
}
