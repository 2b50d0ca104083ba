// World: several clients of two monotonic buffer resources, side by side or stacked, over simulated upstreams.
#include "sim_pmr.hpp"
#include <cetl/pf17/array_memory_resource.hpp>
#include <cetl/pf17/sys/memory_resource.hpp>
#include <algorithm>
#include <memory>
#include <vector>

namespace
{
using sim::Mem;
using sim::Res;
using Pmr  = cetl::pf17::pmr::memory_resource;
using Mono = cetl::pf17::pmr::deviant::basic_monotonic_buffer_resource;
using Sys  = cetl::pf17::pmr::monotonic_buffer_resource;

enum Op : int
{
    ALLOC,
    ALLOC_FIT,
    ALLOC_BURST,
    ALLOC_HUGE,
    FREE,
    REWRITE,
    RELEASE,
    REBUILD,
    QUOTA,
    OP_COUNT
};

constexpr std::size_t kArena     = 8192;
constexpr std::size_t kMaxBlocks = 60;

enum class Kind
{
    buffer,
    initial_size,
    plain,
    null_upstream,
    sys_default,
    sys_buffer,
    sys_size
};

class W final
{
    struct Block
    {
        unsigned char* p;
        std::size_t    size;
        std::size_t    align;
        int            owner;
        unsigned       salt;
    };
    struct Unit
    {
        std::unique_ptr<Mono> r;
        Kind                  kind{Kind::buffer};
        std::size_t           size{0};    // bytes of the initial buffer, 0 if there is none
        unsigned char*        buf{nullptr};
        std::size_t           spent{0};   // upper bound of what requests since the last release need from the initial buffer
        bool                  grown{false};
    };

public:
    explicit W(const sim::Plan& p, bool stacked)
        : stacked_(stacked)
    {
        for (auto& m : mem_)
        {
            m.coarse = kArena;
            m.quota  = kQuota;
            m.cls    = "memory";
            if (p.cfg[6] % 4 == 0)
            {
                m.max_size = 200 + p.cfg[7] % 5000;
            }
        }
        for (int i = 0; i < 2; ++i)
        {
            build(i, static_cast<std::size_t>(p.cfg[i * 2]), static_cast<std::size_t>(p.cfg[i * 2 + 1]));
        }
    }
    void run(const sim::Plan& p)
    {
        for (std::size_t i = 0; i < p.steps.size(); ++i)
        {
            sim::begin_step(static_cast<int>(i), p.steps[i]);
            step(p.steps[i]);
            check_all();
            sim::end_step();
        }
        sim::ctx.op = -1;
        destroy(1);
        check_all();
        destroy(0);
        mem_[0].check_empty("resource destroyed");
        mem_[1].check_empty("resource destroyed");
    }

private:
    static constexpr std::size_t kQuota = std::size_t{1} << 20;

    static void bad(const char* cls, const char* what)
    {
        sim::violation(cls, "%s", what);
    }
    static unsigned char pat(const Block& b, std::size_t k)
    {
        return static_cast<unsigned char>(b.salt * 37U + k * 11U + 5U);
    }
    static void fill(Block& b)
    {
        for (std::size_t k = 0; k < b.size; ++k)
        {
            b.p[k] = pat(b, k);
        }
    }
    static void intact(const Block& b)
    {
        for (std::size_t k = 0; k < b.size; ++k)
        {
            if (b.p[k] != pat(b, k))
            {
                bad("content", "data in a block was changed");
            }
        }
    }
    bool over_other(int i) const
    {
        return stacked_ && i == 1;
    }
    /// The simulated memory that finally serves unit i.
    Mem& source(int i)
    {
        return mem_[over_other(i) ? 0 : i];
    }
    void build(int i, std::size_t c, std::size_t d)
    {
        static constexpr std::size_t sizes[] = {1, 7, 16, 40, 64, 100, 256, 1000, 2000, 4000};
        Unit&                        u       = u_[i];
        Pmr* const                   up      = over_other(i) ? static_cast<Pmr*>(u_[0].r.get()) : static_cast<Pmr*>(&res_[i]);
        u                                    = Unit{};
        u.kind                               = static_cast<Kind>(c % 7);
        const std::size_t n                  = sizes[d % 10];
        unsigned char*    b                  = arena_[i] + (d / 10 % 3 == 0 ? 0 : d / 30 % 200);
        cetl::pf17::pmr::set_default_resource(up);
        switch (u.kind)
        {
        case Kind::buffer:
            u.r    = std::make_unique<Mono>(b, n, up);
            u.buf  = b;
            u.size = n;
            break;
        case Kind::initial_size:
            u.r = std::make_unique<Mono>(n, up);
            break;
        case Kind::plain:
            u.r = std::make_unique<Mono>(up);
            break;
        case Kind::null_upstream:
            u.r    = std::make_unique<Mono>(b, n);
            u.buf  = b;
            u.size = n;
            break;
        case Kind::sys_default:
            u.r = std::make_unique<Sys>();
            break;
        case Kind::sys_buffer:
            u.r    = std::make_unique<Sys>(b, n);
            u.buf  = b;
            u.size = n;
            break;
        case Kind::sys_size:
            u.r = std::make_unique<Sys>(n);
            break;
        }
        if (u.kind != Kind::null_upstream && u.r->upstream_resource() != up)
        {
            bad("memory", "monotonic resource has a wrong upstream");
        }
    }
    void destroy(int i)
    {
        forget(i);
        u_[i].r.reset();
        released(i);
    }
    void forget(int i)
    {
        for (const auto& b : b_)
        {
            intact(b);
        }
        b_.erase(std::remove_if(b_.begin(), b_.end(), [i](const Block& b) { return b.owner == i; }), b_.end());
    }
    void released(int i)
    {
        if (!over_other(i))
        {
            mem_[i].check_empty("monotonic resource released");
        }
    }
    void check_all()
    {
        std::uint64_t h = stacked_ ? 1 : 0;
        for (const auto& b : b_)
        {
            intact(b);
        }
        for (int i = 0; i < 2; ++i)
        {
            if (u_[i].r)
            {
                const Mono& m = *u_[i].r;
                const Mono* o = u_[1 - i].r.get();
                if (!m.is_equal(m) || !(m == m) || m != m || (o != nullptr && (m.is_equal(*o) || m == *o || !(m != *o))))
                {
                    bad("memory", "a resource is equal to another one, or not to itself");
                }
                const std::size_t top = m.max_size();
                if (top < m.upstream_resource()->max_size() || top < u_[i].size)
                {
                    bad("bound", "the reported maximum is less than the initial buffer or the upstream offers");
                }
            }
            h = sim::mix(h, static_cast<unsigned>(u_[i].kind) + 8U * mem_[i].live_blocks() + 512U * (u_[i].spent / 16U) + (u_[i].grown ? 256U : 0U));
        }
        sim::state(h);
    }
    void alloc(int i, std::size_t size, std::size_t align)
    {
        if (b_.size() >= kMaxBlocks)
        {
            return;
        }
        Unit&             u      = u_[i];
        Mem&              m      = source(i);
        const bool        up     = u.kind != Kind::null_upstream;
        const std::size_t before = m.requests;
        const std::size_t live   = m.live_blocks();
        const std::size_t need   = size > kQuota ? ~std::size_t{0} : size + align - 1;
        const bool        inner  = u.size > 0 && !u.grown && need <= u.size && u.spent <= u.size - need;
        void*             p      = nullptr;
        sim::trace("  unit %d allocate(%zu, %zu)", i, size, align);
        if (over_other(i))
        {
            u_[0].grown = true;  // what unit 1 takes from unit 0 is not modelled
        }
        const Res r = sim::call([&] { p = u.r->allocate(size, align); });
        if (r == Res::length || r == Res::other || r == Res::injected)
        {
            bad("exc", "unexpected exception");
        }
        if (m.requests - before > 16)
        {
            sim::violation("hang", "one request made %llu upstream requests", static_cast<unsigned long long>(m.requests - before));
        }
        const bool fail = r != Res::ok || p == nullptr;
#if SIM_EXC
        if (r == Res::ok && p == nullptr)
        {
            bad("exc", "a failed allocation returned null instead of throwing");
        }
#endif
        if (inner && (fail || m.requests != before))
        {
            bad("atomic", "a request that fits into the unused initial buffer went upstream or failed");
        }
        if (m.requests != before)
        {
            u.grown = true;
        }
        if (m.live_blocks() < live)
        {
            bad("memory", "an allocation returned memory to the upstream");
        }
        if (fail)
        {
            // what the upstream itself refuses counts as injected; the slack is for whatever bookkeeping goes with a block
            // (the geometric growth may ask the resource below for more than it admits)
            const bool impossible = size > kQuota || (!up && !inner) || need + 1024U > m.max_size || (over_other(i) && m.max_size < kQuota);
            if (!impossible && sim::ctx.injected_mem == 0 && !(over_other(i) && u_[0].kind == Kind::null_upstream))
            {
                bad("atomic", "request failed although the upstream did not fail");
            }
            // a request that cannot be satisfied must not eat the upstream
            if (size > kQuota && m.live_blocks() > live + 1)
            {
                bad("memory", "an impossible request drained the upstream");
            }
            sim::outcome(1);
            return;
        }
        u.spent = u.spent + std::min(need, u.size + 1);
        Block b{static_cast<unsigned char*>(p), size, align, i, ++salt_};
        if ((reinterpret_cast<std::uintptr_t>(p) & (align - 1)) != 0)
        {
            bad("bound", "block is not aligned as requested");
        }
        if (!home(i, b))
        {
            bad("bound", "block lies neither in the initial buffer nor in memory obtained from upstream");
        }
        for (const auto& o : b_)
        {
            if (o.p < b.p + b.size && b.p < o.p + o.size)
            {
                bad("bound", "two blocks overlap");
            }
        }
        if (size > u.r->max_size())
        {
            bad("bound", "block is larger than the reported maximum");
        }
        fill(b);
        b_.push_back(b);
        sim::outcome(0);
    }
    bool home(int i, const Block& b)
    {
        const Unit& u = u_[i];
        if (u.buf != nullptr && b.p >= u.buf && b.p <= u.buf + u.size && b.size <= static_cast<std::size_t>(u.buf + u.size - b.p))
        {
            return true;
        }
        if (source(i).owns(b.p, b.size))
        {
            return true;
        }
        return over_other(i) && u_[0].buf != nullptr && b.p >= u_[0].buf && b.p <= u_[0].buf + u_[0].size &&
               b.size <= static_cast<std::size_t>(u_[0].buf + u_[0].size - b.p);
    }

    void step(const sim::Step& st)
    {
        const int         i     = static_cast<int>(st.a[0] % 2);
        const auto        v     = static_cast<std::size_t>(st.a[1]);
        const std::size_t align = std::size_t{1} << (st.a[2] % 5 == 0 ? st.a[2] / 5 % 13 : st.a[2] % 5);
        switch (st.op)
        {
        case ALLOC:
            alloc(i, v % 7 == 4 && v > 3000 ? v : v % 3 == 0 ? v % 3000 : v % 64, align);
            return;
        case ALLOC_FIT:
            // right at the edge of what is left of the initial buffer
            alloc(i, u_[i].size > u_[i].spent ? u_[i].size - u_[i].spent + 2 - std::min<std::size_t>(v % 5, u_[i].size - u_[i].spent) : v % 64, align);
            return;
        case ALLOC_BURST:
            for (std::size_t k = 0; k < 3 + v % 8; ++k)
            {
                alloc(i, (v / 8 + k * 13) % 90, std::size_t{1} << ((static_cast<std::size_t>(st.a[2]) + k) % 7));
            }
            return;
        case ALLOC_HUGE:
        {
            static constexpr std::size_t top    = ~std::size_t{0};
            static constexpr std::size_t huge[] = {top, top / 2, top / 2 + 1, top / 3 * 2, top - 64, top - 4096};
            alloc(i, huge[v % 6] - (v / 6) % 70, align);
            return;
        }
        case FREE:
        {
            if (b_.empty())
            {
                alloc(i, v % 64, align);
                return;
            }
            const std::size_t k = v % b_.size();
            const Block       b = b_[k];
            const std::size_t n = source(b.owner).live_blocks();
            b_.erase(b_.begin() + static_cast<std::ptrdiff_t>(k));
            const Res r = sim::call([&] { u_[b.owner].r->deallocate(b.p, b.size, b.align); });
            if (r != Res::ok || source(b.owner).live_blocks() != n)
            {
                bad("memory", "an individual deallocation had an effect on the upstream");
            }
            sim::outcome(0);
            return;
        }
        case REWRITE:
            if (!b_.empty())
            {
                Block& b = b_[v % b_.size()];
                b.salt   = ++salt_;
                fill(b);
                sim::outcome(0);
            }
            return;
        case RELEASE:
            if (i == 0 && stacked_)
            {
                release(1);
            }
            release(i);
            return;
        case REBUILD:
            if (i == 0 && stacked_)
            {
                destroy(1);
            }
            destroy(i);
            build(i, static_cast<std::size_t>(st.a[2]), static_cast<std::size_t>(st.a[3]));
            if (i == 0 && stacked_)
            {
                build(1, static_cast<std::size_t>(st.a[2]) / 7, static_cast<std::size_t>(st.a[3]) / 10);
            }
            sim::outcome(0);
            return;
        case QUOTA:
            mem_[i].quota = (v % 2) != 0 ? kQuota : mem_[i].live_bytes() + static_cast<std::size_t>(st.a[2]) % 600;
            sim::outcome(0);
            return;
        default:
            return;
        }
    }
    void release(int i)
    {
        forget(i);
        const Res r = sim::call([&] { u_[i].r->release(); });
        if (r != Res::ok)
        {
            bad("exc", "release threw");
        }
        u_[i].spent = 0;
        u_[i].grown = false;
        released(i);
        sim::outcome(0);
    }

    bool               stacked_;
    Mem                mem_[2]{Mem{0}, Mem{1}};
    sim::SimResource   res_[2]{sim::SimResource{mem_[0]}, sim::SimResource{mem_[1]}};
    Unit               u_[2];
    std::vector<Block> b_;
    unsigned           salt_{0};
    alignas(kArena) unsigned char arena_[2][kArena];
};

template <bool Stacked>
void exec(const sim::Plan& p)
{
    auto w = std::make_unique<W>(p, Stacked);
    w->run(p);
    cetl::pf17::pmr::set_default_resource(nullptr);
}

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "mono",
        {{"allocate", 12}, {"allocate_edge", 5}, {"burst", 3}, {"allocate_huge", 1}, {"deallocate", 3}, {"rewrite", 2}, {"release", 3}, {"rebuild", 1}, {"quota", 2}},
        {{"side_by_side", &exec<false>, 1}, {"stacked", &exec<true>, 1}},
        4,
        40,
        nullptr,
        true,
        false,
        "basic_monotonic_buffer_resource, monotonic_buffer_resource, default resource, null_memory_resource",
        "upstream memory resources, clients",
    };
    return w;
}
