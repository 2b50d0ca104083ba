// World: several clients of one single-buffer memory resource in front of a simulated upstream.
#include "sim_pmr.hpp"
#include <cetl/pf17/array_memory_resource.hpp>
#include <cetl/pf17/buffer_memory_resource.hpp>
#include <cetl/pmr/buffer_memory_resource_delegate.hpp>
#include <cstdint>
#include <memory>
#include <memory_resource>
#include <vector>

namespace
{
using sim::Mem;
using sim::Res;
using Pmr = cetl::pf17::pmr::memory_resource;

enum Op : int
{
    ALLOC,
    ALLOC_FIT,
    FREE,
    REALLOC,
    REALLOC_NEAR,
    REALLOC_NULL,
    REWRITE,
    RELOCATE,
    QUOTA,
    OP_COUNT
};

constexpr std::size_t kArena = 8192;

/// Upstream of the standard kind, which cannot reallocate.
class StdResource final : public std::pmr::memory_resource
{
public:
    explicit StdResource(Mem& m)
        : mem(m)
    {
    }
    Mem& mem;

private:
    void* do_allocate(std::size_t size, std::size_t align) override
    {
        void* p = mem.allocate(size, align);
#if SIM_EXC
        if (p == nullptr)
        {
            throw sim::SimBadAlloc{sim::ctx.last_id};
        }
#endif
        return p;
    }
    void do_deallocate(void* p, std::size_t size, std::size_t align) override
    {
        mem.deallocate(p, size, align);
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override
    {
        return this == &o;
    }
};

struct Env
{
    Mem              mem{0};
    sim::SimResource res{mem};
    StdResource      std_res{mem};
    std::size_t      limit{0};
    std::size_t      size{0};
    std::size_t      offset{0};
    alignas(kArena) unsigned char arena[2 * kArena];

    unsigned char* buffer()
    {
        return arena + offset;
    }
};

// ---- the resource under test behind one interface
struct OverBuffer
{
    static constexpr bool kMovable  = true;
    static constexpr bool kUpstream = true;
    static constexpr bool kRealloc  = true;
    explicit OverBuffer(Env& e)
        : r(std::make_unique<cetl::pf17::pmr::UnsynchronizedBufferMemoryResource>(e.size ? e.buffer() : nullptr, e.size, &e.res, e.limit))
    {
    }
    void relocate()
    {
        r = std::make_unique<cetl::pf17::pmr::UnsynchronizedBufferMemoryResource>(std::move(*r));
    }
    Pmr& get()
    {
        return *r;
    }
    std::unique_ptr<cetl::pf17::pmr::UnsynchronizedBufferMemoryResource> r;
};
struct OverBufferOnly
{
    static constexpr bool kMovable  = true;
    static constexpr bool kUpstream = false;
    static constexpr bool kRealloc  = true;
    explicit OverBufferOnly(Env& e)
        : r(std::make_unique<cetl::pf17::pmr::UnsynchronizedBufferMemoryResource>(e.buffer(), e.size = std::max<std::size_t>(e.size, 1)))
    {
    }
    void relocate()
    {
        r = std::make_unique<cetl::pf17::pmr::UnsynchronizedBufferMemoryResource>(std::move(*r));
    }
    Pmr& get()
    {
        return *r;
    }
    std::unique_ptr<cetl::pf17::pmr::UnsynchronizedBufferMemoryResource> r;
};
template <std::size_t N, bool Up>
struct OverArray
{
    static constexpr bool kMovable  = false;
    static constexpr bool kUpstream = Up;
    static constexpr bool kRealloc  = true;
    using R                         = cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<N>;
    explicit OverArray(Env& e)
    {
        // the resource itself sits at a fixed place so that the padding does not depend on the address space
        if constexpr (Up)
        {
            r = new (e.arena + 64) R(&e.res, e.limit);
        }
        else
        {
            r = new (e.arena + 64) R();
        }
        e.size   = N;
        e.offset = static_cast<std::size_t>(static_cast<unsigned char*>(r->data()) - e.arena);
    }
    ~OverArray()
    {
        r->~R();
    }
    void relocate() {}
    R& get()
    {
        return *r;
    }
    R* r;
};
struct OverStd
{
    static constexpr bool kMovable  = true;
    static constexpr bool kUpstream = true;
    static constexpr bool kRealloc  = false;
    using D                         = cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<std::pmr::memory_resource>;
    explicit OverStd(Env& e)
        : r(std::make_unique<D>(e.size ? e.buffer() : nullptr, e.size, &e.std_res, e.limit))
    {
        e.mem.realloc_mode = sim::ReallocMode::refuse;
    }
    void relocate()
    {
        r = std::make_unique<D>(std::move(*r));
    }
    D& get()
    {
        return *r;
    }
    std::unique_ptr<D> r;
};

template <typename D>
class W final
{
    struct Block
    {
        unsigned char* p;
        std::size_t    size;
        std::size_t    align;
        bool           inner;
        unsigned       salt;
    };

public:
    explicit W(const sim::Plan& p)
    {
        static constexpr std::size_t sizes[] = {0, 1, 7, 16, 48, 64, 100, 256, 1000, 4096};
        static constexpr std::size_t lims[]  = {0, 1, 16, 64, 200, 1000, ~std::size_t{0}, ~std::size_t{0}, 5000, ~std::size_t{0}};
        env_.size                            = sizes[p.cfg[0] % 10];
        env_.offset                          = (p.cfg[1] % 3 == 0) ? 0 : p.cfg[2] % 200;
        env_.limit                           = lims[p.cfg[3] % 10];
        env_.mem.realloc_mode                = static_cast<sim::ReallocMode>(p.cfg[4] % 5);
        env_.mem.cls                         = "memory";
        env_.res.fails_with_null             = p.cfg[6] % 4 == 2;
        sim::ctx.null_fails                  = env_.res.fails_with_null;
        d_                                   = std::make_unique<D>(env_);
        has_up_                              = D::kUpstream;
        if (!has_up_)
        {
            env_.limit = 0;
        }
    }
    void run(const sim::Plan& p)
    {
        for (std::size_t i = 0; i < p.steps.size(); ++i)
        {
            sim::begin_step(static_cast<int>(i), p.steps[i]);
            step(p.steps[i]);
            check_all();
            sim::end_step();
        }
        sim::ctx.op = -1;
        while (!b_.empty())
        {
            give_back(b_.size() - 1);
            check_all();
        }
        env_.mem.check_empty("all blocks returned");
        d_.reset();
    }

private:
    static void bad(const char* cls, const char* what)
    {
        sim::violation(cls, "%s", what);
    }
    static unsigned char pat(const Block& b, std::size_t k)
    {
        return static_cast<unsigned char>(b.salt * 37U + k * 11U + 5U);
    }
    static void fill(Block& b, std::size_t from)
    {
        for (std::size_t k = from; k < b.size; ++k)
        {
            b.p[k] = pat(b, k);
        }
    }
    static bool same(const Block& b, std::size_t n)
    {
        for (std::size_t k = 0; k < n; ++k)
        {
            if (b.p[k] != pat(b, k))
            {
                return false;
            }
        }
        return true;
    }
    bool inner_fits(std::size_t size, std::size_t align)
    {
        const auto        a   = reinterpret_cast<std::uintptr_t>(env_.buffer());
        const std::size_t pad = static_cast<std::size_t>((align - (a & (align - 1))) & (align - 1));
        return env_.size > 0 && pad <= env_.size && size <= env_.size - pad;
    }
    bool inside(const unsigned char* p, std::size_t size)
    {
        return env_.size > 0 && p >= env_.buffer() && p <= env_.buffer() + env_.size && size <= static_cast<std::size_t>(env_.buffer() + env_.size - p);
    }
    bool inner_used() const
    {
        for (const auto& b : b_)
        {
            if (b.inner)
            {
                return true;
            }
        }
        return false;
    }
    std::size_t outer_blocks() const
    {
        std::size_t n = 0;
        for (const auto& b : b_)
        {
            n += b.inner ? 0U : 1U;
        }
        return n;
    }
    /// Is the block where it may be?
    void place(Block& b)
    {
        if ((reinterpret_cast<std::uintptr_t>(b.p) & (b.align - 1)) != 0)
        {
            bad("bound", "block is not aligned as requested");
        }
        b.inner = inside(b.p, b.size);
        if (!b.inner)
        {
            const auto it = env_.mem.blocks().find(reinterpret_cast<std::uintptr_t>(b.p));
            if (!has_up_ || it == env_.mem.blocks().end() || it->second.size < b.size)
            {
                bad("bound", "block lies neither inside the buffer nor inside a block of the upstream");
            }
            if (it->second.size != b.size || it->second.align != b.align)
            {
                bad("bound", "upstream was asked for another size or alignment");
            }
            if (b.size > env_.limit)
            {
                bad("atomic", "upstream was asked for more than the configured limit");
            }
        }
        for (const auto& o : b_)
        {
            const bool overlap = o.p < b.p + b.size && b.p < o.p + o.size;
            if (overlap || (o.inner && b.inner))
            {
                bad("bound", "two live blocks overlap");
            }
        }
        if (b.size > d_->get().max_size())
        {
            bad("bound", "block is larger than the reported maximum");
        }
    }
    static bool identity(const Pmr& r, const Pmr& other)
    {
        return r.is_equal(r) && r == r && !r.is_equal(other) && r != other;
    }
    template <typename X>
    static bool identity(const cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<X>&, const Pmr&)
    {
        return true;  // not a resource itself
    }
    void check_all()
    {
        std::uint64_t h = sim::mix(env_.size, env_.limit);
        for (const auto& b : b_)
        {
            if (!same(b, b.size))
            {
                bad("content", "data in a live block was changed");
            }
            h = sim::mix(h, (b.inner ? 1U : 0U) + 2U * b.align + 8192U * (b.size / 8U));
        }
        if (!identity(d_->get(), env_.res))
        {
            bad("memory", "a resource is equal to another one, or not to itself");
        }
        const std::size_t top = d_->get().max_size();
        if (top > static_cast<std::size_t>(PTRDIFF_MAX) || top < env_.size || (env_.limit < static_cast<std::size_t>(PTRDIFF_MAX) - env_.size && top > env_.size + env_.limit))
        {
            sim::violation("bound", "a maximum of %zu is reported for a buffer of %zu and an upstream limit of %zu", top, env_.size, env_.limit);
        }
        if (env_.mem.live_blocks() != outer_blocks())
        {
            sim::violation("memory", "%zu upstream blocks held for %zu live blocks", env_.mem.live_blocks(), outer_blocks());
        }
        sim::state(h);
    }
    void do_alloc(std::size_t size, std::size_t align)
    {
        sim::trace("  allocate(%zu, %zu)", size, align);
        const bool    use_inner = !inner_used() && inner_fits(size, align);
        const auto    calls     = env_.mem.requests;
        void*         p         = nullptr;
        const Res     r         = sim::call([&] { p = d_->get().allocate(size, align); });
        const bool    injected  = sim::ctx.injected_mem > 0;
        const bool    may_up    = !use_inner && has_up_ && size <= env_.limit;
        if (use_inner && env_.mem.requests != calls)
        {
            bad("atomic", "upstream was asked although the buffer is free and large enough");
        }
        if (!may_up && env_.mem.requests != calls)
        {
            bad("atomic", "upstream was asked for more than the configured limit");
        }
        failed(r, p, injected || !(use_inner || may_up));
        if (p == nullptr)
        {
            return;
        }
        Block b{static_cast<unsigned char*>(p), size, align, false, ++salt_};
        place(b);
        if (use_inner && !b.inner)
        {
            bad("atomic", "the buffer was not used although it is free and large enough");
        }
        fill(b, 0);
        b_.push_back(b);
        sim::outcome(0);
    }
    void failed(Res r, void* p, bool expected)
    {
        if (r == Res::length || r == Res::other)
        {
            sim::violation("exc", "unexpected exception");
        }
        const bool fail = r != Res::ok || p == nullptr;
#if SIM_EXC
        if (r == Res::ok && p == nullptr)
        {
            bad("exc", "a failed allocation returned null instead of throwing");
        }
#endif
        if (fail)
        {
            sim::outcome(1);
        }
        if (fail != expected)
        {
            bad("atomic", fail ? "request failed although it can be satisfied" : "request succeeded although nothing can satisfy it");
        }
    }
    void give_back(std::size_t i)
    {
        const Block b = b_[i];
        if (!same(b, b.size))
        {
            bad("content", "data in a live block was changed");
        }
        const std::size_t outer = env_.mem.live_blocks();
        b_.erase(b_.begin() + static_cast<std::ptrdiff_t>(i));
        const Res r = sim::call([&] { d_->get().deallocate(b.p, b.size, b.align); });
        if (r != Res::ok)
        {
            bad("exc", "deallocation threw");
        }
        if (env_.mem.live_blocks() != outer - (b.inner ? 0U : 1U))
        {
            bad("memory", "returning a block did not return its upstream block exactly once");
        }
        sim::outcome(0);
    }
    void do_realloc(std::size_t i, std::size_t n, std::size_t align)
    {
        Block old = b_[i];
        sim::trace("  reallocate(%zu -> %zu, %zu -> %zu, %s)", old.size, n, old.align, align, old.inner ? "buffer" : "upstream");
        const bool  room  = old.inner ? inner_fits(n, align) : false;
        void*       q     = nullptr;
        const auto  calls = env_.mem.requests;
        const Res   r     = sim::call([&] { q = d_->get().reallocate(old.p, old.size, n, align); });
        if (r != Res::ok && r != Res::bad_alloc && r != Res::std_bad_alloc)
        {
            bad("exc", "unexpected exception");
        }
        if (old.inner && calls != env_.mem.requests)
        {
            bad("atomic", "upstream was asked to reallocate the buffer's block");
        }
        if (!old.inner && D::kRealloc && (n <= env_.limit) != (calls != env_.mem.requests))
        {
            bad("atomic", n <= env_.limit ? "upstream was not asked to reallocate its block" : "upstream was asked to reallocate above the configured limit");
        }
        if (r != Res::ok || q == nullptr)
        {
            if (room && align == old.align)
            {
                bad("atomic", "reallocation failed although the buffer has room");
            }
            if (!same(old, old.size))
            {
                bad("content", "a failed reallocation changed the block");
            }
            sim::outcome(1);
            return;
        }
        b_.erase(b_.begin() + static_cast<std::ptrdiff_t>(i));
        Block b{static_cast<unsigned char*>(q), n, align, false, old.salt};
        place(b);
        if (b.inner != old.inner)
        {
            // moving between the buffer and the upstream is allowed only if the old home was given back, see check_all
            sim::probe("moved");
        }
        const std::size_t keep = std::min(old.size, n);
        if (align == old.align && !same(b, keep))
        {
            bad("content", "reallocation lost the data");
        }
        fill(b, align == old.align ? keep : 0);
        b_.push_back(b);
        sim::outcome(0);
    }

    void step(const sim::Step& st)
    {
        const std::size_t align = std::size_t{1} << (st.a[2] % 9);
        const std::size_t any   = size_of(st.a[1]);
        const std::size_t bi    = b_.empty() ? 0 : static_cast<std::size_t>(st.a[0]) % b_.size();
        switch (st.op)
        {
        case ALLOC:
            if (b_.size() < 12)
            {
                do_alloc(any, align);
            }
            return;
        case ALLOC_FIT:
            // sizes at the very edge of what the buffer holds
            if (b_.size() < 12)
            {
                const auto        a   = reinterpret_cast<std::uintptr_t>(env_.buffer());
                const std::size_t pad = static_cast<std::size_t>((align - (a & (align - 1))) & (align - 1));
                const std::size_t top = env_.size >= pad ? env_.size - pad : env_.size;
                const std::size_t d   = static_cast<std::size_t>(st.a[1]) % 5;
                do_alloc(d <= 2 ? top - std::min(top, d) : top + d - 2, align);
            }
            return;
        case FREE:
            if (b_.empty())
            {
                do_alloc(any % 32, align);
                return;
            }
            give_back(bi);
            return;
        case REALLOC:
        case REALLOC_NEAR:
            if (b_.empty())
            {
                do_alloc(any, align);
            }
            if (!b_.empty())
            {
                const std::size_t k = static_cast<std::size_t>(st.a[0]) % b_.size();
                std::size_t       n = any;
                if (st.op == REALLOC_NEAR)
                {
                    const std::size_t d = static_cast<std::size_t>(st.a[1]) % 9;
                    n                   = b_[k].inner ? env_.size + 4 - std::min(d, env_.size + 3) : b_[k].size + 4 - std::min(d, b_[k].size + 3);
                    if (!b_[k].inner && st.a[3] % 3 == 0 && env_.limit < 6000)
                    {
                        n = env_.limit + 3 - std::min(d % 6, env_.limit + 2);
                    }
                }
                n = n == 0 ? 1 : n;
                do_realloc(k, n, b_[k].inner && st.a[3] % 4 == 0 ? align : b_[k].align);
            }
            return;
        case REALLOC_NULL:
        {
            if (b_.size() >= 12)
            {
                return;
            }
            const std::size_t n = any == 0 ? 1 : any;
            void*             q = nullptr;
            const Res         r = sim::call([&] { q = d_->get().reallocate(nullptr, 0, n, align); });
            if (r != Res::ok && r != Res::bad_alloc && r != Res::std_bad_alloc)
            {
                bad("exc", "unexpected exception");
            }
            if (q == nullptr)
            {
                sim::outcome(2);
                return;
            }
            Block b{static_cast<unsigned char*>(q), n, align, false, ++salt_};
            place(b);
            fill(b, 0);
            b_.push_back(b);
            sim::outcome(0);
            return;
        }
        case REWRITE:
            if (!b_.empty())
            {
                b_[bi].salt = ++salt_;
                fill(b_[bi], 0);
                sim::outcome(0);
            }
            return;
        case RELOCATE:
            if (D::kMovable)
            {
                d_->relocate();
                sim::outcome(0);
            }
            return;
        case QUOTA:
            env_.mem.quota = (st.a[1] % 2) != 0 ? ~std::size_t{0} : env_.mem.live_bytes() + static_cast<std::size_t>(st.a[2]) % 300;
            sim::outcome(0);
            return;
        default:
            return;
        }
    }
    static std::size_t size_of(std::int64_t v)
    {
        const auto u = static_cast<std::size_t>(v);
        if (u % 23 == 0)
        {
            return ~std::size_t{0} - u % 7;  // cannot exist
        }
        return u % 5 == 4 && u > 1200 ? u : u % 3 == 0 ? u % 1200 : u % 70;
    }

    Env                env_;
    std::unique_ptr<D> d_;
    std::vector<Block> b_;
    unsigned           salt_{0};
    bool               has_up_{true};
};

template <typename D>
void exec(const sim::Plan& p)
{
    auto w = std::make_unique<W<D>>(p);
    w->run(p);
}

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "buf",
        {{"allocate", 12}, {"allocate_edge", 6}, {"deallocate", 10}, {"reallocate", 5}, {"reallocate_edge", 7}, {"reallocate_null", 2}, {"rewrite", 2}, {"relocate", 1}, {"quota", 2}},
        {{"buffer", &exec<OverBuffer>, 4},
         {"buffer_only", &exec<OverBufferOnly>, 1},
         {"array64", &exec<OverArray<64, true>>, 1},
         {"array1", &exec<OverArray<1, true>>, 1},
         {"array300", &exec<OverArray<300, true>>, 1},
         {"array128_only", &exec<OverArray<128, false>>, 1},
         {"std_upstream", &exec<OverStd>, 2}},
        4,
        40,
        nullptr,
        true,
        false,
        "UnsynchronizedBufferMemoryResource, UnsynchronizedArrayMemoryResource, UnsynchronizedBufferMemoryResourceDelegate, null_memory_resource",
        "upstream memory resources, clients",
    };
    return w;
}
