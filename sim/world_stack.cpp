// World: containers, holders, pointers and raw blocks on trees of stacked memory resources (buffer, array, monotonic, in any nesting)
// over simulated memory or the system resource. Every connection between a resource and its upstream has a ledger of its own.
#include "sim_pmr.hpp"
#include <cetl/pf17/array_memory_resource.hpp>
#include <cetl/pf17/buffer_memory_resource.hpp>
#include <cetl/pf17/sys/memory_resource.hpp>
#include <cetl/pmr/function.hpp>
#include <cetl/pmr/interface_ptr.hpp>
#include <cetl/pmr/memory.hpp>
#include <cetl/unbounded_variant.hpp>
#include <cetl/variable_length_array.hpp>
#include <algorithm>
#include <memory>
#include <vector>

namespace
{
using sim::Mem;
using sim::Res;
namespace pmr = cetl::pf17::pmr;
using Pmr     = pmr::memory_resource;

enum Op : int
{
    MAKE,
    CHANGE,
    SHRINK,
    COPY,
    MOVE,
    SWAP,
    DESTROY,
    RAW_REALLOC,
    RELEASE,
    TEAR,
    DRAIN,
    REUSE,
    QUOTA,
    OP_COUNT
};

constexpr int         kLayers = 5;
constexpr int         kSlots  = 8;
constexpr std::size_t kHuge   = std::size_t{1} << 20;

/// Connection of one client to a resource.
class Link final : public Pmr
{
public:
    struct Blk
    {
        unsigned char* p;
        std::size_t    size;
        std::size_t    align;
    };
    Pmr*             to{nullptr};
    int              layer{-1};    // index of the resource it leads to, -1 for the bottom
    std::vector<Blk> blocks;
    std::uint64_t    requests{0};
    bool             quiet{false};  // inject no failures
    struct Judge
    {
        virtual void placed(const Link& l, const Blk& b) = 0;
    };
    Judge* judge{nullptr};

    std::size_t bytes() const
    {
        std::size_t n = 0;
        for (const auto& b : blocks)
        {
            n += b.size;
        }
        return n;
    }
    bool holds(const unsigned char* p, std::size_t n) const
    {
        return std::any_of(blocks.begin(), blocks.end(), [p, n](const Blk& b) { return p >= b.p && p + n <= b.p + b.size; });
    }

private:
    void* do_allocate(std::size_t size, std::size_t align) override
    {
        ++requests;
        if (!quiet && sim::fault_point(sim::K_ALLOC))
        {
            sim::trace("    allocation of %zu from resource %d fails", size, layer);
            (void) sim::new_fault_id(true);
#if SIM_EXC
            throw sim::SimBadAlloc{sim::ctx.last_id};
#else
            return nullptr;
#endif
        }
        void* const p = to->allocate(size, align);
        if (p != nullptr)
        {
            admit(Blk{static_cast<unsigned char*>(p), size, align});
        }
        return p;
    }
    void admit(const Blk& b)
    {
        if (reinterpret_cast<std::uintptr_t>(b.p) % b.align != 0)
        {
            sim::violation("bound", "a resource delivered a block that is not aligned as requested");
        }
        judge->placed(*this, b);
        blocks.push_back(b);
    }
    std::vector<Blk>::iterator find(void* p)
    {
        return std::find_if(blocks.begin(), blocks.end(), [p](const Blk& b) { return b.p == p; });
    }
    void do_deallocate(void* p, std::size_t size, std::size_t align) override
    {
        if (p != nullptr)
        {
            // zero-sized blocks may share their address with others
            auto it = std::find_if(blocks.begin(), blocks.end(), [&](const Blk& b) { return b.p == p && b.size == size && b.align == align; });
            if (it == blocks.end())
            {
                it = find(p);
                if (it == blocks.end())
                {
                    sim::violation("memory", "a block is returned that was not obtained from this resource");
                }
                sim::violation("memory", "a block is returned with a wrong size or alignment");
            }
            blocks.erase(it);
        }
        to->deallocate(p, size, align);
    }
    bool do_is_equal(const Pmr& o) const noexcept override
    {
        return this == &o;
    }
    std::size_t do_max_size() const noexcept override
    {
        return to->max_size();
    }
    void* do_reallocate(void* p, std::size_t o, std::size_t n, std::size_t align) override
    {
        ++requests;
        if (!quiet && sim::fault_point(sim::K_REALLOC))
        {
            return nullptr;
        }
        const auto it = std::find_if(blocks.begin(), blocks.end(), [&](const Blk& b) { return b.p == p && b.size == o; });
        if (p != nullptr && it == blocks.end())
        {
            sim::violation("memory", "a block is reallocated with a wrong address or size");
        }
        Blk keep{};
        if (it != blocks.end())
        {
            keep = *it;
            blocks.erase(it);
        }
        void* const q = to->reallocate(p, o, n, align);
        if (q == nullptr)
        {
            if (keep.p != nullptr)
            {
                blocks.push_back(keep);
            }
            return nullptr;
        }
        admit(Blk{static_cast<unsigned char*>(q), n, align});
        return q;
    }
};

using T    = sim::Tracked<1, sim::F_COPY | sim::F_MOVE | sim::F_NTMOVE>;
using TBig = sim::Tracked<2, sim::F_COPY | sim::F_MOVE | sim::F_NTMOVE, 72>;

struct Small : T
{
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return {0x81, 1};
    }
    using T::T;
};
struct Large : TBig
{
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return {0x82, 1};
    }
    using TBig::TBig;
};
struct Iface
{
    virtual ~Iface()                 = default;
    virtual std::int64_t get() const = 0;
};
struct Impl final : Iface
{
    explicit Impl(std::int64_t v)
        : x(v)
    {
    }
    std::int64_t get() const override
    {
        return x.value();
    }
    TBig x;
};
template <typename B>
struct Target
{
    B            x;
    std::int64_t operator()(std::int64_t y) const
    {
        return x.value() * 2 + y;
    }
};

using Arr  = cetl::VariableLengthArray<std::int64_t, pmr::polymorphic_allocator<std::int64_t>>;  // see known-findings.txt for other elements
using Bits = cetl::VariableLengthArray<bool, pmr::polymorphic_allocator<bool>>;
using Uv   = cetl::unbounded_variant<sizeof(Small), true, true, alignof(std::max_align_t), Pmr>;
using Fn   = cetl::pmr::function<std::int64_t(std::int64_t), 48, Pmr>;
using IP   = cetl::pmr::InterfacePtr<Iface>;
using UP   = cetl::pmr::Factory::unique_ptr_t<pmr::polymorphic_allocator<TBig>>;

enum Kind : int
{
    NONE = -1,
    RAW,
    ARR,
    BITS,
    UV,
    FN,
    PTR,
    UPTR,
    KINDS
};

struct Layer
{
    enum Type : int
    {
        buffer,
        buffer_only,
        array_small,
        array_large,
        mono_buffer,
        mono_sized,
        mono_plain,
        types
    };
    std::unique_ptr<Pmr>             r;
    std::unique_ptr<Link>            down;   // to its upstream
    std::unique_ptr<Link>            users;  // used by the objects
    std::unique_ptr<unsigned char[]> own;    // buffer, unless borrowed from the upstream
    unsigned char*                   buf{nullptr};
    std::size_t                      size{0};
    bool                             borrowed{false};
    std::unique_ptr<Link>            loan;
    Type                             type{buffer};
    int                              up{-1};
    std::size_t                      limit{0};
    bool is_mono() const
    {
        return type >= mono_buffer;
    }
};

struct Slot
{
    Kind                      kind{NONE};
    std::unique_ptr<Arr>      arr;
    std::unique_ptr<Bits>     bits;
    std::unique_ptr<Uv>       uv;
    std::unique_ptr<Fn>       fn;
    IP                        ip;
    std::unique_ptr<UP>       up;
    unsigned char*            p{nullptr};
    std::size_t               n{0};
    std::size_t               align{1};
    int                       layer{-1};
    std::vector<std::int64_t> m;       // model: elements, or the value
    bool                      big{false};
};

class W final : Link::Judge
{
public:
    explicit W(const sim::Plan& p)
    {
        mem_.cls          = "memory";
        mem_.quota        = kHuge;
        mem_.coarse       = 4096;
        mem_.realloc_mode = static_cast<sim::ReallocMode>(p.cfg[7] % 5);
        system_           = p.cfg[6] % 4 == 0;
        count_            = 1 + static_cast<int>(p.cfg[0] % kLayers);
        seed_             = static_cast<std::uint64_t>(p.cfg[1]) * 977U + static_cast<std::uint64_t>(p.cfg[2]);
        for (int i = 0; i < count_; ++i)
        {
            build(i);
        }
    }
    void run(const sim::Plan& p)
    {
        for (std::size_t i = 0; i < p.steps.size(); ++i)
        {
            sim::begin_step(static_cast<int>(i), p.steps[i]);
            step(p.steps[i]);
            check_all();
            sim::end_step();
        }
        sim::ctx.op = -1;
        drain();
        for (int i = count_ - 1; i >= 0; --i)
        {
            tear(i);
        }
        sim::life.check_empty("everything destroyed");
        mem_.check_empty("every resource destroyed");
    }

private:
    static void bad(const char* cls, const char* what)
    {
        sim::violation(cls, "%s", what);
    }
    // ------------------------------------------------------------------------------------------------ layers
    Pmr* bottom()
    {
        return system_ ? pmr::new_delete_resource() : static_cast<Pmr*>(&root_);
    }
    std::unique_ptr<Link> link(int to)
    {
        auto l   = std::make_unique<Link>();
        l->to    = to < 0 ? bottom() : l_[to].r.get();
        l->layer = to;
        l->judge = this;
        return l;
    }
    void build(int i)
    {
        static constexpr std::size_t sizes[]  = {0, 32, 64, 100, 256, 700, 2000};
        static constexpr std::size_t limits[] = {0, 40, 300, kHuge, kHuge, kHuge};
        seed_                                 = sim::mix(seed_, static_cast<std::uint64_t>(i) + 1);
        Layer& l                              = l_[i];
        l                                     = Layer{};
        l.type                                = static_cast<Layer::Type>(seed_ % Layer::types);
        l.up                                  = (seed_ >> 8) % 3 == 0 ? -1 : static_cast<int>((seed_ >> 12) % static_cast<unsigned>(i + 1)) - 1;
        if ((seed_ >> 16) % 2 == 0 && i > 0)
        {
            l.up = i - 1;  // deep stacks
        }
        l.size  = sizes[(seed_ >> 20) % 7];
        l.limit = limits[(seed_ >> 24) % 6];
        l.down  = link(l.up);
        if (l.type == Layer::mono_buffer || l.type == Layer::buffer || l.type == Layer::buffer_only)
        {
            if (l.type != Layer::buffer && l.size == 0)
            {
                l.size = 48;
            }
            l.borrowed = (seed_ >> 32) % 3 == 0 && l.size > 0;
            if (l.borrowed)
            {
                l.loan        = link(l.up);
                l.loan->quiet = true;
                void* p       = nullptr;
                (void) sim::call([&] { p = l.loan->allocate(l.size, 8); });
                l.buf = static_cast<unsigned char*>(p);
                if (p == nullptr)
                {
                    l.borrowed = false;
                }
            }
            if (!l.borrowed && l.size > 0)
            {
                l.own.reset(new unsigned char[l.size]);
                l.buf = l.own.get();
            }
        }
        switch (l.type)
        {
        case Layer::buffer:
            l.r = std::make_unique<pmr::UnsynchronizedBufferMemoryResource>(l.buf, l.size, l.down.get(), l.limit);
            break;
        case Layer::buffer_only:
            l.r     = std::make_unique<pmr::UnsynchronizedBufferMemoryResource>(l.buf, l.size);
            l.limit = 0;
            break;
        case Layer::array_small:
            array<48>(l);
            break;
        case Layer::array_large:
            array<400>(l);
            break;
        case Layer::mono_buffer:
            l.r = std::make_unique<pmr::monotonic_buffer_resource>(l.buf, l.size, l.down.get());
            break;
        case Layer::mono_sized:
            l.r    = std::make_unique<pmr::monotonic_buffer_resource>(std::max<std::size_t>(l.size, 1), l.down.get());
            l.size = 0;
            break;
        default:
            l.r    = std::make_unique<pmr::monotonic_buffer_resource>(l.down.get());
            l.size = 0;
            break;
        }
        l.users = link(i);
        sim::trace("  resource %d: type %d over %d, buffer %zu%s, limit %zu", i, static_cast<int>(l.type), l.up, l.size, l.borrowed ? " borrowed" : "", l.limit);
    }
    template <std::size_t N>
    void array(Layer& l)
    {
        auto a = std::make_unique<pmr::UnsynchronizedArrayMemoryResource<N>>(l.down.get(), l.limit);
        l.buf  = static_cast<unsigned char*>(a->data());
        l.size = N;
        l.r    = std::move(a);
    }
    /// Memory can run out only through injected failures.
    bool ample(int i) const
    {
        if (i < 0)
        {
            return mem_.quota == kHuge || system_;
        }
        const Layer& l = l_[i];
        return (l.is_mono() || l.limit == kHuge) && ample(l.up);
    }
    void placed(const Link& k, const Link::Blk& b) override
    {
        // inside what the resource owns
        const int i = k.layer;
        if (i < 0)
        {
            return;  // checked by the ledger of the simulated memory, or by the sanitizer
        }
        const Layer& l = l_[i];
        const bool   inner = l.buf != nullptr && b.p >= l.buf && b.p + b.size <= l.buf + l.size;
        if (!inner && !l.down->holds(b.p, b.size))
        {
            bad("bound", "a resource delivered memory that is neither its buffer nor obtained from its upstream");
        }
        // not in use by any other user of that resource
        auto apart = [&](const Link* o) {
            if (o == nullptr || o->layer != i)
            {
                return;
            }
            for (const auto& x : o->blocks)
            {
                if (x.p < b.p + b.size && b.p < x.p + x.size)
                {
                    bad("bound", "two users of a resource got the same memory");
                }
            }
        };
        for (const auto& o : l_)
        {
            apart(o.down.get());
            apart(o.users.get());
            apart(o.loan.get());
        }
    }
    bool used(int i, bool by_objects) const
    {
        for (const auto& o : l_)
        {
            for (const Link* k : {o.down.get(), o.loan.get(), by_objects ? o.users.get() : nullptr})
            {
                if (k != nullptr && k->layer == i && !k->blocks.empty())
                {
                    return true;
                }
            }
        }
        return false;
    }
    bool has_child(int i) const
    {
        for (int k = 0; k < count_; ++k)
        {
            if (l_[k].r != nullptr && l_[k].up == i)
            {
                return true;
            }
        }
        return false;
    }
    void tear(int i)
    {
        Layer& l = l_[i];
        if (l.r == nullptr)
        {
            return;
        }
        for (int k = i + 1; k < count_; ++k)
        {
            if (l_[k].up == i)
            {
                tear(k);
            }
        }
        evict(i);
        if (!l.users->blocks.empty())
        {
            bad("memory", "destroyed objects did not return all memory to their resource");
        }
        l.r.reset();
        if (!l.down->blocks.empty())
        {
            bad("memory", "a destroyed resource did not return all memory to its upstream");
        }
        if (l.borrowed)
        {
            l.loan->deallocate(l.buf, l.size, 8);
        }
        l.buf = nullptr;
        l.loan.reset();
        l.down.reset();
        l.users.reset();
        l.own.reset();
    }
    /// Destroys the objects on resource i.
    void evict(int i)
    {
        for (auto& s : s_)
        {
            if (s.kind != NONE && on(s) == i)
            {
                kill(s);
            }
        }
    }
    void drain()
    {
        for (auto& s : s_)
        {
            kill(s);
        }
        for (const auto& l : l_)
        {
            if (l.users != nullptr && !l.users->blocks.empty())
            {
                bad("memory", "destroyed objects did not return all memory to their resource");
            }
        }
        sim::life.check_empty("all objects destroyed");
    }

    // ------------------------------------------------------------------------------------------------ objects
    int on(const Slot& s) const
    {
        const Pmr* r = nullptr;
        switch (s.kind)
        {
        case UV:
            r = s.uv->get_memory_resource();
            break;
        case FN:
            r = s.fn->get_memory_resource();
            break;
        default:
            return s.layer;
        }
        return r == nullptr ? -1 : static_cast<const Link*>(r)->layer;
    }
    void kill(Slot& s)
    {
        if (s.kind == RAW)
        {
            intact(s);
            l_[s.layer].users->deallocate(s.p, s.n, s.align);
        }
        s = Slot{};
    }
    static unsigned char pat(const Slot& s, std::size_t k)
    {
        return static_cast<unsigned char>(static_cast<std::size_t>(s.m[0]) * 31U + k * 7U + 3U);
    }
    static void fill(Slot& s)
    {
        for (std::size_t k = 0; k < s.n; ++k)
        {
            s.p[k] = pat(s, k);
        }
    }
    static void intact(const Slot& s, std::size_t n)
    {
        for (std::size_t k = 0; k < n; ++k)
        {
            if (s.p[k] != pat(s, k))
            {
                bad("content", "data in a block was changed");
            }
        }
    }
    static void intact(const Slot& s)
    {
        intact(s, s.n);
    }
    std::vector<std::int64_t> read(const Slot& s) const
    {
        std::vector<std::int64_t> v;
        switch (s.kind)
        {
        case RAW:
            intact(s);
            return s.m;
        case ARR:
            for (const auto& x : *s.arr)
            {
                v.push_back(x);
            }
            break;
        case BITS:
            for (std::size_t i = 0; i < s.bits->size(); ++i)
            {
                v.push_back((*s.bits)[i] ? 1 : 0);
            }
            break;
        case UV:
            if (const auto* const x = cetl::get_if<Small>(const_cast<const Uv*>(s.uv.get())))
            {
                v.push_back(x->value());
            }
            if (const auto* const x = cetl::get_if<Large>(const_cast<const Uv*>(s.uv.get())))
            {
                v.push_back(x->value() + 1000000);
            }
            break;
        case FN:
            if (*s.fn)
            {
                v.push_back(((*s.fn)(1) - 1) / 2);
            }
            break;
        case PTR:
            v.push_back(s.ip->get());
            break;
        case UPTR:
            v.push_back((*s.up)->value());
            break;
        default:
            break;
        }
        return v;
    }
    void check_all()
    {
        std::uint64_t h = static_cast<std::uint64_t>(count_);
        for (const auto& s : s_)
        {
            if (s.kind == NONE)
            {
                continue;
            }
            if (read(s) != s.m)
            {
                bad("content", "an object on a stacked resource changed its value");
            }
            h = sim::mix(h, static_cast<std::uint64_t>(s.kind) * 8 + static_cast<std::uint64_t>(on(s) + 1));
        }
        for (int i = 0; i < count_; ++i)
        {
            h = sim::mix(h, l_[i].r == nullptr ? 99U : static_cast<unsigned>(l_[i].type) * 8U + static_cast<unsigned>(l_[i].up + 1));
            h = sim::mix(h, l_[i].r == nullptr ? 0U : l_[i].users->blocks.size() * 64U + l_[i].down->blocks.size());
        }
        sim::state(h);
    }
    /// Outcome of an operation on objects at resource i: must succeed when nothing ran out.
    void judge_result(bool done, Res r, bool may_fail, const char* what)
    {
        if ((r == Res::length && !may_fail) || r == Res::other)
        {
            bad("exc", "unexpected exception");
        }
        if (!done && !may_fail && sim::ctx.injected == 0)
        {
            sim::violation("atomic", "%s failed although no memory ran out", what);
        }
        if (!done)
        {
            sim::probe("ran out");
        }
        sim::outcome(done ? 0 : 1);
    }
    int layer_of(std::int64_t a) const
    {
        int i = static_cast<int>(a % count_);
        while (l_[i].r == nullptr)
        {
            i = (i + 1) % count_;
        }
        return i;
    }
    bool any_layer() const
    {
        return std::any_of(l_, l_ + count_, [](const Layer& l) { return l.r != nullptr; });
    }
    template <typename U>
    pmr::polymorphic_allocator<U> al(int i)
    {
        return pmr::polymorphic_allocator<U>(l_[i].users.get());
    }
    void make(Slot& s, Kind k, int i, std::int64_t x, std::int64_t y)
    {
        kill(s);
        Link* const r = l_[i].users.get();
        Slot        t;
        t.kind  = k;
        t.layer = i;
        Res  rc = Res::ok;
        bool ok = true;
        bool room = ample(i);
        switch (k)
        {
        case RAW:
            t.n     = static_cast<std::size_t>(y % 3 == 0 ? y % 900 : y % 70);
            t.align = std::size_t{1} << (y % 4 == 0 ? y / 4 % 7 : y % 4);
            rc      = sim::call([&] { t.p = static_cast<unsigned char*>(r->allocate(t.n, t.align)); });
            ok      = rc == Res::ok && (t.p != nullptr || t.n == 0);
            room    = room && t.align <= 8;
            if (ok && t.p == nullptr)
            {
                ok = false;
            }
            if (ok)
            {
                t.m = {x};
                fill(t);
            }
            if (t.n == 0)
            {
                room = false;
            }
            break;
        case ARR:
            t.arr = std::make_unique<Arr>(al<std::int64_t>(i));
            t.m   = {};
            break;
        case BITS:
            t.bits = std::make_unique<Bits>(al<bool>(i));
            break;
        case UV:
            t.uv = std::make_unique<Uv>(r);
            break;
        case FN:
            t.fn = std::make_unique<Fn>(r);
            break;
        case PTR:
            rc = sim::call([&] { t.ip = cetl::pmr::InterfaceFactory::make_unique<Iface>(al<Impl>(i), x); });
            ok = rc == Res::ok && t.ip != nullptr;
            t.m = {x};
            break;
        default:
        {
            auto a = al<TBig>(i);
            rc     = sim::call([&] { t.up = std::make_unique<UP>(cetl::pmr::Factory::make_unique(a, x)); });
            ok     = rc == Res::ok && t.up != nullptr && *t.up != nullptr;
            t.m    = {x};
            break;
        }
        }
        judge_result(ok, rc, !room, "creating an object");
        if (ok)
        {
            s = std::move(t);
            t.kind = NONE;
            if (s.kind == ARR || s.kind == BITS || s.kind == UV || s.kind == FN)
            {
                change(s, x, y);
            }
        }
    }
    /// After a failed operation: what is there must be the old value, or nothing.
    void settle(Slot& s, Res rc, const std::vector<std::int64_t>& want, bool may_lose, const char* what)
    {
        const auto got = read(s);
        // what is left of the room on the resource is not modelled unless memory is ample
        const bool room = ample(on(s));
        if (got == want && rc == Res::ok)
        {
            s.m = want;
            judge_result(true, rc, true, what);
            return;
        }
        if (got != s.m && !(may_lose && got.empty()))
        {
            bad("content", "a failed operation left a wrong value");
        }
        s.m = got;
        judge_result(false, rc, !room, what);
    }
    void change(Slot& s, std::int64_t x, std::int64_t y)
    {
        switch (s.kind)
        {
        case RAW:
            s.m = {x};
            fill(s);
            sim::outcome(0);
            break;
        case ARR:
            for (std::int64_t k = 0; k < 1 + y % 6; ++k)
            {
                auto want = s.m;
                want.push_back(x + k);
                const Res r = sim::call([&] { s.arr->push_back(x + k); });
                settle(s, r, want, false, "push_back");
            }
            break;
        case BITS:
            for (std::int64_t k = 0; k < 1 + y % 40; ++k)
            {
                auto want = s.m;
                want.push_back((x + k) % 3 == 0 ? 1 : 0);
                const Res r = sim::call([&] { s.bits->push_back((x + k) % 3 == 0); });
                settle(s, r, want, false, "push_back");
            }
            break;
        case UV:
        {
            const bool big  = y % 2 == 0;
            Res        r    = Res::ok;
            auto       want = std::vector<std::int64_t>{big ? x + 1000000 : x};
            if (big)
            {
                r = sim::call([&] { *s.uv = Large(x); });
            }
            else
            {
                r = sim::call([&] { *s.uv = Small(x); });
            }
            settle(s, r, want, true, "assigning a value");
            break;
        }
        case FN:
        {
            const Res r = sim::call([&] {
                if (y % 2 == 0)
                {
                    *s.fn = Target<TBig>{TBig(x)};
                }
                else
                {
                    *s.fn = Target<T>{T(x)};
                }
            });
            settle(s, r, {x}, true, "assigning a target");
            break;
        }
        default:
            break;
        }
    }
    void shrink(Slot& s, std::int64_t y)
    {
        switch (s.kind)
        {
        case ARR:
            for (std::int64_t k = 0; k < y % 4 && !s.m.empty(); ++k)
            {
                s.arr->pop_back();
                s.m.pop_back();
            }
            {
                const auto want = s.m;
                const Res  r    = sim::call([&] { s.arr->shrink_to_fit(); });
                if (r == Res::length || r == Res::other)
                {
                    bad("exc", "unexpected exception");
                }
                sim::outcome(r == Res::ok ? 0 : 1);
            }
            break;
        case BITS:
            for (std::int64_t k = 0; k < y % 30 && !s.m.empty(); ++k)
            {
                s.bits->pop_back();
                s.m.pop_back();
            }
            (void) sim::call([&] { s.bits->shrink_to_fit(); });
            sim::outcome(0);
            break;
        case UV:
            s.uv->reset();
            s.m.clear();
            sim::outcome(0);
            break;
        case FN:
            s.fn->reset();
            s.m.clear();
            sim::outcome(0);
            break;
        default:
            break;
        }
    }
    void copy(Slot& s, Slot& o)
    {
        if (&s == &o || s.kind != o.kind)
        {
            return;
        }
        const auto want = o.m;
        const auto keep = s.m;
        Res        r    = Res::ok;
        switch (s.kind)
        {
        case ARR:
            r = sim::call([&] { *s.arr = *o.arr; });
            break;
        case BITS:
            r = sim::call([&] { *s.bits = *o.bits; });
            break;
        case UV:
            r = sim::call([&] { *s.uv = *o.uv; });
            break;
        case FN:
            r = sim::call([&] { *s.fn = *o.fn; });
            break;
        default:
            return;
        }
        const auto got = read(s);
        if (got != want || r != Res::ok)
        {
            // any valid mixture of the two values
            for (const auto v : got)
            {
                if (std::find(want.begin(), want.end(), v) == want.end() && std::find(keep.begin(), keep.end(), v) == keep.end())
                {
                    bad("content", "a failed copy left values that were never there");
                }
            }
            s.m = got;
            judge_result(false, r, !ample(on(s)) || !ample(on(o)), "copying");
            return;
        }
        s.m = want;
        judge_result(true, r, true, "copying");
    }
    void move(Slot& s, Slot& o)
    {
        if (&s == &o || s.kind != o.kind)
        {
            return;
        }
        const auto want = o.m;
        Res        r    = Res::ok;
        switch (s.kind)
        {
        case ARR:
            r = sim::call([&] { *s.arr = std::move(*o.arr); });
            break;
        case BITS:
            r = sim::call([&] { *s.bits = std::move(*o.bits); });
            break;
        case UV:
            r = sim::call([&] { *s.uv = std::move(*o.uv); });
            break;
        case FN:
            r = sim::call([&] { *s.fn = std::move(*o.fn); });
            break;
        case PTR:
            s.ip = std::move(o.ip);
            finish_ptr_move(s, o);
            return;
        case UPTR:
            s.up = std::move(o.up);
            finish_ptr_move(s, o);
            return;
        default:
            return;
        }
        const auto got = read(s);
        if (got != want || r != Res::ok)
        {
            for (const auto v : got)
            {
                if (v != sim::kMoved && std::find(want.begin(), want.end(), v) == want.end() && std::find(s.m.begin(), s.m.end(), v) == s.m.end())
                {
                    bad("content", "a failed move left values that were never there");
                }
            }
            s.m = got;
            o.m = read(o);
            judge_result(false, r, !ample(on(s)), "moving");
            return;
        }
        s.m = want;
        o.m = read(o);  // valid but unspecified
        judge_result(true, r, true, "moving");
    }
    void finish_ptr_move(Slot& s, Slot& o)
    {
        s.m     = o.m;
        s.layer = o.layer;
        o.kind  = NONE;
        o       = Slot{};
        sim::outcome(0);
    }
    void swap(Slot& s, Slot& o)
    {
        if (&s == &o || s.kind != o.kind)
        {
            return;
        }
        switch (s.kind)
        {
        case UV:
            s.uv->swap(*o.uv);
            break;
        case FN:
            s.fn->swap(*o.fn);
            break;
        default:
            std::swap(s, o);
            sim::outcome(0);
            return;
        }
        std::swap(s.m, o.m);
        sim::outcome(0);
    }
    void raw_realloc(Slot& s, std::int64_t y)
    {
        if (s.kind != RAW || s.n == 0)
        {
            return;
        }
        const std::size_t n = 1 + static_cast<std::size_t>(y % 3 == 0 ? y % 700 : y % 90);
        void*             q = nullptr;
        const Res         r = sim::call([&] { q = l_[s.layer].users->reallocate(s.p, s.n, n, s.align); });
        if (r != Res::ok || q == nullptr)
        {
            intact(s);
            sim::outcome(1);
            return;
        }
        s.p = static_cast<unsigned char*>(q);
        intact(s, std::min(s.n, n));
        s.n = n;
        fill(s);
        sim::outcome(0);
    }
    /// Memory that was given back can be used again.
    void reuse(int i)
    {
        Layer& l = l_[i];
        if (l.is_mono())
        {
            if (l.size == 0 || used(i, true))
            {
                return;
            }
            static_cast<pmr::monotonic_buffer_resource&>(*l.r).release();
        }
        else if (l.size == 0 || used(i, true))
        {
            return;
        }
        const auto  before = l.down->requests;
        void*       p      = nullptr;
        const bool  was    = l.users->quiet;
        l.users->quiet     = true;
        const Res r        = sim::call([&] { p = l.users->allocate(l.size, 1); });
        if (r != Res::ok || p == nullptr)
        {
            bad("atomic", "memory that was given back cannot be used again");
        }
        if (l.down->requests != before || p != l.buf)
        {
            bad("atomic", "a resource does not reuse its free buffer");
        }
        l.users->deallocate(p, l.size, 1);
        l.users->quiet = was;
        if (l.is_mono())
        {
            static_cast<pmr::monotonic_buffer_resource&>(*l.r).release();
        }
        sim::probe("reused");
        sim::outcome(0);
    }
    void release(int i)
    {
        Layer& l = l_[i];
        if (!l.is_mono())
        {
            return;
        }
        for (int k = i + 1; k < count_; ++k)
        {
            if (l_[k].r != nullptr && l_[k].up == i)
            {
                return;
            }
        }
        evict(i);
        const Res r = sim::call([&] { static_cast<pmr::monotonic_buffer_resource&>(*l.r).release(); });
        if (r != Res::ok)
        {
            bad("exc", "release threw");
        }
        if (!l.down->blocks.empty())
        {
            bad("memory", "a released resource did not return all memory to its upstream");
        }
        sim::outcome(0);
    }

    /// The slot a step is about: one the operation makes sense for, if there is any.
    Slot& pick(const sim::Step& st)
    {
        auto fits = [&](const Slot& s) {
            switch (st.op)
            {
            case MAKE:
                return s.kind == NONE || st.a[0] % 7 == 0;
            case CHANGE:
                return s.kind >= RAW && s.kind <= FN;
            case SHRINK:
                return s.kind >= ARR && s.kind <= FN;
            case COPY:
            case MOVE:
            case SWAP:
                return s.kind != NONE && s.kind != RAW &&
                       std::count_if(s_, s_ + kSlots, [&s](const Slot& o) { return o.kind == s.kind; }) > 1;
            case RAW_REALLOC:
                return s.kind == RAW && s.n > 0;
            default:
                return s.kind != NONE;
            }
        };
        for (int k = 0; k < kSlots; ++k)
        {
            Slot& s = s_[(st.a[0] + k) % kSlots];
            if (fits(s))
            {
                return s;
            }
        }
        return s_[st.a[0] % kSlots];
    }
    void step(const sim::Step& st)
    {
        Slot&              s = pick(st);
        const std::int64_t x = ++serial_;
        const std::int64_t y = st.a[2];
        if (!any_layer())
        {
            for (int i = 0; i < count_; ++i)
            {
                build(i);
            }
        }
        switch (st.op)
        {
        case MAKE:
            make(s, static_cast<Kind>(st.a[1] % KINDS), layer_of(st.a[3]), x, y);
            return;
        case CHANGE:
            change(s, x, y);
            return;
        case SHRINK:
            shrink(s, y);
            return;
        case COPY:
        case MOVE:
        case SWAP:
        {
            // a partner of the same kind, if there is one
            Slot* o = &s_[st.a[1] % kSlots];
            for (int k = 0; k < kSlots && (o == &s || o->kind != s.kind); ++k)
            {
                o = &s_[(st.a[1] + k) % kSlots];
            }
            if (st.op == COPY)
            {
                copy(s, *o);
            }
            else if (st.op == MOVE)
            {
                move(s, *o);
            }
            else
            {
                swap(s, *o);
            }
            return;
        }
        case DESTROY:
            if (s.kind != NONE)
            {
                kill(s);
                sim::outcome(0);
            }
            return;
        case RAW_REALLOC:
            raw_realloc(s, y);
            return;
        case RELEASE:
            release(layer_of(st.a[3]));
            return;
        case TEAR:
        {
            const int i = layer_of(st.a[3]);
            tear(i);
            if (y % 3 != 0)
            {
                for (int k = 0; k < count_; ++k)
                {
                    if (l_[k].r == nullptr)
                    {
                        build(k);
                    }
                }
            }
            else
            {
                // the others were built on it, so nothing above is left
                for (int k = 0; k < count_; ++k)
                {
                    if (l_[k].r == nullptr && (k == 0 || l_[k - 1].r != nullptr))
                    {
                        build(k);
                        break;
                    }
                }
            }
            sim::outcome(0);
            return;
        }
        case DRAIN:
            drain();
            sim::outcome(0);
            return;
        case REUSE:
            if (y % 2 == 0)
            {
                evict(layer_of(st.a[3]));
            }
            reuse(layer_of(st.a[3]));
            return;
        case QUOTA:
            mem_.quota = st.a[1] % 2 != 0 ? kHuge : mem_.live_bytes() + static_cast<std::size_t>(y) % 800;
            sim::outcome(0);
            return;
        default:
            return;
        }
    }

    Mem              mem_{0};
    sim::SimResource root_{mem_};
    bool             system_{false};
    int              count_{1};
    std::uint64_t    seed_{0};
    Layer            l_[kLayers];
    Slot             s_[kSlots];
    std::int64_t     serial_{10};
};

void exec(const sim::Plan& p)
{
    auto w = std::make_unique<W>(p);
    w->run(p);
}

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "stack",
        {{"make", 14},
         {"change", 8},
         {"shrink", 4},
         {"copy", 4},
         {"move", 3},
         {"swap", 2},
         {"destroy", 4},
         {"reallocate", 4},
         {"release", 1},
         {"tear_down", 1},
         {"drain", 1},
         {"reuse", 2},
         {"quota", 2}},
        {{"tree", &exec, 1}},
        4,
        40,
        nullptr,
        true,
        false,
        "buffer, array, monotonic and system memory resources in trees, polymorphic allocator, arrays, packed bool arrays, unbounded "
        "variants, functions, factories, interface pointers",
        "memory below the lowest resource, failures on every connection between two resources, clients",
    };
    return w;
}
