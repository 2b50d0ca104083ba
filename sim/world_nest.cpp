// World: user code that the library calls (elements, call targets, visitors, memory resources) uses other objects of the library
// before it returns, to any depth. Every set of objects must see what it would see without the nesting. Must stay valid C++14.
#include "sim.hpp"
namespace
{
void nest_point();
}
#define KIT_POINT() nest_point()
#define KIT_FAULT(kind) sim::count_fault(sim::kind, true)
#include "kit.hpp"

namespace
{
constexpr int kSets  = 4;
constexpr int kDepth = 4;

class W final
{
public:
    explicit W(const sim::Plan& p)
        : plan_(p)
        , n_(2 + static_cast<int>(p.cfg[2] % (kSets - 1)))
        , same_(p.cfg[3] % 2 == 0)
        , filled_(p.cfg[4] % 2 == 0)
        , done_(p.steps.size(), false)
        , points_(p.steps.size(), 0)
    {
    }
    static W* now;

    void run()
    {
        for (int k = 0; k < n_; ++k)
        {
            kit_[k].reset(new Kit(salt(k), filled_));
        }
        now = this;
        for (std::size_t i = 0; i < plan_.steps.size(); ++i)
        {
            if (!done_[i])
            {
                perform(i);
            }
        }
        now = nullptr;
        std::uint64_t seen[kSets] = {};
        for (int k = 0; k < n_; ++k)
        {
            kit_[k]->look();
            seen[k] = kit_[k]->digest();
            kit_[k].reset();
        }
        for (int k = 0; k < n_; ++k)
        {
            kit_[k].reset(new Kit(salt(k), filled_));
            for (const auto& s : plan_.steps)
            {
                if (set_of(s) == k)
                {
                    kit_[k]->step(s);
                }
            }
            kit_[k]->look();
            if (kit_[k]->digest() != seen[k])
            {
                sim::violation("content", "operations made inside user code, or around it, gave other results than without the nesting");
            }
            sim::state(sim::mix(kit_[k]->digest(), shape_));
            kit_[k].reset();
        }
        for (std::size_t i = 0; i < plan_.steps.size(); ++i)
        {
            sim::account_step(plan_.steps[i], 0, points_[i]);
        }
    }
    void point()
    {
        if (depth_ == 0)
        {
            return;
        }
        sim::tick();
        const std::size_t   self = stack_[depth_ - 1];
        const std::uint32_t o    = points_[self]++;
        bool                hit  = false;
        for (const auto& f : plan_.steps[self].f)
        {
            hit = hit || f.at == o || (f.sticky && f.at < o);
        }
        std::size_t next = 0;
        if (hit)
        {
            next = waiting();
            hit  = next < plan_.steps.size();
        }
        sim::count_fault(sim::K_NEST, hit);
        sim::ev(sim::mix(sim::K_NEST, hit));
        if (hit)
        {
            sim::trace("  %*suser code of step %zu runs step %zu at point %u", 2 * depth_, "", self, next, o);
            sim::probe(depth_ == 1 ? "nested" : depth_ == 2 ? "nested_twice" : "nested_deeper");
            if (std::uncaught_exception())
            {
                sim::probe("nested_in_unwinding");
            }
            shape_ = sim::mix(shape_, (static_cast<std::uint64_t>(self) << 32U) + (next << 16U) + o);
            perform(next);
        }
    }

private:
    int set_of(const sim::Step& s) const
    {
        return static_cast<int>(s.a[0] % n_);
    }
    std::int64_t salt(int k) const
    {
        return same_ ? 1 : k + 1;
    }
    /// The first step that is still to do and whose objects are not in use.
    std::size_t waiting() const
    {
        std::size_t i = depth_ < kDepth ? 0 : plan_.steps.size();
        while (i < plan_.steps.size() && (done_[i] || busy_[set_of(plan_.steps[i])]))
        {
            ++i;
        }
        return i;
    }
    void perform(std::size_t i)
    {
        const sim::Step& s = plan_.steps[i];
        const int        k = set_of(s);
        sim::ev(static_cast<std::uint64_t>(s.op) + 0x1000);
        sim::trace("%*sstep %zu %s on set %d (%lld %lld %lld) begins", 2 * depth_, "", i, sim::world().ops[static_cast<std::size_t>(s.op)].name, k,
                   static_cast<long long>(s.a[1]), static_cast<long long>(s.a[2]), static_cast<long long>(s.a[3]));
        done_[i]         = true;
        busy_[k]         = true;
        stack_[depth_++] = i;
        sim::ctx.calls   = 0;
        if (depth_ == 1)
        {
            sim::ctx.step_hash = sim::ctx.hash;
        }
        sim::ctx.step    = static_cast<int>(i);
        sim::ctx.op      = s.op;
        kit_[k]->step(s);
        --depth_;
        busy_[k] = false;
        if (depth_ > 0)
        {
            sim::ctx.step = static_cast<int>(stack_[depth_ - 1]);
            sim::ctx.op   = plan_.steps[stack_[depth_ - 1]].op;
        }
        sim::trace("%*sstep %zu ends", 2 * depth_, "", i);
    }

    const sim::Plan&           plan_;
    int                        n_;
    bool                       same_;
    bool                       filled_;
    std::vector<bool>          done_;
    std::vector<std::uint32_t> points_;
    std::unique_ptr<Kit>       kit_[kSets];
    bool                       busy_[kSets]{};
    std::size_t                stack_[kDepth]{};
    int                        depth_{0};
    std::uint64_t              shape_{0};
};
W* W::now = nullptr;

void nest_point()
{
    if (W::now != nullptr)
    {
        W::now->point();
    }
}

void exec(const sim::Plan& p)
{
    W::now = nullptr;
    auto w = std::unique_ptr<W>(new W(p));
    w->run();
}

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "nest",
        {{"array", 4},
         {"bits", 1},
         {"unbounded", 4},
         {"function", 4},
         {"optional", 3},
         {"variant", 4},
         {"pointer", 3},
         {"buffer", 2},
         {"monotonic", 2},
         {"allocator", 2},
         {"system", 1},
         {"misc", 1}},
        {{"sets", &exec, 1}},
        2,
        16,
        nullptr,
        true,
        false,
        "arrays, packed bool arrays, unbounded variants, functions, optionals, variants, factories, interface pointers, buffer, array, "
        "monotonic, system and global memory resources, polymorphic allocator, span, string view, rtti",
        "element and value types, call targets, visitors, bottom memory resource",
        true,
    };
    return w;
}
