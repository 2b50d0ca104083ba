// World: several clients of two o1heap adaptors over a simulated heap.
#include "sim_pmr.hpp"
#include "stub/o1heap.h"
#include <cetl/pmr/o1heap_memory_resource_delegate.hpp>
#include <memory>
#include <vector>

struct O1HeapInstance
{
    unsigned char* base;
    std::size_t    size;
    std::size_t    top;   // first byte behind the used part
    struct Frag
    {
        std::size_t at;
        std::size_t size;   // whole fragment
        std::size_t amount; // requested
    };
    std::vector<Frag> used;
    std::uint64_t     allocs{0};
    std::uint64_t     requests{0};
};

namespace
{
using sim::Res;
using Dut = cetl::pmr::UnsynchronizedO1HeapMemoryResourceDelegate;

std::vector<std::unique_ptr<O1HeapInstance>> heaps;

enum Op : int
{
    ALLOC,
    ALLOC_ALL,
    ALLOC_HUGE,
    FREE,
    REWRITE,
    OP_COUNT
};
}  // namespace

// A first-fit heap inside the caller's arena with the limits of the real one: fragments are rounded up to a power of two and
// carry a header, zero and oversized requests are refused.
extern "C" O1HeapInstance* o1heapInit(void* const base, const std::size_t size)
{
    heaps.push_back(std::make_unique<O1HeapInstance>());
    heaps.back()->base = static_cast<unsigned char*>(base);
    heaps.back()->size = size;
    heaps.back()->top  = 0;
    return heaps.back().get();
}
extern "C" void* o1heapAllocate(O1HeapInstance* const h, const std::size_t amount)
{
    ++h->requests;
    sim::trace("    heap.allocate(%zu)", amount);
    if (sim::fault_point(sim::K_ALLOC))
    {
        (void) sim::new_fault_id(true);
        return nullptr;
    }
    if (amount == 0 || amount > h->size)
    {
        return nullptr;
    }
    std::size_t need = O1HEAP_ALIGNMENT * 2;
    while (need < amount + O1HEAP_ALIGNMENT)
    {
        need *= 2;
    }
    std::size_t at = 0;
    std::size_t i  = 0;
    while (i < h->used.size() && h->used[i].at - at < need)
    {
        at = h->used[i].at + h->used[i].size;
        ++i;
    }
    if (h->size - at < need)
    {
        sim::count_fault(sim::K_QUOTA, true);
        return nullptr;
    }
    h->used.insert(h->used.begin() + static_cast<std::ptrdiff_t>(i), O1HeapInstance::Frag{at, need, amount});
    ++h->allocs;
    return h->base + at + O1HEAP_ALIGNMENT;
}
extern "C" void o1heapFree(O1HeapInstance* const h, void* const p)
{
    sim::trace("    heap.free");
    if (p == nullptr)
    {
        return;
    }
    for (std::size_t i = 0; i < h->used.size(); ++i)
    {
        if (h->base + h->used[i].at + O1HEAP_ALIGNMENT == p)
        {
            h->used.erase(h->used.begin() + static_cast<std::ptrdiff_t>(i));
            return;
        }
    }
    sim::violation("memory", "memory returned to a heap that does not own it (or returned twice)");
}

namespace
{
class W final
{
    struct Block
    {
        unsigned char* p;
        std::size_t    size;
        std::size_t    align;
        int            heap;
        unsigned       salt;
    };

public:
    explicit W(const sim::Plan& p)
    {
        static constexpr std::size_t sizes[] = {64, 128, 512, 1024, 2048};
        heaps.clear();
        if (p.cfg[0] % 2 == 0)
        {
            d_[0] = std::make_unique<Dut>(arena_[0], sizes[p.cfg[1] % 5]);
        }
        else
        {
            d_[0] = std::make_unique<Dut>(storage_);
        }
        d_[1] = std::make_unique<Dut>(arena_[1], sizes[p.cfg[2] % 5]);
    }
    void run(const sim::Plan& p)
    {
        for (std::size_t i = 0; i < p.steps.size(); ++i)
        {
            sim::begin_step(static_cast<int>(i), p.steps[i]);
            step(p.steps[i]);
            check_all();
            sim::end_step();
        }
        sim::ctx.op = -1;
        while (!b_.empty())
        {
            give_back(b_.size() - 1);
        }
        for (auto& h : heaps)
        {
            if (!h->used.empty())
            {
                bad("memory", "memory leaked from the heap");
            }
        }
        d_[0].reset();
        d_[1].reset();
    }

private:
    static void bad(const char* cls, const char* what)
    {
        sim::violation(cls, "%s", what);
    }
    static unsigned char pat(const Block& b, std::size_t k)
    {
        return static_cast<unsigned char>(b.salt * 37U + k * 11U + 5U);
    }
    static void fill(const Block& b)
    {
        for (std::size_t k = 0; k < b.size; ++k)
        {
            b.p[k] = pat(b, k);
        }
    }
    static void intact(const Block& b)
    {
        for (std::size_t k = 0; k < b.size; ++k)
        {
            if (b.p[k] != pat(b, k))
            {
                bad("content", "data in a live block was changed");
            }
        }
    }
    void check_all()
    {
        std::uint64_t h = 0;
        std::size_t   n[2]{};
        for (const auto& b : b_)
        {
            intact(b);
            ++n[b.heap];
        }
        for (int i = 0; i < 2; ++i)
        {
            if (heaps[static_cast<std::size_t>(i)]->used.size() != n[i])
            {
                bad("memory", "the heap holds a different number of fragments than there are live blocks");
            }
            for (const auto& f : heaps[static_cast<std::size_t>(i)]->used)
            {
                h = sim::mix(h, f.at + f.size * 4096);
            }
        }
        sim::state(h);
    }
    void give_back(std::size_t i)
    {
        const Block b = b_[i];
        intact(b);
        b_.erase(b_.begin() + static_cast<std::ptrdiff_t>(i));
        if (sim::call([&] { d_[b.heap]->deallocate(b.p, b.size, b.align); }) != Res::ok)
        {
            bad("exc", "deallocation threw");
        }
        sim::outcome(0);
    }
    void alloc(int i, std::size_t size, std::size_t align)
    {
        O1HeapInstance& h      = *heaps[static_cast<std::size_t>(i)];
        const auto      allocs = h.allocs;
        const auto      other  = heaps[static_cast<std::size_t>(1 - i)]->requests;
        void*           p      = nullptr;
        const Res       r      = sim::call([&] { p = d_[i]->allocate(size, align); });
        if (heaps[static_cast<std::size_t>(1 - i)]->requests != other)
        {
            bad("memory", "a request went to another heap");
        }
        if (r != Res::ok && r != Res::std_bad_alloc)
        {
            bad("exc", "unexpected exception");
        }
        const bool fail = r != Res::ok || p == nullptr;
#if SIM_EXC
        if (r == Res::ok && p == nullptr)
        {
            bad("exc", "exhaustion returned null instead of throwing");
        }
#endif
        if (fail != (h.allocs == allocs))
        {
            bad("atomic", fail ? "a block of the heap was lost" : "memory does not come from the heap");
        }
        if (fail)
        {
            if (h.requests == 0)
            {
                bad("atomic", "request failed without asking the heap");
            }
            sim::outcome(1);
            return;
        }
        Block b{static_cast<unsigned char*>(p), size, align, i, ++salt_};
        bool  found = false;
        for (const auto& f : h.used)
        {
            const unsigned char* const begin = h.base + f.at + O1HEAP_ALIGNMENT;
            found = found || (b.p >= begin && size <= f.amount && b.p <= begin + (f.amount - size));
        }
        if (!found)
        {
            bad("bound", "memory is not a fragment of the heap large enough for the request");
        }
        if (size > d_[i]->max_size())
        {
            bad("bound", "block is larger than the reported maximum");
        }
        fill(b);
        b_.push_back(b);
        sim::outcome(0);
    }
    void step(const sim::Step& st)
    {
        const int  i = static_cast<int>(st.a[0] % 2);
        const auto v = static_cast<std::size_t>(st.a[1]);
        switch (st.op)
        {
        case ALLOC:
            // Alignments beyond that of the heap are not honoured (documented) but the block still has to come back to the heap.
            alloc(i, 1 + v % 120, std::size_t{1} << (st.a[2] % 8));
            return;
        case ALLOC_ALL:
            for (int k = 0; k < 8; ++k)
            {
                alloc(i, 1 + v % 400, 16);
            }
            return;
        case ALLOC_HUGE:
            alloc(i, ~std::size_t{0} - v % 100, 16);
            return;
        case FREE:
            if (b_.empty())
            {
                alloc(i, 1 + v % 60, 8);
                return;
            }
            give_back(v % b_.size());
            return;
        case REWRITE:
            if (!b_.empty())
            {
                b_[v % b_.size()].salt = ++salt_;
                fill(b_[v % b_.size()]);
                sim::outcome(0);
            }
            return;
        default:
            return;
        }
    }

    alignas(64) unsigned char arena_[2][2048];
    cetl::pmr::O1HeapAlignedStorage<40> storage_;
    std::unique_ptr<Dut>                d_[2];
    std::vector<Block>                  b_;
    unsigned                            salt_{0};
};

void exec(const sim::Plan& p)
{
    auto w = std::make_unique<W>(p);
    w->run(p);
}

}  // namespace

const sim::World& sim::world()
{
    static const sim::World w{
        "o1",
        {{"allocate", 10}, {"exhaust", 2}, {"allocate_huge", 1}, {"deallocate", 8}, {"rewrite", 2}},
        {{"two_heaps", &exec, 1}},
        4,
        40,
        nullptr,
        true,
        false,
        "UnsynchronizedO1HeapMemoryResourceDelegate, O1HeapAlignedStorage",
        "o1heap library (first-fit stand-in inside the caller's arena), clients",
    };
    return w;
}
