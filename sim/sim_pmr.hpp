// cetl memory_resource over a simulated memory source.
#ifndef SIM_PMR_HPP
#define SIM_PMR_HPP

#include "sim.hpp"
#include <cetl/pf17/memory_resource.hpp>

namespace sim
{

class SimResource final : public cetl::pf17::pmr::memory_resource
{
public:
    explicit SimResource(Mem& m)
        : mem(m)
    {
    }
    Mem& mem;
    bool realloc_throws{false};
    bool fails_with_null{false};  // as resources of programs without exceptions do

private:
    void* do_allocate(std::size_t size, std::size_t align) override
    {
        void* p = mem.allocate(size, align);
#if SIM_EXC
        if (p == nullptr && !fails_with_null)
        {
            throw SimBadAlloc{ctx.last_id};
        }
#endif
        return p;
    }
    void do_deallocate(void* p, std::size_t size, std::size_t align) override
    {
        mem.deallocate(p, size, align);
    }
    bool do_is_equal(const memory_resource& rhs) const noexcept override
    {
        const auto* const o = dynamic_cast<const SimResource*>(&rhs);
        return o != nullptr && &o->mem == &mem;
    }
    std::size_t do_max_size() const noexcept override
    {
        return mem.max_size;
    }
    void* do_reallocate(void* p, std::size_t o, std::size_t n, std::size_t align) override
    {
        void* q = mem.reallocate(p, o, n, align);
#if SIM_EXC
        if (q == nullptr && realloc_throws && p != nullptr)
        {
            throw SimBadAlloc{new_fault_id(true)};
        }
#endif
        return q;
    }
};

}  // namespace sim
#endif
