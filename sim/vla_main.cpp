#include "world_vla.hpp"
namespace vla
{
const std::vector<sim::OpDesc> ops = {
    {"new_default", 3}, {"new_max", 4},     {"new_ilist", 3},   {"new_range", 4},    {"new_copy", 4},  {"new_copy_alloc", 4},
    {"new_move", 3},    {"new_move_alloc", 5}, {"destroy", 2},  {"copy_assign", 7},  {"move_assign", 7}, {"push_copy", 8},
    {"push_move", 8},   {"emplace", 6},     {"pop", 4},         {"resize", 6},       {"resize_value", 6}, {"assign", 5},
    {"reserve", 6},     {"shrink", 6},      {"clear", 2},       {"write", 3},        {"compare", 3},   {"at", 2},
    {"quota", 2},       {"push_many", 5},   {"self_assign", 1}, {"push_alias", 3}, {"resize_alias", 2},
};
extern template void exec<TI, P<TI>>(const sim::Plan&);
extern template void exec<TI, S<TI, 0>>(const sim::Plan&);
extern template void exec<TI, S<TI, 3>>(const sim::Plan&);
extern template void exec<T1, P<T1>>(const sim::Plan&);
extern template void exec<T1, S<T1, 0>>(const sim::Plan&);
extern template void exec<T1, S<T1, 3>>(const sim::Plan&);
extern template void exec<T1, S<T1, 9>>(const sim::Plan&);
extern template void exec<T1, S<T1, 2>>(const sim::Plan&);
extern template void exec<T2, P<T2>>(const sim::Plan&);
extern template void exec<T2, S<T2, 0>>(const sim::Plan&);
extern template void exec<T2, S<T2, 11>>(const sim::Plan&);
extern template void exec<T2, S<T2, 8>>(const sim::Plan&);
extern template void exec<T2, S<T2, 1>>(const sim::Plan&);
extern template void exec<T3, P<T3>>(const sim::Plan&);
extern template void exec<T3, S<T3, 0>>(const sim::Plan&);
extern template void exec<T3, S<T3, 2>>(const sim::Plan&);
extern template void exec<T4, P<T4>>(const sim::Plan&);
extern template void exec<T4, S<T4, 0>>(const sim::Plan&);
extern template void exec<T5, P<T5>>(const sim::Plan&);
}  // namespace vla

const sim::World& sim::world()
{
    using namespace vla;
    static const sim::World w{
        "vla",
        vla::ops,
        {
            {"int/pmr", &exec<TI, P<TI>>, 3},
            {"int/nonprop", &exec<TI, S<TI, 0>>, 2},
            {"int/prop", &exec<TI, S<TI, 3>>, 2},
            {"throwing/pmr", &exec<T1, P<T1>>, 3},
            {"throwing/nonprop", &exec<T1, S<T1, 0>>, 2},
            {"throwing/prop", &exec<T1, S<T1, 3>>, 2},
            {"throwing/pocca+select", &exec<T1, S<T1, 9>>, 2},
            {"throwing/pocma", &exec<T1, S<T1, 2>>, 2},
            {"nothrowmove/pmr", &exec<T2, P<T2>>, 3},
            {"nothrowmove/nonprop", &exec<T2, S<T2, 0>>, 2},
            {"nothrowmove/prop+select", &exec<T2, S<T2, 11>>, 2},
            {"nothrowmove/select", &exec<T2, S<T2, 8>>, 2},
            {"nothrowmove/pocca", &exec<T2, S<T2, 1>>, 2},
            {"moveonly/pmr", &exec<T3, P<T3>>, 2},
            {"moveonly/nonprop", &exec<T3, S<T3, 0>>, 2},
            {"moveonly/pocma", &exec<T3, S<T3, 2>>, 2},
            {"moveonly-throwing/pmr", &exec<T4, P<T4>>, 1},
            {"moveonly-throwing/nonprop", &exec<T4, S<T4, 0>>, 1},
            {"overaligned/pmr", &exec<T5, P<T5>>, 1},
        },
        4,
        40,
        nullptr,
        true,
        false,
        "VariableLengthArray (generic), polymorphic_allocator, memory_resource base",
        "memory sources, element types, allocators"};
    return w;
}
