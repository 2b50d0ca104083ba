#include "world_vla.hpp"
namespace vla
{
template void exec<T3, P<T3>>(const sim::Plan&);
template void exec<T3, S<T3, 0>>(const sim::Plan&);
template void exec<T3, S<T3, 2>>(const sim::Plan&);
template void exec<T4, P<T4>>(const sim::Plan&);
template void exec<T4, S<T4, 0>>(const sim::Plan&);
template void exec<T5, P<T5>>(const sim::Plan&);
}
