#include "world_vla.hpp"
namespace vla
{
template void exec<TI, P<TI>>(const sim::Plan&);
template void exec<TI, S<TI, 0>>(const sim::Plan&);
template void exec<TI, S<TI, 3>>(const sim::Plan&);
}
