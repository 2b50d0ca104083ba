#include "world_vla.hpp"
namespace vla
{
template void exec<T2, P<T2>>(const sim::Plan&);
template void exec<T2, S<T2, 0>>(const sim::Plan&);
template void exec<T2, S<T2, 11>>(const sim::Plan&);
template void exec<T2, S<T2, 8>>(const sim::Plan&);
template void exec<T2, S<T2, 1>>(const sim::Plan&);
}
