#include "world_vla.hpp"
namespace vla
{
template void exec<T1, P<T1>>(const sim::Plan&);
template void exec<T1, S<T1, 0>>(const sim::Plan&);
template void exec<T1, S<T1, 3>>(const sim::Plan&);
template void exec<T1, S<T1, 9>>(const sim::Plan&);
template void exec<T1, S<T1, 2>>(const sim::Plan&);
}
