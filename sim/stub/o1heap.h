// Stand-in for the o1heap library, which is not part of this sandbox: same interface, memory from the simulator.
#ifndef O1HEAP_STUB_H
#define O1HEAP_STUB_H
#include <cstddef>
#include <new>
#define O1HEAP_ALIGNMENT (sizeof(void*) * 4U)
struct O1HeapInstance;
extern "C" {
O1HeapInstance* o1heapInit(void* const base, const std::size_t size);
void*           o1heapAllocate(O1HeapInstance* const handle, const std::size_t amount);
void            o1heapFree(O1HeapInstance* const handle, void* const pointer);
}
#endif
