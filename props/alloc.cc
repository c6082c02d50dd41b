// Watches the size of allocations and fills fresh memory.
#include <cstddef>
#include <cstring>
volatile size_t g_largest_alloc = 0;
volatile int g_fill = -1; // what fresh memory is filled with, if not negative
extern "C" void __sanitizer_malloc_hook(volatile void const* p, size_t n) {
	if (n > g_largest_alloc) g_largest_alloc = n;
	if (g_fill >= 0 && p && n <= 65536) memset(const_cast<void*>(p), g_fill, n);
}
extern "C" void __sanitizer_free_hook(volatile void const*) {}
