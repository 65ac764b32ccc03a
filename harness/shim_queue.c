/* The default queue with scheduling points at its barriers and around its copies. */
#include "shim_queue.h"
#include <stdint.h>
#include <stdlib.h>
#include <assert.h>
#include "libmy/my_memory_barrier.h"
#include "libmy/my_alloc.h"
void (*queue_hook)(void);
static void point(void) { if (queue_hook) queue_hook(); }
static void real_mb(void) {
#ifdef smp_mb
	smp_mb();
#endif
}
static void *hooked_copy(void *d, const void *s, size_t n) {
	size_t h = n / 2; point();
	for (size_t i = 0; i < h; i++) ((volatile uint8_t *) d)[i] = ((const volatile uint8_t *) s)[i];
	point();
	for (size_t i = h; i < n; i++) ((volatile uint8_t *) d)[i] = ((const volatile uint8_t *) s)[i];
	point(); return d;
}
#ifdef MY_HAVE_MEMORY_BARRIERS
#undef smp_mb
#undef smp_rmb
#undef smp_wmb
#define smp_mb() do { point(); real_mb(); } while (0)
#define smp_rmb() do { point(); real_mb(); } while (0)
#define smp_wmb() do { point(); real_mb(); } while (0)
#endif
#define my_queue_mb_ops hooked_mb_ops
#define my_queue_mutex_ops hooked_mutex_ops
#define memcpy hooked_copy
#include "libmy/my_queue.c"
#undef memcpy
static const struct my_queue_ops ops = { .init = my_queue_init, .destroy = my_queue_destroy, .impl_type = my_queue_impl_type, .insert = my_queue_insert, .remove = my_queue_remove };
const struct my_queue_ops *hooked_queue_ops = &ops;
