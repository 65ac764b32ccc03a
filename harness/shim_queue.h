#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
#include "libmy/my_queue.h"
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops, *hooked_queue_ops;
extern void (*queue_hook)(void); /* called at every scheduling point of the hooked queue */
#ifdef __cplusplus
}
#endif
