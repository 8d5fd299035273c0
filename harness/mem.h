#include <stddef.h>
void mem_init(void);
long mem_live(void);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);
void mem_fail(long k);
long mem_fail_left(void);
