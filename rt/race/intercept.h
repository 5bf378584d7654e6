/* Force-included into the code under test: routes its heap and block calls
 * through the monitors of this directory. */
#include <stdlib.h>
#include <string.h>
void *vm_malloc(size_t n);
void *vm_calloc(size_t a, size_t b);
void *vm_realloc(void *p, size_t n);
void vm_free(void *p);
void *vm_memset(void *p, int c, size_t n);
void *vm_memcpy(void *d, const void *s, size_t n);
void *vm_memmove(void *d, const void *s, size_t n);
#define malloc(n) vm_malloc(n)
#define calloc(a, b) vm_calloc(a, b)
#define realloc(p, n) vm_realloc(p, n)
#define free(p) vm_free(p)
#define memset(p, c, n) vm_memset(p, c, n)
#define memcpy(d, s, n) vm_memcpy(d, s, n)
#define memmove(d, s, n) vm_memmove(d, s, n)
