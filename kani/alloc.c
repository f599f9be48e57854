// The allocator of the encoded program, for the checks that judge layouts.
//
// It replaces the functions of the same names in Kani's library, which check the size a block is given
// back with but not its alignment. Here one block, chosen freely by the solver, is watched: the alignment
// (and size) it is given back or grown with must be the one it was obtained with.
#include <stddef.h>
#include <stdint.h>

void free(void *ptr);
void *memcpy(void *dst, const void *src, size_t n);
void *calloc(size_t nmemb, size_t size);
void *malloc(size_t size);

struct Unit;
extern struct Unit VoidUnit;
__CPROVER_bool nondet_bool(void);

static uint8_t *bdv_watched = 0;
static size_t bdv_align = 0;

#define CHECK(cond, msg)            \
    do {                            \
        __CPROVER_bool bdv_c = (cond); \
        __CPROVER_assert(bdv_c, msg);  \
        __CPROVER_assume(bdv_c);       \
    } while (0)
#define POW2(i) ((i) != 0 && ((i) & ((i) - 1)) == 0)
#define SAME_ALIGN(ptr, align) \
    CHECK((ptr) != bdv_watched || (align) == bdv_align, "a block must be given back with the alignment it was allocated with")

static void bdv_watch(uint8_t *ptr, size_t align)
{
    if (bdv_watched == 0 && nondet_bool()) {
        bdv_watched = ptr;
        bdv_align = align;
    }
}

uint8_t *__rust_alloc(size_t size, size_t align)
{
    CHECK(size > 0, "__rust_alloc must be called with a size greater than 0");
    CHECK(POW2(align), "Alignment is power of two");
    uint8_t *ptr = malloc(size);
    bdv_watch(ptr, align);
    return ptr;
}

uint8_t *__rust_alloc_zeroed(size_t size, size_t align)
{
    CHECK(size > 0, "__rust_alloc_zeroed must be called with a size greater than 0");
    CHECK(POW2(align), "Alignment is power of two");
    uint8_t *ptr = calloc(1, size);
    bdv_watch(ptr, align);
    return ptr;
}

struct Unit __rust_dealloc(uint8_t *ptr, size_t size, size_t align)
{
    SAME_ALIGN(ptr, align);
    CHECK(__CPROVER_OBJECT_SIZE(ptr) == size,
          "rust_dealloc must be called on an object whose allocated size matches its layout");
    free(ptr);
    return VoidUnit;
}

uint8_t *__rust_realloc(uint8_t *ptr, size_t old_size, size_t align, size_t new_size)
{
    CHECK(ptr != 0, "rust_realloc must be called with a non-null pointer");
    CHECK(new_size > 0, "rust_realloc must be called with a size greater than 0");
    SAME_ALIGN(ptr, align);
    CHECK(__CPROVER_OBJECT_SIZE(ptr) == old_size,
          "rust_realloc must be called on an object whose allocated size matches its layout");
    uint8_t *result = malloc(new_size);
    if (result) {
        memcpy(result, ptr, new_size < old_size ? new_size : old_size);
        free(ptr);
        bdv_watch(result, align);
    }
    return result;
}
