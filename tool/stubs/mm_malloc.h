/* Analysis-only stand-in: keeps aligned allocation visible as two plain calls. */
#ifndef SA_STUB_MM_MALLOC_H
#define SA_STUB_MM_MALLOC_H
#ifdef __cplusplus
extern "C" {
#endif
void *_mm_malloc(__SIZE_TYPE__ size, __SIZE_TYPE__ align);
void _mm_free(void *p);
#ifdef __cplusplus
}
#endif
#endif
