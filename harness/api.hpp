// The public interface of isoalloc, declared without the optimizer attributes of iso_alloc.h: the
// harness compares addresses, which "malloc"-like attributes would let a compiler fold away.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void iso_alloc_initialize(void);
void iso_alloc_destroy(void);
void *iso_alloc(size_t size);
void *iso_calloc(size_t nmemb, size_t size);
void *iso_realloc(void *p, size_t size);
void *iso_reallocarray(void *p, size_t nmemb, size_t size);
void iso_free(void *p);
void iso_free_size(void *p, size_t size);
void iso_free_permanently(void *p);
void iso_free_from_zone(void *p, void *zone);
void iso_free_from_zone_permanently(void *p, void *zone);
size_t iso_chunksz(void *p);
void iso_alloc_verify_ptr_tag(void *p, void *zone);
uint8_t iso_alloc_get_mem_tag(void *p, void *zone);
char *iso_strdup(const char *str);
char *iso_strdup_from_zone(void *zone, const char *str);
char *iso_strndup(const char *str, size_t n);
char *iso_strndup_from_zone(void *zone, const char *str, size_t n);
void *iso_alloc_from_zone(void *zone);
void *iso_alloc_from_zone_tagged(void *zone);
void *iso_alloc_tag_ptr(void *p, void *zone);
void *iso_alloc_untag_ptr(void *p, void *zone);
void *iso_alloc_new_zone(size_t size);
size_t iso_zone_chunk_count(void *zone);
void iso_alloc_destroy_zone(void *zone);
void iso_alloc_protect_root(void);
void iso_alloc_unprotect_root(void);
uint64_t iso_alloc_detect_zone_leaks(void *zone);
uint64_t iso_alloc_detect_leaks(void);
uint64_t iso_alloc_zone_mem_usage(void *zone);
uint64_t iso_alloc_mem_usage(void);
void iso_verify_zones(void);
void iso_verify_zone(void *zone);
int32_t iso_alloc_name_zone(void *zone, char *name);
void iso_flush_caches(void);
}
