// Linked into the variant `cost` only: the memory and string functions of the C library, counted by the bytes they touch
#include <cstddef>
#include <cstdint>
extern "C" {
extern uint64_t pbt_work;
extern bool pbt_counting;
static inline void work(size_t n) {
    if (pbt_counting) pbt_work += 1 + n / 8;
}
void *memcpy(void *d, const void *s, size_t n) {
    work(n);
    void *r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void *memmove(void *d, const void *s, size_t n) {
    work(n);
    void *r = d;
    if ((uintptr_t)d - (uintptr_t)s >= n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    else {
        d = (char *)d + n - 1;
        s = (const char *)s + n - 1;
        asm volatile("std; rep movsb; cld" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    }
    return r;
}
void *mempcpy(void *d, const void *s, size_t n) { return (char *)memcpy(d, s, n) + n; }
void *memset(void *d, int v, size_t n) {
    work(n);
    void *r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
    return r;
}
int memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *p = (const unsigned char *)a, *q = (const unsigned char *)b;
    size_t i = 0;
    while (i < n && p[i] == q[i]) i++;
    work(i);
    return i == n ? 0 : p[i] - q[i];
}
void *memchr(const void *a, int v, size_t n) {
    const unsigned char *p = (const unsigned char *)a;
    size_t i = 0;
    while (i < n && p[i] != (unsigned char)v) i++;
    work(i);
    return i == n ? nullptr : (void *)(p + i);
}
size_t strlen(const char *s) {
    size_t i = 0;
    while (s[i]) {
        i++;
        asm volatile("");
    }
    work(i);
    return i;
}
size_t strnlen(const char *s, size_t n) {
    size_t i = 0;
    while (i < n && s[i]) i++;
    work(i);
    return i;
}
char *strchr(const char *s, int v) {
    size_t i = 0;
    while (s[i] && s[i] != (char)v) i++;
    work(i);
    return s[i] == (char)v ? (char *)(s + i) : nullptr;
}
char *strcpy(char *d, const char *s) {
    memcpy(d, s, strlen(s) + 1);
    return d;
}
char *strcat(char *d, const char *s) {
    strcpy(d + strlen(d), s);
    return d;
}
char *strncpy(char *d, const char *s, size_t n) {
    size_t l = strnlen(s, n);
    memcpy(d, s, l);
    memset(d + l, 0, n - l);
    return d;
}
}
