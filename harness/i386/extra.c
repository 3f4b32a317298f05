void *__dso_handle = &__dso_handle;
extern int __cxa_atexit(void (*)(void *), void *, void *);
int atexit(void (*f)(void)) { return __cxa_atexit((void (*)(void *))f, 0, 0); }
