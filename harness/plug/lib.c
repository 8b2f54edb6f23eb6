/* A plug-in library for the harness: reports being loaded and unloaded, and passes create and destroy on. */
void *vh_make(const char *tag); void vh_unmake(void *p, const char *tag); void vh_lib(const char *tag, int loaded);
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#ifndef NO_CREATE
void *CAT(pion_create_, NAME)(void) { return vh_make(TAG); }
#endif
#ifndef NO_DESTROY
void CAT(pion_destroy_, NAME)(void *p) { vh_unmake(p, TAG); }
#endif
__attribute__((constructor)) static void vh_in(void) { vh_lib(TAG, 1); }
__attribute__((destructor)) static void vh_out(void) { vh_lib(TAG, 0); }
