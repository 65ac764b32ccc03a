/* Forced into every source of the library (and the shims around its headers) in the
   "fault" build: each request for memory can be made to fail. */
#ifndef PBT_INJ_H
#define PBT_INJ_H
#ifndef _GNU_SOURCE
# define _GNU_SOURCE 1
#endif
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <sys/types.h>
void *inj_malloc(size_t);
void *inj_calloc(size_t, size_t);
void *inj_realloc(void *, size_t);
void *inj_reallocarray(void *, size_t, size_t);
char *inj_strdup(const char *);
char *inj_strndup(const char *, size_t);
int inj_vasprintf(char **, const char *, va_list);
int inj_asprintf(char **, const char *, ...);
ssize_t inj_getline(char **, size_t *, FILE *);
ssize_t inj_getdelim(char **, size_t *, int, FILE *);
FILE *inj_fopen(const char *, const char *);
FILE *inj_open_memstream(char **, size_t *);
FILE *inj_popen(const char *, const char *);
int inj_fclose(FILE *);
int inj_pclose(FILE *);
void inj_abort(void) __attribute__((noreturn));
#undef malloc
#undef calloc
#undef realloc
#undef strdup
#undef strndup
#undef getline
#undef getdelim
#define malloc inj_malloc
#define calloc inj_calloc
#define realloc inj_realloc
#define reallocarray inj_reallocarray
#define strdup inj_strdup
#define strndup inj_strndup
#define vasprintf inj_vasprintf
#define asprintf inj_asprintf
#define getline inj_getline
#define getdelim inj_getdelim
#define fopen inj_fopen
#define open_memstream inj_open_memstream
#define popen inj_popen
#define fclose inj_fclose
#define pclose inj_pclose
#define abort inj_abort
#endif
