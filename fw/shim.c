/* Compiled with every library configuration; exports its API and constants. */
#define _GNU_SOURCE
#include "target.h"
#include "vf_config_name.h"
#include <string.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/types.h>
#include <time.h>

void (*vf_on_assert)(const char *, int);
void vf_assert(const char *file, int line)
{
        if (vf_on_assert)
                vf_on_assert(file, line);
        fprintf(stderr, "USH_ASSERT failed: %s:%d\n", file, line);
        abort();
}

static unsigned long heap_calls;
#define COUNT() (heap_calls++)
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) { COUNT(); return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { COUNT(); return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { COUNT(); return __real_realloc(p, n); }
void __wrap_free(void *p) { COUNT(); __real_free(p); }
char *__real_strdup(const char *);
char *__wrap_strdup(const char *s) { COUNT(); return __real_strdup(s); }
char *__real_strndup(const char *, size_t);
char *__wrap_strndup(const char *s, size_t n) { COUNT(); return __real_strndup(s, n); }
int __real_posix_memalign(void **, size_t, size_t);
int __wrap_posix_memalign(void **p, size_t a, size_t n) { COUNT(); return __real_posix_memalign(p, a, n); }
void *__real_aligned_alloc(size_t, size_t);
void *__wrap_aligned_alloc(size_t a, size_t n) { COUNT(); return __real_aligned_alloc(a, n); }

int __real_vasprintf(char **, const char *, va_list);
int __wrap_vasprintf(char **p, const char *f, va_list a) { COUNT(); return __real_vasprintf(p, f, a); }
int __wrap_asprintf(char **p, const char *f, ...)
{
        va_list a;
        va_start(a, f);
        int r = __wrap_vasprintf(p, f, a);
        va_end(a);
        return r;
}
FILE *__real_open_memstream(char **, size_t *);
FILE *__wrap_open_memstream(char **p, size_t *n) { COUNT(); return __real_open_memstream(p, n); }
ssize_t __real_getline(char **, size_t *, FILE *);
ssize_t __wrap_getline(char **p, size_t *n, FILE *f) { COUNT(); return __real_getline(p, n, f); }
ssize_t __real_getdelim(char **, size_t *, int, FILE *);
ssize_t __wrap_getdelim(char **p, size_t *n, int d, FILE *f) { COUNT(); return __real_getdelim(p, n, d, f); }
void *__real_reallocarray(void *, size_t, size_t);
void *__wrap_reallocarray(void *p, size_t a, size_t b) { COUNT(); return __real_reallocarray(p, a, b); }
void *__real_memalign(size_t, size_t);
void *__wrap_memalign(size_t a, size_t n) { COUNT(); return __real_memalign(a, n); }
void *__real_valloc(size_t);
void *__wrap_valloc(size_t n) { COUNT(); return __real_valloc(n); }
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *p, size_t n, int a, int b, int c, off_t o) { COUNT(); return __real_mmap(p, n, a, b, c, o); }
void *__real_sbrk(intptr_t);
void *__wrap_sbrk(intptr_t n) { COUNT(); return __real_sbrk(n); }

/* Functions of the C library that keep their state in static memory: that memory, made visible to the race detector. */
static unsigned long hidden_state;
#define HIDDEN() (hidden_state++)
char *__real_strtok(char *, const char *);
char *__wrap_strtok(char *s, const char *d) { HIDDEN(); return __real_strtok(s, d); }
int __real_rand(void);
int __wrap_rand(void) { HIDDEN(); return __real_rand(); }
void __real_srand(unsigned);
void __wrap_srand(unsigned n) { HIDDEN(); __real_srand(n); }
long __real_random(void);
long __wrap_random(void) { HIDDEN(); return __real_random(); }
char *__real_strerror(int);
char *__wrap_strerror(int e) { HIDDEN(); return __real_strerror(e); }
struct tm *__real_localtime(const time_t *);
struct tm *__wrap_localtime(const time_t *t) { HIDDEN(); return __real_localtime(t); }
struct tm *__real_gmtime(const time_t *);
struct tm *__wrap_gmtime(const time_t *t) { HIDDEN(); return __real_gmtime(t); }
char *__real_asctime(const struct tm *);
char *__wrap_asctime(const struct tm *t) { HIDDEN(); return __real_asctime(t); }
char *__real_ctime(const time_t *);
char *__wrap_ctime(const time_t *t) { HIDDEN(); return __real_ctime(t); }
char *__real_setlocale(int, const char *);
char *__wrap_setlocale(int c, const char *l) { HIDDEN(); return __real_setlocale(c, l); }

extern void ush_process_start(struct ush_object *, const struct ush_file_descriptor *) __attribute__((weak));

static struct vf_api api;
const struct vf_api *vf_get_api(void)
{
        api.config_name = VF_CONFIG_NAME;
        api.object_size = sizeof(struct ush_object);
        api.styles = USH_CONFIG_ENABLE_FEATURE_SHELL_STYLES;
        api.autocomplete = USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE;
        api.commands = USH_CONFIG_ENABLE_FEATURE_COMMANDS;
        api.align = USH_CONFIG_FILENAME_ALIGN_SPACE;
        api.columns = USH_CONFIG_CMD_XXD_COLUMNS;
        api.cmd[VF_CMD_HELP] = api.commands && USH_CONFIG_ENABLE_COMMAND_HELP;
        api.cmd[VF_CMD_LS] = api.commands && USH_CONFIG_ENABLE_COMMAND_LS;
        api.cmd[VF_CMD_CD] = api.commands && USH_CONFIG_ENABLE_COMMAND_CD;
        api.cmd[VF_CMD_PWD] = api.commands && USH_CONFIG_ENABLE_COMMAND_PWD;
        api.cmd[VF_CMD_CAT] = api.commands && USH_CONFIG_ENABLE_COMMAND_CAT;
        api.cmd[VF_CMD_XXD] = api.commands && USH_CONFIG_ENABLE_COMMAND_XXD;
        api.cmd[VF_CMD_ECHO] = api.commands && USH_CONFIG_ENABLE_COMMAND_ECHO;
        int i = 0;
        api.tr[i++] = USH_CONFIG_TRANSLATION_OK;
        api.tr[i++] = USH_CONFIG_TRANSLATION_ERROR;
        api.tr[i++] = USH_CONFIG_TRANSLATION_DIRECTORY_NOT_FOUND;
        api.tr[i++] = USH_CONFIG_TRANSLATION_NESTED_DIRECTORIES_EXIST;
        api.tr[i++] = USH_CONFIG_TRANSLATION_CANNOT_FIND_PARENT_NODE;
        api.tr[i++] = USH_CONFIG_TRANSLATION_DIRECTORY_ALREADY_MOUNTED;
        api.tr[i++] = USH_CONFIG_TRANSLATION_SYNTAX_ERROR;
        api.tr[i++] = USH_CONFIG_TRANSLATION_WRONG_ARGUMENTS;
        api.tr[i++] = USH_CONFIG_TRANSLATION_FILE_NOT_EXECUTABLE;
        api.tr[i++] = USH_CONFIG_TRANSLATION_FILE_NOT_WRITABLE;
        api.tr[i++] = USH_CONFIG_TRANSLATION_FILE_NOT_READABLE;
        api.tr[i++] = USH_CONFIG_TRANSLATION_NO_HELP_AVAILABLE;
        api.tr[i++] = USH_CONFIG_TRANSLATION_FILE_NOT_FOUND;
        api.tr[i++] = USH_CONFIG_TRANSLATION_READ_ONLY_FILE;
        api.name = USH_NAME;
        api.version = USH_VERSION;
#if USH_CONFIG_ENABLE_FEATURE_COMMANDS == 1
        api.builtin = g_ush_buildin_commands;
        api.builtin_num = g_ush_buildin_commands_num;
#endif
        api.init = ush_init;
        api.deinit = ush_deinit;
        api.service = ush_service;
        api.reset = ush_reset;
        api.print_status = ush_print_status;
        api.print = ush_print;
        api.print_no_newline = ush_print_no_newline;
        api.printf_ = ush_printf;
        api.flush = ush_flush;
        api.mount = ush_node_mount;
        api.unmount = ush_node_unmount;
        api.set_cwd = ush_node_set_current_dir;
        api.abs_path = ush_node_get_absolute_path;
        api.get_by_path = ush_node_get_by_path;
        api.get_parent = ush_node_get_parent_by_path;
        api.find = ush_file_find_by_name;
        api.cmd_add = ush_commands_add;
        api.cmd_remove = ush_commands_remove;
        api.levels = ush_utils_get_path_levels_count;
        api.collapse = ush_utils_get_collapse_path;
        api.upper = ush_utils_path_upper;
        api.last = ush_utils_path_last;
        api.level = ush_utils_get_path_level;
        api.join = ush_utils_join_path;
        api.last_arg = ush_utils_get_last_arg;
        api.startswith = ush_utils_startswith;
        api.is_printable = ush_utils_is_printable;
        api.decode = ush_utils_decode_ascii;
        api.status_string = ush_utils_get_status_string;
        api.process_start = ush_process_start;
        api.on_assert = &vf_on_assert;
        api.heap_calls = &heap_calls;
        return &api;
}
