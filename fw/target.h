/* C ABI between the harness and one build (configuration) of the library. */
#ifndef VF_TARGET_H
#define VF_TARGET_H
#include <microshell.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { VF_CMD_HELP, VF_CMD_LS, VF_CMD_CD, VF_CMD_PWD, VF_CMD_CAT, VF_CMD_XXD, VF_CMD_ECHO, VF_CMD_NUM };

struct vf_api {
        const char *config_name;
        size_t object_size;
        int styles, autocomplete, commands, align, columns;
        int cmd[VF_CMD_NUM];
        const char *tr[14];     /* ok, error, then the twelve messages in status order */
        const char *name, *version;
        const struct ush_file_descriptor *builtin;
        size_t builtin_num;

        void (*init)(struct ush_object *, const struct ush_descriptor *);
        void (*deinit)(struct ush_object *);
        bool (*service)(struct ush_object *);
        void (*reset)(struct ush_object *);
        void (*print_status)(struct ush_object *, ush_status_t);
        void (*print)(struct ush_object *, char *);
        void (*print_no_newline)(struct ush_object *, char *);
        void (*printf_)(struct ush_object *, const char *, ...);
        void (*flush)(struct ush_object *);
        ush_status_t (*mount)(struct ush_object *, const char *, struct ush_node_object *, const struct ush_file_descriptor *, size_t);
        ush_status_t (*unmount)(struct ush_object *, const char *);
        ush_status_t (*set_cwd)(struct ush_object *, const char *);
        void (*abs_path)(struct ush_object *, const char *, char *);
        struct ush_node_object *(*get_by_path)(struct ush_object *, const char *);
        struct ush_node_object *(*get_parent)(struct ush_object *, const char *);
        struct ush_file_descriptor const *(*find)(struct ush_object *, const char *);
        ush_status_t (*cmd_add)(struct ush_object *, struct ush_node_object *, const struct ush_file_descriptor *, size_t);
        ush_status_t (*cmd_remove)(struct ush_object *, struct ush_node_object *);
        size_t (*levels)(const char *);
        void (*collapse)(char *, char *);
        void (*upper)(char *);
        char *(*last)(const char *);
        void (*level)(size_t, const char *, char *);
        void (*join)(const char *, const char *, char *);
        char *(*last_arg)(const char *);
        bool (*startswith)(const char *, char *);
        bool (*is_printable)(uint8_t);
        size_t (*decode)(char *, uint8_t *, size_t);
        const char *(*status_string)(ush_status_t);
        void (*process_start)(struct ush_object *, const struct ush_file_descriptor *);  /* may be NULL */

        /* hooks filled in by the harness */
        void (**on_assert)(const char *file, int line);
        unsigned long *heap_calls;
};
const struct vf_api *vf_get_api(void);
#ifdef __cplusplus
}
#endif
#endif
