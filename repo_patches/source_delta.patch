From 57c320047898cfb7b8736aaa2c408f77b0298af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 01/15] fix: start ush_init with an empty command list

The list head was read from the uninitialised object, so a shell object
that was not zeroed beforehand, or was initialised a second time, walked a
garbage or circular list.
---
 src/src/ush.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/ush.c b/src/src/ush.c
index 0070f6a..44b91f3 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -48,6 +48,7 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
 
         self->desc = desc;
         self->root = NULL;
+        self->commands = NULL;
 
 #if USH_CONFIG_ENABLE_FEATURE_COMMANDS == 1
         ush_status_t stat = ush_commands_add(self, &self->buildin_commands, g_ush_buildin_commands, g_ush_buildin_commands_num);
-- 
2.43.0


From 2b7137803891f1b3ba860a2e04a0b494659e885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:16 +0000
Subject: [PATCH 02/15] fix: do not complete a name beyond the input buffer

A single TAB candidate was copied into the input buffer with strcpy,
whatever space was left, so a long name overflowed it. The name is now
completed only when the line and its line ending fit.
---
 src/src/ush_autocomp_state.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index 6a08f00..3c42689 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -85,6 +85,12 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         self->state = USH_STATE_READ_CHAR;
                         break;
                 case 1: {
+                        size_t line_len = (size_t)(self->autocomp_input - self->desc->input_buffer) + strlen(self->autocomp_candidate_name);
+                        if (line_len + 1 >= self->desc->input_buffer_size) {
+                                /* no room for completed line with line ending */
+                                self->state = USH_STATE_READ_CHAR;
+                                break;
+                        }
                         char *suffix = self->autocomp_input + strlen(self->autocomp_input);
                         strcpy(self->autocomp_input, self->autocomp_candidate_name);
                         self->in_pos = strlen(self->desc->input_buffer);
-- 
2.43.0


From 46b198316111a10b862e3fd807479c8188b983e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 03/15] fix: stop extending the common prefix when the input
 buffer is full

Extending the line by the common prefix of several TAB candidates wrapped
around at the end of the input buffer. The line was lost and the completion
read outside of the buffer or never finished.
---
 src/src/ush_autocomp_state.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index 3c42689..7921c64 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -74,6 +74,17 @@ void ush_autocomp_state_candidates_process(struct ush_object *self)
         ush_autocomp_process_file_index(self, file);
 }
 
+static void optimize_next(struct ush_object *self)
+{
+        if (self->in_pos + 3 > self->desc->input_buffer_size) {
+                /* no room for next char with line ending */
+                self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
+                return;
+        }
+
+        ush_autocomp_optimize_continue(self);
+}
+
 void ush_autocomp_state_candidates_finish(struct ush_object *self)
 {
         if (self->autocomp_prev_state == USH_STATE_AUTOCOMP_CANDIDATES_PRINT) {
@@ -99,7 +110,7 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                 }
                 default:
                         self->autocomp_suffix_len = 0;
-                        ush_autocomp_optimize_continue(self);
+                        optimize_next(self);
                         break;
                 }
 
@@ -114,7 +125,7 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         return;
                 }
 
-                ush_autocomp_optimize_continue(self);
+                optimize_next(self);
         } else {
                 USH_ASSERT(false);
         }
-- 
2.43.0


From 8b7247f5957db8fdb6934dcbe7077812edd7b89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 04/15] fix: complete the visible line after a typed NUL
 character

A NUL byte in the input left in_pos behind the end of the string which the
completion works on, so characters were added where the completion could not
see them and it did not finish, or ran out of the buffer.
---
 src/src/ush_autocomp_state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index 7921c64..ebf84e2 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -44,6 +44,8 @@ void ush_autocomp_state_recall_suffix(struct ush_object *self)
 
 void ush_autocomp_state_prepare(struct ush_object *self)
 {
+        /* typed NUL char ends the line */
+        self->in_pos = strlen(self->desc->input_buffer);
         self->autocomp_input = ush_utils_get_last_arg(self->desc->input_buffer);
         self->state = USH_STATE_AUTOCOMP_CANDIDATES_START;
 }
-- 
2.43.0


From aef29b668c02fead08b182ed1b63a37c46ec14f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 05/15] fix: find the last argument behind a single leading
 space

ush_utils_get_last_arg did not look at the first character, so TAB after
" na" searched for names starting with a space.
---
 src/src/ush_utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/ush_utils.c b/src/src/ush_utils.c
index 6278f6f..4cd5ea1 100644
--- a/src/src/ush_utils.c
+++ b/src/src/ush_utils.c
@@ -212,6 +212,9 @@ char* ush_utils_get_last_arg(const char *input)
                 len--;
         }
 
+        if (input[0] == ' ')
+                return (char*)&input[1];
+
         return (char*)input;
 }
 
-- 
2.43.0


From 13391a53296d9e7ec5ad359edc5d2d4878868211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:19 +0000
Subject: [PATCH 06/15] fix: refuse paths longer than path_max_length

Path buffers of path_max_length bytes are allocated on the stack and were
filled with strcpy/strcat from typed paths and file names of any length.
A path which does not fit is now treated as not existing.
---
 src/src/ush_file.c |  3 +++
 src/src/ush_node.c | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/src/ush_file.c b/src/src/ush_file.c
index 1ae0db1..fa36357 100644
--- a/src/src/ush_file.c
+++ b/src/src/ush_file.c
@@ -51,6 +51,9 @@ struct ush_file_descriptor const* ush_file_find_by_name(struct ush_object *self,
         while (curr != NULL) {
                 for (size_t i = 0; i < curr->file_list_size; i++) {
                         file = &curr->file_list[i];
+                        size_t join_len = strlen(curr->path) + strlen(file->name) + ((strcmp(curr->path, "/") != 0) ? 1 : 0);
+                        if (join_len >= self->desc->path_max_length)
+                                continue;
                         ush_utils_join_path(curr->path, file->name, file_path);
                         if (strcmp(file_path, abs_path) == 0)
                                 return file;
diff --git a/src/src/ush_node.c b/src/src/ush_node.c
index cf7544f..5289d41 100644
--- a/src/src/ush_node.c
+++ b/src/src/ush_node.c
@@ -40,6 +40,8 @@ struct ush_node_object* ush_node_get_by_path(struct ush_object *self, const char
                 return self->root;
         if (self->root == NULL)
                 return NULL;
+        if (strlen(path) >= self->desc->path_max_length)
+                return NULL;
 
         struct ush_node_object *curr = self->root->children;
         for (size_t i = 1; i <= levels; i++) {
@@ -75,6 +77,16 @@ void ush_node_get_absolute_path(struct ush_object *self, const char *in_path, ch
         USH_ASSERT(in_path != NULL);
         USH_ASSERT(out_path != NULL);
 
+        size_t raw_len = strlen(in_path);
+        if (in_path[0] != '/')
+                raw_len += strlen(self->current_node->path) + ((strcmp(self->current_node->path, "/") != 0) ? 1 : 0);
+
+        if (raw_len >= self->desc->path_max_length) {
+                /* too long, give path which never exists */
+                strcpy(out_path, ".");
+                return;
+        }
+
         if (in_path[0] == '/') {
                 strcpy(abs_path, in_path);
         } else {
-- 
2.43.0


From f3e35211fad901ba946ff3e2f718e3acce8431ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:19 +0000
Subject: [PATCH 07/15] fix: end decoded echo text before printing it

Decoding works in place and shortens the argument. Printing to the terminal
went on with what was left of the escaped text behind the decoded bytes:
echo \x41\x42 printed ABx41x42 leftovers.
---
 src/src/commands/ush_cmd_echo.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/commands/ush_cmd_echo.c b/src/src/commands/ush_cmd_echo.c
index fe336d8..28633a2 100644
--- a/src/src/commands/ush_cmd_echo.c
+++ b/src/src/commands/ush_cmd_echo.c
@@ -70,6 +70,8 @@ void ush_buildin_cmd_echo_callback(struct ush_object *self, struct ush_file_desc
                         f->set_data(self, f, data, data_size);
                 } else {
                         if (data != NULL) {
+                                /* decoded data is never longer than argument */
+                                data[data_size] = '\0';
                                 ush_print(self, (char*)data);
                         } else {
                                 self->state = USH_STATE_RESET;
-- 
2.43.0


From 07e632eb8842db7978e1bb7743c4c34e015dfc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:20 +0000
Subject: [PATCH 08/15] fix: initialise the data pointer given to getters by
 cat

A getter without data may return 0 and leave the pointer alone. It was then
used uninitialised.
---
 src/src/commands/ush_cmd_cat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/commands/ush_cmd_cat.c b/src/src/commands/ush_cmd_cat.c
index 78636c5..d11a456 100644
--- a/src/src/commands/ush_cmd_cat.c
+++ b/src/src/commands/ush_cmd_cat.c
@@ -80,7 +80,7 @@ bool ush_buildin_cmd_cat_service(struct ush_object *self, struct ush_file_descri
 
                 struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);
 
-                uint8_t *data;
+                uint8_t *data = (uint8_t*)"";
                 size_t data_size = f->get_data(self, f, &data);
 
                 ush_write_pointer_bin(self, data, data_size, self->state);
-- 
2.43.0


From f3fa80af8d1d6c216e4df87a08361aa8ac9c5763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:20 +0000
Subject: [PATCH 09/15] fix: do not follow a file unmounted while cat is
 running

Operands are checked when cat starts and looked up again when their turn
comes. A directory unmounted in between led to a null pointer dereference.
---
 src/src/commands/ush_cmd_cat.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/src/commands/ush_cmd_cat.c b/src/src/commands/ush_cmd_cat.c
index d11a456..4c32a48 100644
--- a/src/src/commands/ush_cmd_cat.c
+++ b/src/src/commands/ush_cmd_cat.c
@@ -79,6 +79,11 @@ bool ush_buildin_cmd_cat_service(struct ush_object *self, struct ush_file_descri
                 ush_parse_get_args(self, argv);
 
                 struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);
+                if ((f == NULL) || (f->get_data == NULL)) {
+                        /* file disappeared in the meantime */
+                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_FOUND);
+                        break;
+                }
 
                 uint8_t *data = (uint8_t*)"";
                 size_t data_size = f->get_data(self, f, &data);
-- 
2.43.0


From 5c7bd145f20698ceeecce7863712585f6f1a5889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 10/15] fix: keep the ush_printf error message inside the
 output buffer

With an output buffer shorter than the message the start index wrapped
below zero, and a message filling the buffer exactly had no room for its
terminator.
---
 src/src/ush.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 44b91f3..61a178a 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -155,13 +155,15 @@ void ush_printf(struct ush_object *self, const char *format, ...)
                 }
 
                 /* Do the error message fit into output_buffer pointed to by self->write_buf? */
-                if (self->desc->output_buffer_size - strlen(self->write_buf) >= strlen(error_msg)) {
+                if (self->desc->output_buffer_size - strlen(self->write_buf) > strlen(error_msg)) {
                         /* Error message fits */
                         size_t end_idx = strlen(self->write_buf);
                         (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
                         self->write_size += strlen(&self->write_buf[end_idx]);
                 } else {
                         /* Error message does NOT fit */
+                        if ((size_t)error_msg_size > self->desc->output_buffer_size)
+                                error_msg_size = (int)self->desc->output_buffer_size;
                         size_t end_idx = self->desc->output_buffer_size - error_msg_size;
                         (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
                         self->write_size = self->desc->output_buffer_size;
-- 
2.43.0


From b90d734da76c6a3d47075e866ede15bf9ad30193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 11/15] fix: leave the node untouched when mounting it fails

---
 src/src/ush_node_mount.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index fb0c65e..fb1fe98 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -37,16 +37,15 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 USH_ASSERT(file_list[i].name != NULL);
         }
 
-        node->file_list = file_list;
-        node->file_list_size = file_list_size;
-        node->path = path;
-
         struct ush_node_object *node_exists = ush_node_get_by_path(self, path);
         if (node_exists != NULL)
                 return USH_STATUS_ERROR_NODE_ALREADY_MOUNTED;
 
         struct ush_node_object *node_parent = ush_node_get_parent_by_path(self, path);
         if (node_parent != NULL) {
+                node->file_list = file_list;
+                node->file_list_size = file_list_size;
+                node->path = path;
                 node->next = node_parent->children;
                 node_parent->children = node;
                 node->parent = node_parent;
@@ -54,6 +53,9 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
         }
 
         if (strcmp(path, "/") == 0) {
+                node->file_list = file_list;
+                node->file_list_size = file_list_size;
+                node->path = path;
                 node->next = NULL;
                 self->root = node;
                 self->current_node = self->root;
-- 
2.43.0


From b6ae5ebd97972023bf87e9442ae1bc4e2e560342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 12/15] fix: leave the current directory when it is unmounted

---
 src/src/ush_node_mount.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index fb1fe98..62901b2 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -99,6 +99,8 @@ ush_status_t ush_node_unmount(struct ush_object *self, const char *path)
                 } else {
                         prev->next = node->next;
                 }
+                if (self->current_node == node)
+                        self->current_node = parent_node;
                 return USH_STATUS_OK;           
         }
 
-- 
2.43.0


From e177111d2a75903b5e878a6f44d06f4d032d635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 13/15] fix: keep help, ls and xxd output inside the output
 buffer

---
 src/src/commands/ush_cmd_help.c |  4 ++--
 src/src/commands/ush_cmd_ls.c   |  6 +++---
 src/src/commands/ush_cmd_xxd.c  | 17 ++++++++++-------
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/src/commands/ush_cmd_help.c b/src/src/commands/ush_cmd_help.c
index c63f8a8..116ec0d 100644
--- a/src/src/commands/ush_cmd_help.c
+++ b/src/src/commands/ush_cmd_help.c
@@ -88,10 +88,10 @@ bool ush_buildin_cmd_help_service(struct ush_object *self, struct ush_file_descr
                 switch (self->process_index) {
                 case 0:        
                         if (f->description != NULL) {
-                                sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 1;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);
                                 self->process_index = 2;
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
diff --git a/src/src/commands/ush_cmd_ls.c b/src/src/commands/ush_cmd_ls.c
index 7d1de82..d6ced34 100644
--- a/src/src/commands/ush_cmd_ls.c
+++ b/src/src/commands/ush_cmd_ls.c
@@ -129,17 +129,17 @@ bool ush_buildin_cmd_ls_service(struct ush_object *self, struct ush_file_descrip
                         char is_write = (f->set_data != NULL) ? 'w' : '-';
                         char is_exec = (f->exec != NULL) ? 'x' : '-';
                         char is_help = (f->help != NULL) ? 'h' : '-';
-                        sprintf(self->desc->output_buffer, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);
+                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 1;
                         break;
                 }
                 case 1:
                         if (f->description != NULL) {
-                                sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 2;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);
                                 self->process_index = 3;
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
diff --git a/src/src/commands/ush_cmd_xxd.c b/src/src/commands/ush_cmd_xxd.c
index 27d6ef5..e3ab7f1 100644
--- a/src/src/commands/ush_cmd_xxd.c
+++ b/src/src/commands/ush_cmd_xxd.c
@@ -77,7 +77,7 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
         case USH_STATE_PROCESS_SERVICE: {
                 switch (self->process_index) {
                 case 0:
-                        sprintf(self->desc->output_buffer, "%08lX: ", self->process_index_item);
+                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%08lX: ", self->process_index_item);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 1;
                         break;
@@ -85,14 +85,16 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
                         self->desc->output_buffer[0] = '\0';
                         for (size_t i = 0; i < USH_CMD_XXD_COLUMNS; i++) {
                                 size_t offset = self->process_index_item + i;
+                                size_t len = strlen(self->desc->output_buffer);
                                 if (offset < self->process_data_size) {
                                         uint8_t b = self->process_data[offset];
-                                        sprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], "%02X ", b);
+                                        snprintf(&self->desc->output_buffer[len], self->desc->output_buffer_size - len, "%02X ", b);
                                 } else {
-                                        strcat(self->desc->output_buffer, "   ");
+                                        snprintf(&self->desc->output_buffer[len], self->desc->output_buffer_size - len, "   ");
                                 }
                         }
-                        strcat(self->desc->output_buffer, " ");
+                        if (strlen(self->desc->output_buffer) + 1 < self->desc->output_buffer_size)
+                                strcat(self->desc->output_buffer, " ");
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 2;
                         break;
@@ -101,15 +103,16 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
                         self->desc->output_buffer[0] = '\0';
                         for (size_t i = 0; i < USH_CMD_XXD_COLUMNS; i++) {
                                 size_t offset = self->process_index_item;
+                                size_t len = strlen(self->desc->output_buffer);
                                 if (offset < self->process_data_size) {
                                         uint8_t b = self->process_data[offset];
                                         if (ush_utils_is_printable(b) != false) {
-                                                sprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], "%c", (char)b);
+                                                snprintf(&self->desc->output_buffer[len], self->desc->output_buffer_size - len, "%c", (char)b);
                                         } else {
-                                                strcat(self->desc->output_buffer, ".");
+                                                snprintf(&self->desc->output_buffer[len], self->desc->output_buffer_size - len, ".");
                                         }
                                 } else {
-                                        strcat(self->desc->output_buffer, " ");
+                                        snprintf(&self->desc->output_buffer[len], self->desc->output_buffer_size - len, " ");
                                 }
                                 self->process_index_item++;
                         }
-- 
2.43.0


From a040af081da716a3e3488cef51c05c2e6560f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:14 +0000
Subject: [PATCH 14/15] fix: require room for a character and its end in the
 input buffer

---
 src/src/ush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 61a178a..4bb84fb 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -36,7 +36,7 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
         USH_ASSERT(desc != NULL);
 
         USH_ASSERT(desc->input_buffer != NULL);
-        USH_ASSERT(desc->input_buffer_size > 0);
+        USH_ASSERT(desc->input_buffer_size >= 2); /* character and end of string */
         USH_ASSERT(desc->output_buffer != NULL);
         USH_ASSERT(desc->output_buffer_size >= 4); /* internal echo buffer */
 
-- 
2.43.0


From 16a7bfc98b3d6e56b7d8730172861ebaaf482ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:04 +0000
Subject: [PATCH 15/15] fix: start mounted nodes without children

---
 src/src/ush_node_mount.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index 62901b2..564f183 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -49,6 +49,7 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 node->next = node_parent->children;
                 node_parent->children = node;
                 node->parent = node_parent;
+                node->children = NULL;
                 return USH_STATUS_OK;
         }
 
@@ -60,6 +61,7 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 self->root = node;
                 self->current_node = self->root;
                 node->parent = NULL;
+                node->children = NULL;
                 return USH_STATUS_OK;
         }
 
-- 
2.43.0

