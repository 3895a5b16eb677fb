#include "props.hpp"
#include <dlfcn.h>

extern "C" const char *__asan_default_options() {
        return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:abort_on_error=1:halt_on_error=1"; }

extern "C" const char *__tsan_default_options() { return "halt_on_error=1:abort_on_error=1:exitcode=66:report_signal_unsafe=0"; }

std::vector<uint32_t> tok_enum(uint64_t);
extern const uint64_t tok_enum_count;
std::vector<uint32_t> xxd_enum(uint64_t);
extern const uint64_t xxd_enum_count;
std::vector<uint32_t> echo_enum(uint64_t);
extern const uint64_t echo_enum_count;

int main(int argc, char **argv) {
        std::vector<char *> rest = {argv[0]};
        for (int i = 1; i < argc; i++) {
                if (!strcmp(argv[i], "--lib") && i + 1 < argc) {
                        void *h = dlopen(argv[++i], RTLD_NOW | RTLD_LOCAL);
                        if (!h) {
                                fprintf(stderr, "dlopen: %s\n", dlerror());
                                return 3;
                        }
                        auto f = (const vf_api *(*)(void))dlsym(h, "vf_get_api");
                        g_targets.push_back(f());
                } else
                        rest.push_back(argv[i]);
        }
        rest.push_back(nullptr);
        static const std::vector<Prop> props = {
#define P(id, fn, q, t, ec, ef, rule) {id, fn, rule, q, t, ec, ef}
                P("P01", p_memory, 112000, 2700000, 0, nullptr,
                  "random shells (any buffer sizes the library accepts, small path limits, colliding and over-long names), then random raw bytes, "
                  "control keys, over-long lines, commands, prints and (un)mounts, executed twice with different initial memory; "
                  "non-trivial: at least one command line was completed or one TAB processed"),
                P("P02", p_editing, 450000, 10800000, 0, nullptr,
                  "keystroke histories (text, both backspace codes, escape sequences, ^C, CR or LF) on small and large line buffers; "
                  "non-trivial: an edit key was used and a non-empty line was executed"),
                P("P03", p_tokens, 400000, 9600000, tok_enum_count, tok_enum,
                  "argument vectors spelled with random quoting, raw lines over a hostile alphabet, and every line over {a,x,space,quote,backslash} up to length 6; "
                  "non-trivial: the line contains a quote or backslash or at least two arguments"),
                P("P04", p_dispatch, 175000, 4200000, 0, nullptr,
                  "shells with colliding names in command groups, built-ins, working directory and other directories; random invocations; "
                  "non-trivial: at least one user callback ran"),
                P("P05", p_paths, 175000, 4200000, 0, nullptr,
                  "random trees, working directories and path spellings (absolute, relative, dot, dot-dot, trailing slash, above root) given to every path consumer; "
                  "non-trivial: a path with a dot segment or a relative spelling resolved to an existing object"),
                P("P06", p_tree, 100000, 2400000, 0, nullptr,
                  "histories of mount, failing mount, unmount, remount, cd and listing over overlapping path names; "
                  "non-trivial: at least three successful and one refused tree operation"),
                P("P07", p_ls, 175000, 4200000, 0, nullptr,
                  "random trees listed from random working directories by random spellings; non-trivial: the listing has at least one child directory and one file"),
                P("P08", p_cat, 175000, 4200000, 0, nullptr,
                  "cat over 1..6 files with arbitrary binary content (including empty and long) and failing operands; non-trivial: at least two files and some data"),
                P("P09", p_xxd, 400000, 9600000, xxd_enum_count, xxd_enum,
                  "xxd of arbitrary binary content, every length from 0 to three rows enumerated; the dump is parsed back; non-trivial: data is not empty"),
                P("P10", p_echo, 400000, 9600000, echo_enum_count, echo_enum,
                  "byte strings spelled with random escapes and quoting, written by echo to files and to the terminal, and all one- and two-byte escape forms; "
                  "non-trivial: at least one hexadecimal escape"),
                P("P11", p_tab, 325000, 7800000, 0, nullptr,
                  "name sets with shared prefixes in groups, working directory and child directories; prefixes typed with TAB at random places, small line buffers included; "
                  "non-trivial: a TAB changed the line or listed candidates"),
                P("P12", p_flow, 137000, 3300000, 0, nullptr,
                  "one session run with immediate input and output and again under random refusal schedules for reads and writes; non-trivial: at least ten refused writes and one command"),
                P("P13", p_isolation, 70000, 1680000, 0, nullptr,
                  "two or three different shells interleaved call by call versus each run alone; non-trivial: each shell executed a command"),
                P("P14", p_print, 400000, 9600000, 0, nullptr,
                  "sequences of print calls from callbacks and from outside, any text, any output buffer size from 4; non-trivial: a print with non-empty text"),
                P("P15", p_recovery, 125000, 3000000, 0, nullptr,
                  "arbitrary garbage keystrokes followed by ^C, then a command session compared with a fresh shell; non-trivial: garbage of at least four bytes"),
                P("P16", p_help, 200000, 4800000, 0, nullptr,
                  "help with and without operand over random command groups and files; non-trivial: some user command or file is involved"),
                P("P17", p_lifecycle, 125000, 3000000, 0, nullptr,
                  "init on dirty memory, reset at a random moment, deinit and re-init with remount, each compared with a fresh shell; non-trivial: the interruption happened in mid-work"),
                P("P18", p_config, 200000, 4800000, 0, nullptr,
                  "generated build configurations (command subsets, features, styles, columns, alignment, translations, char signedness) each driven by random sessions; non-trivial: at least two commands"),
                P("P19", p_liveness, 200000, 4800000, 0, nullptr,
                  "random sessions in which every service call is checked against the busy/idle contract and a step bound; non-trivial: a command with output"),
                P("P20", p_noheap, 200000, 4800000, 0, nullptr,
                  "random sessions and API calls with the heap entry points of the library counted; non-trivial: at least three commands"),
                P("P21", p_groups, 200000, 4800000, 0, nullptr,
                  "histories of adding and removing command groups with colliding names; non-trivial: a group was removed while another was present"),
                P("P22", p_utils, 1500000, 36000000, 0, nullptr,
                  "public path and text helpers against an independent definition on exact-size buffers; non-trivial: input longer than two characters"),
                P("P23", p_process, 275000, 6600000, 0, nullptr,
                  "commands that enter the processing state for a random number of turns with queued input; non-trivial: at least one turn"),
                P("P24", p_threads, 36000, 1400000, 0, nullptr,
                  "two or three different shells, each serviced by its own thread under ThreadSanitizer, versus each run alone; non-trivial: every session ended and was compared"),
                P("P25", p_constant, 150000, 3600000, 0, nullptr,
                  "random shells whose tables, names, texts, descriptor and file contents live in read-only pages, driven by random commands; "
                  "non-trivial: more than 60 bytes of output"),
                P("P26", p_midway, 90000, 3600000, 0, nullptr,
                  "ls, help, cat and TAB interrupted at random service calls by mounting and unmounting directories and adding and removing command groups; "
                  "objects taken away are unreadable afterwards; non-trivial: a change happened inside a walk over at least two entries"),
                P("P27", p_session, 200000, 6000000, 0, nullptr,
                  "whole sessions mixing command lines with typing mistakes, single keys, ^C, TAB, application prints, (un)mounts, command groups, working-directory changes, "
                  "resets, deinit and init, changing contents and refused input and output; non-trivial: four kinds of operation and two command lines"),
        };
        return vf_main((int)rest.size() - 1, rest.data(), props);
}
