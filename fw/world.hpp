// Real shell instances driven through the public API, and the independent
// reference model they are compared with.
#pragma once
#include "engine.hpp"
#include "target.h"
#include <deque>
#include <memory>

extern std::vector<const vf_api *> g_targets;   // loaded library builds; [0] is the primary one

enum Beh { B_NOTHING, B_PRINT, B_PRINT_NN, B_PRINTF, B_STATUS, B_FLUSH, B_ARG, B_PROCESS, B_PROCESS_NULL, B_RESET, B_NUM };

// One virtual file or command: the static part (spec) plus its live data.
struct File {
        int id = 0;
        Bytes name, desc, help;
        bool has_desc = false, has_help = false;
        bool exec = false, get = false, set = false, process = false;
        Beh beh = B_NOTHING;
        std::vector<Bytes> texts;       // texts printed by exec
        int status = 0, process_calls = 0;
        bool process_stages = false;    // the process callback moves through the public processing stages
        int finish = 0;                 // how the last processing turn ends: print, status, printf, reset
        int chain = -1, chain_at = -1;  // id of the file that takes over the processing, and after which turn (-1: from the start)
        bool get_unset = false;         // getter leaves *data alone when it has no data
        size_t set_cap = (size_t)-1;    // setter keeps at most this many bytes
        int says = -1;                  // setter answers with this status
        Bytes init_data;
        int builtin = -1;               // VF_CMD_* for built-in commands
};
typedef std::shared_ptr<File> FileP;

struct Event {
        char kind;                      // H general hook, X exec, G get, S set, P process
        int file;                       // file id, -1 none
        std::vector<Bytes> args;
        bool operator==(const Event &o) const { return kind == o.kind && file == o.file && args == o.args; }
        std::string str() const;
};
std::string events_str(const std::vector<Event> &v);

struct Sizes {
        size_t in = 128, out = 128, path = 128;
};

// ------------------------------------------------------------------ real side
struct Heap {                           // exact-size heap copies, freed together
        std::vector<void *> blocks;
        std::vector<std::pair<const void *, Bytes>> frozen;     // caller-owned constant data and what it holds
        // optional read-only home of the constant data: the same pages mapped twice
        char *rw = nullptr, *ro = nullptr;
        size_t rom_size = 0, rom_used = 0;
        void use_rom(size_t size);
        const void *constant(const void *src, size_t n);        // exact copy that nobody may change
        void check_frozen() const;
        void *alloc(size_t n, int fill) {
                void *p = malloc(n ? n : 1);
                if (!n) {               // zero-size object: any access is an error
                        free(p);
                        p = malloc(0);
                }
                memset(p, fill, n);
                blocks.push_back(p);
                return p;
        }
        char *str(const Bytes &b) { return (char *)constant(b.c_str(), b.size() + 1); }
        ~Heap();
};

struct FileArray {                      // an array of descriptors handed to the library
        ush_file_descriptor *arr = nullptr;
        size_t n = 0;
        std::vector<FileP> files;
};

struct Inst {
        const vf_api *api;
        Heap heap;
        ush_object *obj = nullptr;
        ush_descriptor *desc = nullptr;
        ush_io_interface *io = nullptr;
        Sizes sizes;
        Bytes hostname;
        bool hook = false;
        bool log_get = false;
        char nest_kind = 0;             // which callback is running: Read Write Hook eXec Process Get Set
        std::function<void(Inst &)> nest;               // run at the start of every callback
        std::deque<char> in;
        Bytes out;
        std::vector<Event> log;
        std::map<const ush_file_descriptor *, FileP> by_fd;
        std::map<int, Bytes> data;      // live file contents
        std::map<int, std::pair<uint8_t *, size_t>> bufs;
        std::vector<std::pair<std::unique_ptr<uint8_t[]>, Bytes>> keep; // what getters handed out
        const File *process_owner = nullptr;
        int process_left = 0;

        // per-service-call accounting
        int reads = 0, writes = 0, read_calls = 0, write_calls = 0;
        bool starved = false;
        std::function<bool()> read_gate, write_gate;   // false = refuse this attempt
        char pending_char = 0;
        bool pending = false;           // a write was refused and must be retried
        unsigned long refused = 0, service_calls = 0;
        std::string io_error;
        std::function<void(Inst &)> on_exec;            // run inside exec of files with B_NOTHING and a hook set
        std::function<void(Inst &, char)> act;          // what the application does inside its hook (H) and exec (X) callbacks
        std::function<void(Inst &, const File &, int, char **)> exec_probe;

        Inst(const vf_api *a, const Sizes &s, const Bytes &host, bool hook_, int fill = 0xA5, bool rom = false);
        ~Inst();
        Inst(const Inst &) = delete;

        bool one_buffer = false;        // all getters render their data into the same buffer
        std::vector<uint8_t> shared;
        unsigned junk = 0;              // what a refused read leaves behind

        FileArray make_files(const std::vector<FileP> &files);
        ush_node_object *new_node();
        char *path_str(const Bytes &p); // a constant path; the same path often lives in the same string
        std::map<Bytes, std::pair<char *, unsigned>> path_strs;
        void init();
        bool step();                    // one ush_service call
        void run(unsigned long budget = 4000000);        // until the shell waits for input with none queued
        Bytes type(const Bytes &b, unsigned long budget = 4000000) {
                size_t o = out.size();
                in.insert(in.end(), b.begin(), b.end());
                run(budget);
                return out.substr(o);
        }
        Bytes take() {
                Bytes o;
                o.swap(out);
                return o;
        }
        uint8_t *buffer_for(int id);
        void check_keep() const;
};

// ------------------------------------------------------------------ the model
struct NodeM {
        Bytes path;                     // canonical absolute path
        std::vector<FileP> files;
        NodeM *parent = nullptr;
        std::vector<NodeM *> kids;      // most recently mounted first
        Bytes base() const;
};
struct GroupM {
        int id = 0;
        std::vector<FileP> files;
};

struct Model {
        const vf_api *api;
        Sizes sizes;
        Bytes hostname;
        bool hook = false, log_get = false;
        std::vector<std::unique_ptr<NodeM>> nodes;
        std::map<Bytes, NodeM *> tree;
        NodeM *root = nullptr, *cwd = nullptr;
        std::vector<GroupM> groups;     // most recently added first
        std::map<int, Bytes> data;
        Bytes line;
        int esc = 0;
        Bytes out;
        std::vector<Event> log;

        std::function<void(Model &, char)> act;         // the same on this side

        explicit Model(const vf_api *a, const Sizes &s, const Bytes &host, bool hook_);
        // strings
        Bytes sty(const char *seq) const { return api->styles ? Bytes(seq) : Bytes(); }
        Bytes prompt() const;
        Bytes banner() const;
        Bytes status(int s) const;
        // paths
        bool abs_path(const Bytes &in, Bytes &out_path) const;          // false: does not fit
        static Bytes normalize(const Bytes &abs);                       // canonical form
        NodeM *node_at(const Bytes &canonical) const;
        NodeM *parent_of(const Bytes &canonical) const;
        FileP find(const Bytes &name) const;
        NodeM *find_dir(const Bytes &name) const;
        // tree
        int mount(const Bytes &path, const std::vector<FileP> &files);
        int unmount(const Bytes &path);
        // input
        static std::vector<Bytes> tokenize(const Bytes &line);
        static Bytes decode(const Bytes &s);
        Bytes feed(const Bytes &b);
        void execute(const std::vector<Bytes> &args);
        void tab();
        std::vector<Bytes> candidates(const Bytes &arg) const;
        Bytes ls(const NodeM *n) const;
        Bytes help_all() const;
        Bytes xxd(const Bytes &d) const;
        Bytes file_line(const FileP &f) const;
        void run_user(const FileP &f, const std::vector<Bytes> &args);
        size_t capacity() const { return sizes.in - 2; }
};

// ------------------------------------------------------------- a paired world
struct WorldOpt {
        bool small_buffers = false;     // tight, unusual buffer sizes
        bool wild_names = true;         // names over the whole printable alphabet
        int max_nodes = 8, max_files = 5, max_groups = 2, max_cmds = 3;
        bool only_data = false;         // files carry data rather than exec
        size_t max_data = 120;
        bool hook = true;
        size_t min_in = 96;
        bool exec_files = true;
        bool allow_reset = true;
        bool rom = false;               // constant data lives in read-only pages
};

struct Mounted {
        Bytes path;
        std::vector<FileP> files;
        ush_node_object *node;
        FileArray arr;
};

struct World {
        std::unique_ptr<Inst> real;
        std::unique_ptr<Model> model;
        std::vector<FileP> files;       // every file and command, by id
        std::vector<Mounted> mounts;
        std::vector<std::pair<int, ush_node_object *>> group_nodes;
        int next_id = 0;

        FileP add_file(const File &f);
        // mount in both sides; returns (real, model) statuses
        // (optionally with an existing descriptor table and node object)
        std::pair<int, int> mount(const Bytes &path, const std::vector<FileP> &files, const FileArray *table = nullptr, ush_node_object *node = nullptr);
        void must_mount(const Bytes &path, const std::vector<FileP> &files);
        std::pair<int, int> unmount(const Bytes &path);
        // take a directory away and put it back, with what it had or with new objects; false if it has children
        bool remount(Src &s, Ctx &c, const Bytes &path);
        std::map<int, FileArray> group_tables;
        int add_group(const std::vector<FileP> &files, const FileArray *table = nullptr, ush_node_object *node = nullptr);
        void start();                   // init, consume banner and check it
        void warm(Src &s, Ctx &c);      // sometimes a past: other commands, completions and half-typed lines first
        void create(const vf_api *api, const Sizes &s, const Bytes &host, bool hook, int fill = 0xA5, bool rom = false);
        // type bytes into both, compare output and callback history
        void type(const Bytes &b, const char *what = "output");
        std::vector<Bytes> all_dirs() const;
        std::vector<std::pair<Bytes, FileP>> all_files() const;        // absolute path, file
        std::vector<FileP> all_commands() const;
};

// ----------------------------------------------------------------- generators
Bytes gen_name(Src &s, bool wild);
Bytes huge_data(Src &s);                       // more than 65536 bytes
Bytes gen_text(Src &s, size_t maxlen);          // printable text incl. CR/LF
Bytes gen_data(Src &s, size_t maxlen);          // arbitrary bytes
FileP gen_file(Src &s, World &w, const WorldOpt &o, const Bytes &name, bool command);
void gen_world(Src &s, Ctx &c, World &w, const vf_api *api, const WorldOpt &o);
Bytes gen_path_to(Src &s, const Bytes &cwd, const Bytes &canonical);    // some spelling of an absolute path
Bytes quote_arg(Src &s, const Bytes &arg);      // a shell spelling that must parse back to arg
Bytes join_path(const Bytes &dir, const Bytes &name);
// false: too long for the line buffer, or outside the domain; otherwise sometimes lengthened by blanks
bool pad_line(Src &s, World &w, Bytes &l);
Bytes gen_cmdline(Src &s, World &w, const WorldOpt &o);
std::string world_str(const World &w);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
size_t first_diff(const Bytes &a, const Bytes &b);
std::string diff_str(const Bytes &expect, const Bytes &got);
const vf_api *pick_target(Src &s);
