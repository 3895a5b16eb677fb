#include "world.hpp"
#include <errno.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>

std::vector<const vf_api *> g_targets;
// The live instances. Worlds may be made in several threads at once (P24), and a lock here would
// order the threads for the race detector and hide races of the library: slots are claimed with
// relaxed operations, in functions the detector does not instrument.
static const int MAX_INSTS = 256;
static Inst *g_insts[MAX_INSTS];
static const ush_object *g_objs[MAX_INSTS];
__attribute__((no_sanitize("thread"), noinline)) static void inst_add(Inst *p) {
        for (int i = 0; i < MAX_INSTS; i++) {
                Inst *none = nullptr;
                if (__atomic_compare_exchange_n(&g_insts[i], &none, p, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                        __atomic_store_n(&g_objs[i], p->obj, __ATOMIC_RELAXED);
                        return;
                }
        }
        abort();
}
__attribute__((no_sanitize("thread"), noinline)) static void inst_del(Inst *p) {
        for (int i = 0; i < MAX_INSTS; i++)
                if (__atomic_load_n(&g_insts[i], __ATOMIC_RELAXED) == p) {
                        __atomic_store_n(&g_objs[i], (const ush_object *)nullptr, __ATOMIC_RELAXED);
                        __atomic_store_n(&g_insts[i], (Inst *)nullptr, __ATOMIC_RELAXED);
                }
}
__attribute__((no_sanitize("thread"), noinline)) static Inst *inst_find(const ush_object *o) {
        for (int i = 0; i < MAX_INSTS; i++)
                if (__atomic_load_n(&g_objs[i], __ATOMIC_RELAXED) == o)
                        return __atomic_load_n(&g_insts[i], __ATOMIC_RELAXED);
        return nullptr;
}

std::string fmt(const char *f, ...) {
        char b[4096];
        va_list ap;
        va_start(ap, f);
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        return b;
}

std::string Event::str() const {
        std::string o(1, kind);
        o += std::to_string(file) + "(";
        for (size_t i = 0; i < args.size(); i++)
                o += (i ? "," : "") + ("'" + vf_printable(args[i], 120) + "'");
        return o + ")";
}
std::string events_str(const std::vector<Event> &v) {
        std::string o = "[";
        for (size_t i = 0; i < v.size(); i++)
                o += (i ? " " : "") + v[i].str();
        return o + "]";
}
size_t first_diff(const Bytes &a, const Bytes &b) {
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i])
                i++;
        return i;
}
std::string diff_str(const Bytes &e, const Bytes &g) {
        size_t d = first_diff(e, g);
        size_t a = d > 60 ? d - 60 : 0;
        return fmt("at byte %zu: expected \"%s\" (%zu bytes), got \"%s\" (%zu bytes)", d, vf_printable(e.substr(a), 300).c_str(), e.size(),
                   vf_printable(g.substr(a), 300).c_str(), g.size());
}

// ------------------------------------------------------------------ callbacks
static Inst *inst_of(ush_object *self) {
        if (Inst *i = inst_find(self))
                return i;
        fprintf(stderr, "callback for an unknown shell object\n");
        abort();
}
static const File &file_of(Inst *in, const ush_file_descriptor *fd) {
        auto it = in->by_fd.find(fd);
        if (it == in->by_fd.end())
                throw Fail{"callback invoked with a file descriptor that was never mounted"};
        return *it->second;
}

#define NEST(in, k)                                                                                                                              \
        do {                                                                                                                                  \
                if ((in)->nest)                                                                                                               \
                        (in)->nest_kind = (k), (in)->nest(*(in));                                                                                                    \
        } while (0)

static int cb_read(ush_object *self, char *ch) {
        Inst *in = inst_of(self);
        NEST(in, 'R');
        in->read_calls++;
        if (in->in.empty()) {
                in->starved = true;
                if (++in->junk & 1)             // a driver may read its register although nothing has arrived
                        *ch = (char)(in->junk * 29);
                return 0;
        }
        if (in->read_gate && !in->read_gate()) {
                if (++in->junk & 1)
                        *ch = (char)(in->junk * 29);
                return 0;
        }
        *ch = in->in.front();
        in->in.pop_front();
        in->reads++;
        if (in->pending)
                in->io_error = "input was read while an output character was still waiting to be written";
        return 1;
}

static int cb_write(ush_object *self, char ch) {
        Inst *in = inst_of(self);
        NEST(in, 'W');
        in->write_calls++;
        if (in->pending && in->pending_char != ch)
                in->io_error = fmt("after a refused write of 0x%02x the shell offered 0x%02x", (uint8_t)in->pending_char, (uint8_t)ch);
        if (in->write_gate && !in->write_gate()) {
                in->pending = true;
                in->pending_char = ch;
                in->refused++;
                return 0;
        }
        in->pending = false;
        in->out += ch;
        in->writes++;
        return 1;
}

static std::vector<Bytes> copy_args(int argc, char **argv) {
        std::vector<Bytes> a;
        for (int i = 0; i < argc; i++) {
                if (!argv[i])
                        throw Fail{fmt("argv[%d] is NULL with argc %d", i, argc)};
                a.push_back(argv[i]);
        }
        if (argv[argc] != nullptr)
                throw Fail{"argv[argc] is not a null pointer"};
        return a;
}

static void cb_hook(ush_object *self, ush_file_descriptor const *file, int argc, char *argv[]) {
        Inst *in = inst_of(self);
        NEST(in, 'H');
        if (file != nullptr)
                throw Fail{"general exec callback got a file"};
        in->log.push_back({'H', -1, copy_args(argc, argv)});
        if (auto a = in->act)
                a(*in, 'H');
}

// the arguments belong to the callback, which may cut them up
static void scribble(Inst *in, int argc, char **argv) {
        if (in->log.size() & 1)
                for (int i = 0; i < argc; i++)
                        memset(argv[i], i & 1 ? '"' : '/', strlen(argv[i]));
}

static char *own(Inst *in, const Bytes &t) { return in->heap.str(t); }

static const ush_file_descriptor *fd_of(Inst *in, int id) {
        for (auto &p : in->by_fd)
                if (p.second->id == id)
                        return p.first;
        CHECK(false, "harness: no descriptor of file %d", id);
        return nullptr;
}

static void cb_exec(ush_object *self, ush_file_descriptor const *file, int argc, char *argv[]) {
        Inst *in = inst_of(self);
        NEST(in, 'X');
        const File &f = file_of(in, file);
        in->log.push_back({'X', f.id, copy_args(argc, argv)});
        if (auto a = in->act)
                a(*in, 'X');
        if (in->exec_probe) {
                in->exec_probe(*in, f, argc, argv);
                return;
        }
        const vf_api *a = in->api;
        switch (f.beh) {
        case B_NOTHING:
                if (in->on_exec)
                        in->on_exec(*in);
                break;
        case B_PRINT:
                a->print(self, own(in, f.texts[0]));
                break;
        case B_PRINT_NN:
                a->print_no_newline(self, own(in, f.texts[0]));
                break;
        case B_PRINTF:
                for (size_t i = 0; i < f.texts.size(); i++) {
                        char *t = own(in, f.texts[i]);
                        if (i & 1)
                                a->printf_(self, "%s:%d\r\n", t, (int)i);
                        else
                                a->printf_(self, "%s", t);
                }
                break;
        case B_STATUS:
                a->print_status(self, (ush_status_t)f.status);
                break;
        case B_FLUSH:
                {
                        size_t n = std::min(f.texts[0].size(), in->sizes.out - 1);
                        memcpy(in->desc->output_buffer, f.texts[0].data(), n);
                        in->desc->output_buffer[n] = 0;
                }
                a->flush(self);
                break;
        case B_ARG:
                a->print(self, argv[argc - 1]);
                break;
        case B_PROCESS:
        case B_PROCESS_NULL:
                in->process_left = f.process_calls;
                in->process_owner = &f;
                a->process_start(self, f.chain >= 0 && f.chain_at < 0 ? fd_of(in, f.chain) : file);
                break;
        case B_RESET:
                a->reset(self);
                break;
        default:
                break;
        }
        if (f.beh != B_ARG)
                scribble(in, argc, argv);
}

static void cb_process(ush_object *self, ush_file_descriptor const *file) {
        Inst *in = inst_of(self);
        NEST(in, 'P');
        const File &f = file_of(in, file);
        in->log.push_back({'P', f.id, {}});
        CHECK(in->process_owner, "a process callback runs although no command started processing");
        const File &o = *in->process_owner;
        if (in->process_left > 0) {
                in->process_left--;
                if (o.chain >= 0 && o.chain_at == o.process_calls - in->process_left - 1) {
                        in->api->process_start(self, fd_of(in, o.chain));
                } else if (o.process_stages) {
                        static const ush_state_t st[] = {USH_STATE_PROCESS_FINISH, USH_STATE_PROCESS_SERVICE, USH_STATE_PROCESS_START};
                        in->obj->state = st[(in->process_left / 2) % 3];
                }
                return;
        }
        in->process_owner = nullptr;
        switch (o.finish) {
        case 1: in->api->print_status(self, (ush_status_t)o.status); break;
        case 2: in->api->printf_(self, "%s", own(in, o.texts[0])); break;
        case 3: in->api->reset(self); break;
        default: in->api->print(self, own(in, o.texts[0])); break;
        }
}

uint8_t *Inst::buffer_for(int id) {
        const Bytes &d = data[id];
        if (heap.ro)
                return (uint8_t *)heap.constant(d.data(), d.size());
        if (one_buffer) {               // what the last getter returned is overwritten
                shared.assign(std::max<size_t>({shared.size(), d.size(), 1}), '#');
                std::copy(d.begin(), d.end(), shared.begin());
                return shared.data();
        }
        keep.emplace_back(new uint8_t[d.size()], d);
        memcpy(keep.back().first.get(), d.data(), d.size());
        return keep.back().first.get();
}
void Inst::check_keep() const {
        for (auto &k : keep)
                CHECK(memcmp(k.first.get(), k.second.data(), k.second.size()) == 0, "data handed out by a getter was changed: \"%s\" became \"%s\"",
                      vf_printable(k.second, 200).c_str(), vf_printable(Bytes((const char *)k.first.get(), k.second.size()), 200).c_str());
}

static size_t cb_get(ush_object *self, ush_file_descriptor const *file, uint8_t **out) {
        Inst *in = inst_of(self);
        NEST(in, 'G');
        const File &f = file_of(in, file);
        if (in->log_get)
                in->log.push_back({'G', f.id, {}});
        const Bytes &d = in->data[f.id];
        if (d.empty() && f.get_unset)
                return 0;
        *out = in->buffer_for(f.id);
        return d.size();
}

static void cb_set(ush_object *self, ush_file_descriptor const *file, uint8_t *d, size_t n) {
        Inst *in = inst_of(self);
        NEST(in, 'S');
        const File &f = file_of(in, file);
        Bytes v((const char *)d, n);
        in->log.push_back({'S', f.id, {v}});
        in->data[f.id] = v.substr(0, f.set_cap);
        if (in->log.size() & 1)         // the data is the setter's while it is called
                memset(d, '?', n);
        if (f.says >= 0)
                in->api->print_status(self, (ush_status_t)f.says);
}

// ----------------------------------------------------------------------- Heap
void Heap::use_rom(size_t size) {
        int fd = memfd_create("rom", MFD_CLOEXEC);
        if (fd < 0 || ftruncate(fd, (off_t)size) != 0) {
                fprintf(stderr, "memfd: %s\n", strerror(errno));
                _exit(2);
        }
        rw = (char *)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        ro = (char *)mmap(nullptr, size, PROT_READ, MAP_SHARED, fd, 0);
        close(fd);
        if (rw == MAP_FAILED || ro == MAP_FAILED) {
                fprintf(stderr, "mmap: %s\n", strerror(errno));
                _exit(2);
        }
        rom_size = size;
}
const void *Heap::constant(const void *src, size_t n) {
        if (ro) {
                size_t at = (rom_used + 15) & ~(size_t)15;
                if (at + n > rom_size)
                        throw Discard();        // more constant data than planned for
                rom_used = at + n;
                memcpy(rw + at, src, n);
                return ro + at;
        }
        void *p = alloc(n, 0);
        memcpy(p, src, n);
        if (frozen.size() < 400)
                frozen.emplace_back(p, Bytes((const char *)src, n));
        return p;
}
void Heap::check_frozen() const {
        for (auto &f : frozen)
                CHECK(memcmp(f.first, f.second.data(), f.second.size()) == 0, "constant data of the caller was changed: \"%s\" became \"%s\"",
                      vf_printable(f.second, 200).c_str(), vf_printable(Bytes((const char *)f.first, f.second.size()), 200).c_str());
}
Heap::~Heap() {
        for (void *p : blocks)
                free(p);
        if (ro) {
                munmap(ro, rom_size);
                munmap(rw, rom_size);
        }
}

// ----------------------------------------------------------------------- Inst
Inst::Inst(const vf_api *a, const Sizes &s, const Bytes &host, bool hook_, int fill, bool rom) : api(a), sizes(s), hostname(host), hook(hook_) {
        if (rom)
                heap.use_rom(1 << 18);
        obj = (ush_object *)heap.alloc(a->object_size, fill);
        ush_io_interface ioi;
        memset((void *)&ioi, 0, sizeof ioi);
        ioi.read = cb_read;
        ioi.write = cb_write;
        io = (ush_io_interface *)heap.constant(&ioi, sizeof ioi);
        ush_descriptor d;
        memset((void *)&d, 0, sizeof d);
        d.io = io;
        d.input_buffer = (char *)heap.alloc(s.in, fill);
        d.input_buffer_size = s.in;
        d.output_buffer = (char *)heap.alloc(s.out, fill);
        d.output_buffer_size = s.out;
        d.path_max_length = s.path;
        d.hostname = heap.str(host);
        d.exec = hook_ ? cb_hook : nullptr;
        desc = (ush_descriptor *)heap.constant(&d, sizeof d);
        inst_add(this);
}
Inst::~Inst() { inst_del(this); }

FileArray Inst::make_files(const std::vector<FileP> &files) {
        FileArray fa;
        fa.files = files;
        fa.n = files.size();
        if (files.empty())
                return fa;
        std::vector<ush_file_descriptor> v(files.size());
        memset((void *)v.data(), 0, sizeof(ush_file_descriptor) * v.size());
        for (size_t i = 0; i < files.size(); i++) {
                const File &f = *files[i];
                ush_file_descriptor &d = v[i];
                d.name = heap.str(f.name);
                d.description = f.has_desc ? heap.str(f.desc) : nullptr;
                d.help = f.has_help ? heap.str(f.help) : nullptr;
                d.exec = f.exec ? cb_exec : nullptr;
                d.get_data = f.get ? cb_get : nullptr;
                d.set_data = f.set ? cb_set : nullptr;
                d.process = f.process ? cb_process : nullptr;
                if (!data.count(f.id))
                        data[f.id] = f.init_data;
        }
        fa.arr = (ush_file_descriptor *)heap.constant(v.data(), sizeof(ush_file_descriptor) * v.size());
        for (size_t i = 0; i < files.size(); i++)
                by_fd[&fa.arr[i]] = files[i];
        return fa;
}
ush_node_object *Inst::new_node() { return (ush_node_object *)heap.alloc(sizeof(ush_node_object), 0xA5); }

char *Inst::path_str(const Bytes &p) {
        auto &e = path_strs[p];
        if (!e.first || e.second++ % 4 == 3)
                e.first = heap.str(p);
        return e.first;
}

void Inst::init() { api->init(obj, desc); }

bool Inst::step() {
        reads = writes = read_calls = write_calls = 0;
        starved = false;
        service_calls++;
        return api->service(obj);
}

void Inst::run(unsigned long budget) {
        for (unsigned long i = 0; i < budget; i++) {
                bool r = step();
                if (!io_error.empty())
                        vf_fail("%s", io_error.c_str());
                if (starved && in.empty()) {
                        CHECK(!r, "service reported busy although it only found no input to read");
                        heap.check_frozen();
                        check_keep();
                        if (keep.size() > 64)
                                keep.clear();
                        return;
                }
        }
        vf_fail("the shell did not become ready for input again within %lu service calls (%zu output bytes, tail \"%s\")", budget, out.size(),
                vf_printable(out.substr(out.size() > 80 ? out.size() - 80 : 0)).c_str());
}

// ---------------------------------------------------------------------- model
Bytes join_path(const Bytes &dir, const Bytes &name) { return dir == "/" ? dir + name : dir + "/" + name; }
Bytes NodeM::base() const { return path == "/" ? path : path.substr(path.rfind('/') + 1); }

static const char *builtin_name[VF_CMD_NUM] = {"help", "ls", "cd", "pwd", "cat", "xxd", "echo"};

Model::Model(const vf_api *a, const Sizes &s, const Bytes &host, bool hook_) : api(a), sizes(s), hostname(host), hook(hook_) {
        if (a->commands) {
                GroupM g;
                g.id = -1;
                // table order and texts are the library's own; meaning is fixed by the name
                for (size_t i = 0; i < a->builtin_num; i++) {
                        auto f = std::make_shared<File>();
                        f->id = -100 - (int)i;
                        f->name = a->builtin[i].name;
                        f->has_desc = a->builtin[i].description != nullptr;
                        if (f->has_desc)
                                f->desc = a->builtin[i].description;
                        f->has_help = a->builtin[i].help != nullptr;
                        if (f->has_help)
                                f->help = a->builtin[i].help;
                        f->exec = true;
                        for (int k = 0; k < VF_CMD_NUM; k++)
                                if (f->name == builtin_name[k])
                                        f->builtin = k;
                        if (f->builtin < 0)
                                f->builtin = 99;
                        g.files.push_back(f);
                }
                groups.push_back(g);
        }
}
#define GREEN "\x1B[32m"
#define YELLOW "\x1B[33m"
#define MAGENTA "\x1B[35m"
#define RESET "\x1B[0m"

Bytes Model::prompt() const { return sty(MAGENTA) + "[" + hostname + " " + (cwd ? cwd->base() : "/") + "]$ " + sty(RESET); }
Bytes Model::banner() const { return Bytes(api->name) + " " + api->version + "\r\n" + prompt(); }
Bytes Model::status(int s) const {
        if (s == 0)
                return api->tr[0];
        return Bytes(api->tr[1]) + ": " + api->tr[s + 1];
}

bool Model::abs_path(const Bytes &in, Bytes &out_path) const {
        Bytes raw = (!in.empty() && in[0] == '/') ? in : join_path(cwd->path, in);
        if (raw.find("//") != Bytes::npos)
                throw Discard();
        if (raw.size() >= sizes.path)
                return false;
        out_path = normalize(raw);
        return true;
}
Bytes Model::normalize(const Bytes &abs) {
        std::vector<Bytes> st;
        size_t i = 0;
        while (i < abs.size()) {
                size_t j = abs.find('/', i);
                if (j == Bytes::npos)
                        j = abs.size();
                Bytes c = abs.substr(i, j - i);
                if (c == "..") {
                        if (!st.empty())
                                st.pop_back();
                } else if (c != "." && !c.empty())
                        st.push_back(c);
                i = j + 1;
        }
        if (st.empty())
                return "/";
        Bytes o;
        for (auto &c : st)
                o += "/" + c;
        return o;
}
NodeM *Model::node_at(const Bytes &p) const {
        auto it = tree.find(p);
        return it == tree.end() ? nullptr : it->second;
}
NodeM *Model::parent_of(const Bytes &p) const {
        if (p == "/")
                return nullptr;
        size_t k = p.rfind('/');
        return node_at(k == 0 ? "/" : p.substr(0, k));
}
FileP Model::find(const Bytes &name) const {
        for (auto &g : groups)
                for (auto &f : g.files)
                        if (f->name == name)
                                return f;
        Bytes p;
        if (!abs_path(name, p))
                return nullptr;
        NodeM *d = parent_of(p);
        if (!d)
                return nullptr;
        for (auto &f : d->files)
                if (join_path(d->path, f->name) == p)
                        return f;
        return nullptr;
}
NodeM *Model::find_dir(const Bytes &name) const {
        Bytes p;
        if (!abs_path(name, p))
                return nullptr;
        return node_at(p);
}
int Model::mount(const Bytes &path, const std::vector<FileP> &files) {
        if (root && node_at(path))
                return USH_STATUS_ERROR_NODE_ALREADY_MOUNTED;
        NodeM *par = parent_of(path);
        if (!par && path != "/")
                return USH_STATUS_ERROR_NODE_WITHOUT_PARENT;
        nodes.emplace_back(new NodeM);
        NodeM *n = nodes.back().get();
        n->path = path;
        n->files = files;
        n->parent = par;
        if (par)
                par->kids.insert(par->kids.begin(), n);
        else
                root = cwd = n;
        tree[path] = n;
        for (auto &f : files)
                if (!data.count(f->id))
                        data[f->id] = f->init_data;
        return USH_STATUS_OK;
}
int Model::unmount(const Bytes &path) {
        NodeM *n = node_at(path);
        if (!n)
                return USH_STATUS_ERROR_NODE_NOT_FOUND;
        if (!n->kids.empty())
                return USH_STATUS_ERROR_NODE_WITH_CHILDS;
        if (n->parent) {
                auto &k = n->parent->kids;
                k.erase(std::find(k.begin(), k.end(), n));
                if (cwd == n)
                        cwd = n->parent;
        } else
                root = nullptr;
        tree.erase(path);
        return USH_STATUS_OK;
}

std::vector<Bytes> Model::tokenize(const Bytes &l) {
        std::vector<Bytes> args;
        Bytes cur;
        bool in_arg = false, quote = false, esc = false;
        for (char c : l) {
                if (!in_arg) {
                        if (c == ' ')
                                continue;
                        in_arg = true;
                        quote = esc = false;
                        cur.clear();
                }
                if (esc) {
                        if (c == 'x')
                                cur += '\\';
                        cur += c;
                        esc = false;
                } else if (c == '\\')
                        esc = true;
                else if (c == '"')
                        quote = !quote;
                else if (c == ' ' && !quote) {
                        args.push_back(cur);
                        in_arg = false;
                } else
                        cur += c;
        }
        if (in_arg)
                args.push_back(cur);
        return args;
}

static int hexval(unsigned char c) {
        if (c >= '0' && c <= '9')
                return c - '0';
        if (c >= 'a' && c <= 'f')
                return c - 'a' + 10;
        if (c >= 'A' && c <= 'F')
                return c - 'A' + 10;
        return 0;
}
Bytes Model::decode(const Bytes &s) {
        Bytes o;
        for (size_t i = 0; i < s.size();) {
                if (s[i] != '\\') {
                        o += s[i++];
                        continue;
                }
                if (i + 1 >= s.size())
                        break;
                if (s[i + 1] != 'x') {
                        o += s[i + 1];
                        i += 2;
                        continue;
                }
                if (i + 3 >= s.size())
                        break;
                o += (char)(hexval(s[i + 2]) * 16 + hexval(s[i + 3]));
                i += 4;
        }
        return o;
}

Bytes Model::file_line(const FileP &f) const {
        if (!f->has_desc)
                return f->name + "\r\n";
        Bytes n = f->name;
        if ((int)n.size() < api->align)
                n.append(api->align - n.size(), ' ');
        return n + " " + sty(YELLOW) + "- " + f->desc + sty(RESET) + "\r\n";
}
Bytes Model::ls(const NodeM *n) const {
        Bytes o = "d---- " + sty(GREEN) + "." + sty(RESET) + "\r\n";
        if (n->parent)
                o += "d---- " + sty(GREEN) + ".." + sty(RESET) + "\r\n";
        for (auto *k : n->kids)
                o += "d---- " + sty(GREEN) + k->base() + "/" + sty(RESET) + "\r\n";
        for (auto &f : n->files)
                o += Bytes("-") + (f->get ? "r" : "-") + (f->set ? "w" : "-") + (f->exec ? "x" : "-") + (f->has_help ? "h" : "-") + " " + file_line(f);
        return o;
}
Bytes Model::help_all() const {
        Bytes o;
        for (auto &g : groups)
                for (auto &f : g.files)
                        o += file_line(f);
        return o;
}
Bytes Model::xxd(const Bytes &d) const {
        Bytes o;
        size_t cols = api->columns, i = 0;
        char t[32];
        do {
                snprintf(t, sizeof t, "%08lX: ", (unsigned long)i);
                o += t;
                Bytes asc;
                for (size_t k = 0; k < cols; k++) {
                        if (i + k < d.size()) {
                                unsigned char b = d[i + k];
                                snprintf(t, sizeof t, "%02X ", b);
                                o += t;
                                asc += (b >= 0x20 && b <= 0x7e) ? (char)b : '.';
                        } else {
                                o += "   ";
                                asc += ' ';
                        }
                }
                o += " " + asc + "\r\n";
                i += cols;
        } while (i < d.size());
        return o;
}

static Bytes cstr(const Bytes &b) { return b.substr(0, b.find('\0')); }

void Model::run_user(const FileP &f, const std::vector<Bytes> &args) {
        log.push_back({'X', f->id, args});
        if (auto a = act)
                a(*this, 'X');
        switch (f->beh) {
        case B_NOTHING:
                break;
        case B_PRINT:
                out += f->texts[0] + "\r\n";
                break;
        case B_PRINT_NN:
        case B_FLUSH:
                out += f->texts[0];
                break;
        case B_PRINTF:
                for (size_t i = 0; i < f->texts.size(); i++)
                        out += (i & 1) ? f->texts[i] + ":" + std::to_string(i) + "\r\n" : f->texts[i];
                break;
        case B_STATUS:
                out += status(f->status) + "\r\n";
                break;
        case B_ARG:
                out += args.back() + "\r\n";
                break;
        case B_PROCESS:
                for (int i = 0; i <= f->process_calls; i++)
                        log.push_back({'P', f->chain >= 0 && i > f->chain_at ? f->chain : f->id, {}});
                switch (f->finish) {
                case 1: out += status(f->status) + "\r\n"; break;
                case 2: out += f->texts[0]; break;
                case 3:
                        cwd = root;
                        out += Bytes(api->name) + " " + api->version + "\r\n";
                        break;
                default: out += f->texts[0] + "\r\n"; break;
                }
                break;
        case B_PROCESS_NULL:
                out += "\r\n";
                break;
        case B_RESET:
                cwd = root;
                out += Bytes(api->name) + " " + api->version + "\r\n";
                break;
        default:
                break;
        }
}

// one complete command line, up to but not including the final prompt
void Model::execute(const std::vector<Bytes> &args) {
        if (args.empty())
                return;
        if (hook) {
                log.push_back({'H', -1, args});
                if (auto a = act)
                        a(*this, 'H');
        }
        FileP f = find(args[0]);
        size_t argc = args.size();
        if (!f) {
                out += status(USH_STATUS_ERROR_COMMAND_SYNTAX_ERROR) + "\r\n";
                return;
        }
        if (!f->exec) {
                out += status(USH_STATUS_ERROR_FILE_NOT_EXECUTABLE) + "\r\n";
                return;
        }
        auto err = [&](int s) { out += status(s) + "\r\n"; };
        switch (f->builtin) {
        case -1:
                run_user(f, args);
                break;
        case VF_CMD_HELP:
                if (argc == 1)
                        out += help_all();
                else if (argc == 2) {
                        FileP h = find(args[1]);
                        if (!h)
                                err(USH_STATUS_ERROR_FILE_NOT_FOUND);
                        else if (!h->has_help)
                                err(USH_STATUS_ERROR_FILE_NO_HELP);
                        else
                                out += h->help;
                } else
                        err(USH_STATUS_ERROR_COMMAND_WRONG_ARGUMENTS);
                break;
        case VF_CMD_LS:
                if (argc == 1)
                        out += ls(cwd);
                else if (argc == 2) {
                        NodeM *n = find_dir(args[1]);
                        if (!n)
                                err(USH_STATUS_ERROR_NODE_NOT_FOUND);
                        else
                                out += ls(n);
                } else
                        err(USH_STATUS_ERROR_COMMAND_WRONG_ARGUMENTS);
                break;
        case VF_CMD_CD:
                if (argc != 2)
                        err(USH_STATUS_ERROR_COMMAND_WRONG_ARGUMENTS);
                else {
                        NodeM *n = args[1].empty() ? nullptr : find_dir(args[1]);
                        if (!n)
                                err(USH_STATUS_ERROR_NODE_NOT_FOUND);
                        else
                                cwd = n;
                }
                break;
        case VF_CMD_PWD:
                if (argc != 1)
                        err(USH_STATUS_ERROR_COMMAND_WRONG_ARGUMENTS);
                else
                        out += cwd->path + "\r\n";
                break;
        case VF_CMD_CAT: {
                if (argc < 2) {
                        err(USH_STATUS_ERROR_COMMAND_WRONG_ARGUMENTS);
                        break;
                }
                std::vector<FileP> fs;
                int e = 0;
                for (size_t i = 1; i < argc && !e; i++) {
                        FileP g = find(args[i]);
                        if (!g)
                                e = USH_STATUS_ERROR_FILE_NOT_FOUND;
                        else if (!g->get)
                                e = USH_STATUS_ERROR_FILE_NOT_READABLE;
                        fs.push_back(g);
                }
                if (e) {
                        err(e);
                        break;
                }
                for (auto &g : fs) {
                        if (log_get)
                                log.push_back({'G', g->id, {}});
                        out += data[g->id];
                }
                break;
        }
        case VF_CMD_XXD: {
                if (argc != 2) {
                        err(USH_STATUS_ERROR_COMMAND_WRONG_ARGUMENTS);
                        break;
                }
                FileP g = find(args[1]);
                if (!g)
                        err(USH_STATUS_ERROR_FILE_NOT_FOUND);
                else if (!g->get)
                        err(USH_STATUS_ERROR_FILE_NOT_READABLE);
                else {
                        if (log_get)
                                log.push_back({'G', g->id, {}});
                        out += xxd(data[g->id]);
                }
                break;
        }
        case VF_CMD_ECHO: {
                if (argc == 1)
                        out += "\r\n";
                else if (argc == 2)
                        out += cstr(decode(args[1])) + "\r\n";
                else if (argc == 4 && args[2] == ">") {
                        FileP g = find(args[3]);
                        if (!g)
                                err(USH_STATUS_ERROR_FILE_NOT_FOUND);
                        else if (!g->set)
                                err(USH_STATUS_ERROR_FILE_NOT_WRITABLE);
                        else {
                                Bytes d = decode(args[1]);
                                log.push_back({'S', g->id, {d}});
                                data[g->id] = d.substr(0, g->set_cap);
                                if (g->says >= 0)
                                        err(g->says);
                        }
                } else
                        err(USH_STATUS_ERROR_COMMAND_WRONG_ARGUMENTS);
                break;
        }
        default:
                throw Discard();
        }
}

static bool starts(const Bytes &s, const Bytes &p) { return s.compare(0, p.size(), p) == 0; }

std::vector<Bytes> Model::candidates(const Bytes &arg) const {
        std::vector<Bytes> c;
        for (auto &g : groups)
                for (auto &f : g.files)
                        if (starts(f->name, arg))
                                c.push_back(f->name);
        for (auto &f : cwd->files)
                if (starts(f->name, arg))
                        c.push_back(f->name);
        NodeM *d = cwd;
        if (!arg.empty()) {
                Bytes p;
                if (abs_path(arg, p) && parent_of(p))
                        d = parent_of(p);
        }
        for (auto *k : d->kids)
                if (starts(k->base(), arg))
                        c.push_back(k->base());
        return c;
}

void Model::tab() {
        size_t sp = line.rfind(' ');
        Bytes arg = sp == Bytes::npos ? line : line.substr(sp + 1);
        std::vector<Bytes> c = candidates(arg);
        if (c.empty())
                return;
        if (c.size() == 1) {
                Bytes suf = c[0].substr(arg.size());
                if (line.size() + suf.size() > capacity())
                        return;
                line += suf;
                out += suf;
                return;
        }
        size_t l = c[0].size();
        for (auto &x : c)
                l = std::min(l, first_diff(c[0], x));
        Bytes suf = c[0].substr(arg.size(), l - arg.size());
        if (line.size() + suf.size() > capacity())
                suf = suf.substr(0, capacity() - line.size());
        if (!suf.empty()) {
                line += suf;
                out += suf;
                return;
        }
        out += "\r\n";
        for (auto &x : c)
                out += x + "\r\n";
        out += prompt() + line;
}

Bytes Model::feed(const Bytes &b) {
        size_t o = out.size();
        for (char ch : b) {
                switch (ch) {
                case '\x03':
                        out += "^C\r\n" + prompt();
                        line.clear();
                        esc = 0;
                        break;
                case '\x08':
                case '\x7F':
                        if (!line.empty()) {
                                line.pop_back();
                                out += "\b \b";
                        }
                        break;
                case '\t':
                        if (api->autocomplete)
                                tab();
                        break;
                case '\x1B':
                        esc = 1;
                        break;
                default:
                        if (esc == 1) {
                                esc = (ch == '[' || ch == 'O') ? 2 : 0;
                        } else if (esc == 2) {
                                esc = 0;
                        } else if (ch == '\r' || ch == '\n') {
                                out += ch == '\r' ? "\r\n" : "\n";
                                Bytes l = line;
                                line.clear();
                                execute(tokenize(l));
                                out += prompt();
                        } else {
                                if (line.size() >= capacity() || ch == 0)
                                        throw Discard();
                                line += ch;
                                out += ch;
                        }
                        break;
                }
        }
        return out.substr(o);
}

// ---------------------------------------------------------------------- World
void World::create(const vf_api *api, const Sizes &s, const Bytes &host, bool hook, int fill, bool rom) {
        real.reset(new Inst(api, s, host, hook, fill, rom));
        model.reset(new Model(api, s, host, hook));
}
FileP World::add_file(const File &f) {
        auto p = std::make_shared<File>(f);
        p->id = next_id++;
        files.push_back(p);
        return p;
}
std::pair<int, int> World::mount(const Bytes &path, const std::vector<FileP> &fl, const FileArray *table, ush_node_object *node) {
        Mounted m;
        m.path = path;
        m.files = fl;
        m.node = node ? node : real->new_node();
        m.arr = table ? *table : real->make_files(fl);
        int r = real->api->mount(real->obj, real->path_str(path), m.node, m.arr.arr, m.arr.n);
        int e = model->mount(path, fl);
        if (e == USH_STATUS_OK)
                mounts.push_back(m);
        return {r, e};
}
void World::must_mount(const Bytes &path, const std::vector<FileP> &fl) {
        auto r = mount(path, fl);
        CHECK(r.first == r.second, "mount(\"%s\") returned %d, expected %d", path.c_str(), r.first, r.second);
}
std::pair<int, int> World::unmount(const Bytes &path) {
        int r = real->api->unmount(real->obj, real->heap.ro ? real->heap.str(path) : path.c_str());
        int e = model->unmount(path);
        return {r, e};
}
bool World::remount(Src &s, Ctx &c, const Bytes &path) {
        NodeM *nm = model->node_at(path);
        if (path == "/" || !nm || !nm->kids.empty())
                return false;
        size_t i = mounts.size();
        while (i > 0 && mounts[i - 1].path != path)
                i--;
        if (!i)
                return false;
        Mounted old = mounts[i - 1];
        auto u = unmount(path);
        CHECK(u.first == u.second, "unmount(\"%s\") returned %d, expected %d", path.c_str(), u.first, u.second);
        mounts.erase(mounts.begin() + (long)(i - 1));
        int how = (int)s.below(4);
        auto r = mount(path, old.files, how ? &old.arr : nullptr, how > 1 ? old.node : nullptr);
        CHECK(r.first == r.second, "mounting \"%s\" again returned %d, expected %d", path.c_str(), r.first, r.second);
        c.note(vf_printable(path) + " is taken away and comes back" + (how > 1 ? " on the same node" : ""));
        c.label("remounts");
        return true;
}
int World::add_group(const std::vector<FileP> &fl, const FileArray *table, ush_node_object *node) {
        ush_node_object *n = node ? node : real->new_node();
        FileArray fa = table ? *table : real->make_files(fl);
        int r = real->api->cmd_add(real->obj, n, fa.arr, fa.n);
        CHECK(r == USH_STATUS_OK, "adding a command group returned %d", r);
        GroupM g;
        g.id = next_id++;
        g.files = fl;
        for (auto &f : fl)
                if (!model->data.count(f->id))
                        model->data[f->id] = f->init_data;
        model->groups.insert(model->groups.begin(), g);
        group_nodes.push_back({g.id, n});
        group_tables[g.id] = fa;
        return g.id;
}
void World::start() {
        Bytes e = model->banner();
        real->run();
        Bytes g = real->take();
        CHECK(g == e, "welcome output differs %s", diff_str(e, g).c_str());
}
void World::type(const Bytes &b, const char *what) {
        Bytes e = model->feed(b);
        Bytes g = real->type(b);
        CHECK(e == g, "after typing \"%s\" the %s differs %s", vf_printable(b).c_str(), what, diff_str(e, g).c_str());
        CHECK(model->log == real->log, "after typing \"%s\" callbacks differ: expected %s, got %s", vf_printable(b).c_str(),
              events_str(model->log).c_str(), events_str(real->log).c_str());
        model->log.clear();
        real->log.clear();
}
std::vector<Bytes> World::all_dirs() const {
        std::vector<Bytes> v;
        for (auto &t : model->tree)
                v.push_back(t.first);
        return v;
}
std::vector<std::pair<Bytes, FileP>> World::all_files() const {
        std::vector<std::pair<Bytes, FileP>> v;
        for (auto &t : model->tree)
                for (auto &f : t.second->files)
                        v.push_back({join_path(t.first, f->name), f});
        return v;
}
std::vector<FileP> World::all_commands() const {
        std::vector<FileP> v;
        for (auto &g : model->groups)
                for (auto &f : g.files)
                        v.push_back(f);
        return v;
}

// ----------------------------------------------------------------- generators
const vf_api *pick_target(Src &s) { return g_targets[s.below((uint32_t)g_targets.size())]; }

static const std::vector<Bytes> &name_pool() {
        static const std::vector<Bytes> p = {"a",    "b",      "ab",  "abc",  "abd", "dir",  "dir1", "d",        "data", "dat",  "file", "file1", "file2",
                                             "fil",  "text",   "t",   "test", "bin", "dev",  "l",    "ls2",      "he",   "help1", "cat1", "c",     "pw",
                                             "echo", "ls",     "x",   "xx",   "1",   "11",   "111",  "A",        "e",    "long_name_0123", "long_name_0123456789_abc",
                                             "configuration", "n_16_characters_", "n_15_characters", "n_17_characters__"};
        return p;
}

static char gen_name_char(Src &s) {
        switch (s.weighted({6, 2, 1, 1, 1})) {
        case 0:
                return "abcdefghijklmnopqrstuvwyz"[s.below(25)];
        case 1:
                return "0123456789_-.x"[s.below(14)];
        case 2: {
                uint32_t v = s.range(0x21, 0x7e);
                return v == '/' ? 'q' : (char)v;
        }
        case 3:
                return (char)s.range(0x80, 0xff);
        default:
                return " \"\\'>"[s.below(5)];
        }
}

Bytes gen_name(Src &s, bool wild) {
        if (!wild || s.below(4) != 3)
                return s.pick(name_pool());
        Bytes n;
        if (s.chance(1, 8)) {           // names that differ late, or only in the order of their letters
                static const char *const head[] = {"sensor_configuration_of_the_left_wing_", "abcdefghijklmnopqrstuvwxyz012345", "aa%s%d%n_", "ab"};
                n = head[s.below(4)];
                for (uint32_t i = 0, k = 1 + s.below(4); i < k; i++)
                        n += "abx"[s.below(3)];
                return n;
        }
        size_t len = 1 + s.below(s.chance(1, 6) ? 30 : 8);
        for (size_t i = 0; i < len; i++)
                n += gen_name_char(s);
        if (s.chance(1, 8))
                n = "." + n.substr(0, n.size() - 1);
        if (n == "." || n == "..")
                n[0] = '_';
        return n;
}

// a few cases carry more data or more entries than small integer types count
Bytes huge_data(Src &s) {
        Bytes d;
        size_t n = 65530 + s.below(3000);
        uint32_t a = s.below(256), b = s.below(256);
        for (size_t i = 0; i < n; i++)
                d += (char)(a + i * b + (i >> 8) * 7);
        return d;
}

Bytes gen_text(Src &s, size_t maxlen) {
        Bytes t;
        while (s.more(t.size(), 14, maxlen)) {
                switch (s.weighted({8, 1, 1, 1})) {
                case 0:
                        t += (char)s.range('a', 'z');
                        break;
                case 1:
                        t += s.chance(1, 6) ? '%' : (char)s.range(0x20, 0x7e);
                        break;
                case 2:
                        t += s.flip() ? '\n' : '\r';
                        break;
                default:
                        t += (char)s.range(1, 255);
                        break;
                }
        }
        return t;
}

Bytes gen_data(Src &s, size_t maxlen) {
        size_t n;
        switch (s.weighted({3, 4, 2})) {
        case 0:
                n = s.below(4);
                break;
        case 1:
                n = s.below((uint32_t)std::min<size_t>(maxlen, 40) + 1);
                break;
        default:
                n = s.below((uint32_t)maxlen + 1);
                break;
        }
        n = std::min(n, maxlen);
        Bytes d;
        int style = s.weighted({3, 2, 1});
        for (size_t i = 0; i < n; i++) {
                if (style == 0)
                        d += (char)s.range('a', 'z');
                else if (style == 1)
                        d += (char)s.below(256);
                else {
                        static const unsigned char ed[] = {0, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0xff, '\n', '\r', '\\', '"', '%', 0x1b, 0x03, 0x09, 0x08};
                        d += (char)ed[s.below(sizeof ed)];
                }
        }
        return d;
}

FileP gen_file(Src &s, World &w, const WorldOpt &o, const Bytes &name, bool command) {
        File f;
        f.name = name;
        f.has_desc = s.flip();
        if (f.has_desc)
                f.desc = gen_text(s, s.chance(1, 60) ? 400 : 24);
        f.has_help = s.flip();
        if (f.has_help)
                f.help = gen_text(s, s.chance(1, 60) ? 400 : 40);
        if (command ? !s.chance(1, 6) : (o.exec_files && s.chance(1, o.only_data ? 5 : 2))) {
                f.exec = true;
                std::vector<int> wt = {2, 3, 2, 2, 1, 1, 2, 1, 1, 1};
                f.beh = (Beh)s.weighted(wt);
                if (!o.allow_reset && f.beh == B_RESET)
                        f.beh = B_NOTHING;
                if ((f.beh == B_PROCESS || f.beh == B_PROCESS_NULL) && !w.real->api->process_start)
                        f.beh = B_PRINT;
                f.process = f.beh == B_PROCESS || (f.beh != B_PROCESS_NULL && s.chance(1, 8));
                f.process_calls = f.beh == B_PROCESS ? (int)s.below(5) : 0;
                f.process_stages = f.process_calls && s.flip();
                if (f.beh == B_PROCESS && s.chance(1, 3))
                        f.finish = 1 + (int)s.below(o.allow_reset ? 3 : 2);
                f.status = (int)s.below(USH_STATUS__TOTAL_NUM);
                size_t nt = f.beh == B_PRINTF ? 1 + s.below(4) : 1;
                for (size_t i = 0; i < nt; i++)
                        f.texts.push_back(gen_text(s, f.beh == B_PRINTF ? 12 : f.beh == B_FLUSH ? 20 : 60));
        }
        if (!f.exec && s.chance(1, 10))
                f.process = true;
        if (!command || !f.exec || s.chance(1, 4)) {
                f.get = s.below(3) != 0;
                f.set = s.below(3) != 0;
                f.init_data = gen_data(s, o.max_data);
                f.get_unset = s.chance(1, 6);
                if (s.chance(1, 8))
                        f.set_cap = s.below(12);
                if (s.chance(1, 10))
                        f.says = (int)s.below(USH_STATUS__TOTAL_NUM);
        }
        return w.add_file(f);
}

static std::vector<FileP> gen_files(Src &s, World &w, const WorldOpt &o, int maxn, bool command) {
        std::vector<FileP> v;
        std::set<Bytes> used;
        while (s.more(v.size() + (command ? 0 : 0), 3, maxn)) {
                Bytes n = gen_name(s, o.wild_names);
                if (!used.insert(n).second)
                        continue;
                v.push_back(gen_file(s, w, o, n, command));
        }
        return v;
}

void gen_world(Src &s, Ctx &c, World &w, const vf_api *api, const WorldOpt &o) {
        Sizes sz;
        Bytes host;
        static const std::vector<Bytes> hosts = {"test", "h", "", "arduino", "my-board_01"};
        host = s.pick(hosts);
        if (s.chance(1, 10)) {          // long ones, and ones that look like a format
                size_t n = s.below(s.flip() ? 300 : 30);
                for (host.clear(); host.size() < n;)
                        host += s.chance(1, 8) ? '%' : (char)s.range(0x20, 0x7e);
        }
        sz.in = o.min_in + s.below(160);
        size_t need_out = std::max<size_t>({(size_t)api->align + 12, (size_t)api->columns * 3 + 3, (size_t)64});
        sz.out = need_out + s.below(64);
        if (o.small_buffers && s.flip())
                sz.out = need_out;
        sz.path = sz.in + 160 + s.below(40);
        w.create(api, sz, host, o.hook && s.flip(), 0xA5, o.rom);
        w.real->init();
        w.must_mount("/", gen_files(s, w, o, o.max_files, false));
        std::vector<Bytes> dirs = {"/"};
        while (s.more(dirs.size(), 4, o.max_nodes)) {
                Bytes par = s.pick(dirs);
                if (std::count(par.begin(), par.end(), '/') >= 4 || par.size() > 60)
                        continue;
                Bytes nm = gen_name(s, o.wild_names);
                if (s.chance(1, 60) && nm.size() < 55)  // a name that does not fit the output buffer
                        nm += Bytes(60 + s.below(30) - nm.size(), (char)s.range('a', 'c'));
                Bytes p = join_path(par, nm);
                if (w.model->node_at(p))
                        continue;
                w.must_mount(p, gen_files(s, w, o, o.max_files, false));
                dirs.push_back(p);
        }
        if (s.chance(1, 500)) {
                int kind = (int)s.below(3), n = 250 + (int)s.below(60);
                std::vector<FileP> fl;
                for (int i = 0; i < n; i++) {
                        Bytes nm = fmt("n%03d", i);
                        if (kind == 0)
                                w.must_mount("/" + nm, {});
                        else
                                fl.push_back(gen_file(s, w, o, nm, kind == 2));
                }
                if (kind == 1 && !w.model->node_at("/wide"))
                        w.must_mount("/wide", fl);
                if (kind == 2)
                        w.add_group(fl);
                c.label("more than 250 entries");
        }
        int ng = 0;
        while (s.more(ng, 1, o.max_groups)) {
                auto fl = gen_files(s, w, o, o.max_cmds, true);
                if (!fl.empty())
                        w.add_group(fl);
                ng++;
        }
        c.note(world_str(w));
}

Bytes gen_path_to(Src &s, const Bytes &cwd, const Bytes &canonical) {
        auto split = [](const Bytes &p) {
                std::vector<Bytes> v;
                size_t i = 1;
                while (i < p.size()) {
                        size_t j = p.find('/', i);
                        if (j == Bytes::npos)
                                j = p.size();
                        v.push_back(p.substr(i, j - i));
                        i = j + 1;
                }
                return v;
        };
        std::vector<Bytes> t = split(canonical), cw = split(cwd), seg;
        bool abs = s.flip();
        if (abs) {
                if (s.chance(1, 10))
                        seg.push_back("..");
                seg.insert(seg.end(), t.begin(), t.end());
        } else {
                size_t k = 0;
                while (k < t.size() && k < cw.size() && t[k] == cw[k])
                        k++;
                if (k > 0 && s.chance(1, 4))
                        k = s.below((uint32_t)k + 1);
                for (size_t i = k; i < cw.size(); i++)
                        seg.push_back("..");
                if (k == 0 && s.chance(1, 10))
                        seg.push_back("..");    // above the root stays at the root
                seg.insert(seg.end(), t.begin() + k, t.end());
        }
        // lexical detours
        int n = 0;
        while (s.more(n, 1, 4)) {
                size_t at = s.below((uint32_t)seg.size() + 1);
                if (s.flip())
                        seg.insert(seg.begin() + at, ".");
                else {
                        Bytes d = gen_name(s, false);
                        seg.insert(seg.begin() + at, "..");
                        seg.insert(seg.begin() + at, d);
                }
                n++;
        }
        Bytes o = abs ? "/" : "";
        for (size_t i = 0; i < seg.size(); i++)
                o += (i ? "/" : "") + seg[i];
        if (o.empty())
                o = ".";
        if (o != "/" && s.chance(1, 5))
                o += "/";
        return o;
}

Bytes quote_arg(Src &s, const Bytes &arg) {
        Bytes o;
        bool q = false, wrote = false;
        for (size_t i = 0; i < arg.size(); i++) {
                char ch = arg[i];
                if (s.chance(1, 10) || (!wrote && arg.size() > 1 && s.chance(1, 8))) {
                        o += '"';
                        q = !q;
                        wrote = true;
                }
                bool must = ch == '"' || ch == '\\' || (ch == ' ' && !q);
                if (ch == '\\' && i + 1 < arg.size() && arg[i + 1] == 'x' && s.flip()) {
                        o += "\\x"; // \x is kept as it is
                        i++;
                        wrote = true;
                        continue;
                }
                if (must && ch == ' ' && s.flip()) {
                        o += "\" \"";
                        wrote = true;
                        continue;
                }
                if (must || (ch != 'x' && s.chance(1, 12)))
                        o += '\\';
                o += ch;
                wrote = true;
        }
        if (q)
                o += '"';
        if (arg.empty())
                o += "\"\"";
        return o;
}

static Bytes bare_or_quoted(Src &s, const Bytes &a) {
        for (char c : a)
                if (c == ' ' || c == '"' || c == '\\')
                        return quote_arg(s, a);
        if (a.empty())
                return "\"\"";
        return s.below(4) == 3 ? quote_arg(s, a) : a;
}

static Bytes gen_some_path(Src &s, World &w, bool dirs) {
        const Bytes &cwd = w.model->cwd->path;
        if (s.chance(1, 10))
                return gen_name(s, false);
        if (dirs) {
                auto d = w.all_dirs();
                return gen_path_to(s, cwd, d[s.below((uint32_t)d.size())]);
        }
        auto f = w.all_files();
        auto c = w.all_commands();
        if (f.empty() || s.chance(1, 6))
                return c.empty() ? Bytes("none") : c[s.below((uint32_t)c.size())]->name;
        auto &e = f[s.below((uint32_t)f.size())];
        if (s.flip()) {
                Bytes dir = e.first.substr(0, e.first.rfind('/'));
                if (dir == cwd || (dir.empty() && cwd == "/"))
                        return e.second->name;
        }
        return gen_path_to(s, cwd, e.first);
}

bool pad_line(Src &s, World &w, Bytes &l) {
        if (l.size() > w.model->capacity() || l.find("//") != Bytes::npos)
                return false;
        size_t room = w.model->capacity() - l.size();
        if (room && s.chance(1, 25)) {  // the same line, but long
                size_t at = s.flip() ? l.size() : s.flip() ? 0 : std::min(l.find(' '), l.size());
                l.insert(at, Bytes(s.flip() ? room : 1 + s.below((uint32_t)room), ' '));
        }
        return true;
}

Bytes gen_cmdline(Src &s, World &w, const WorldOpt &) {
        Bytes l;
        switch (s.weighted({3, 3, 3, 3, 3, 2, 1, 2, 1, 1, 1})) {
        case 0:
                l = "ls";
                if (s.flip())
                        l += " " + bare_or_quoted(s, gen_some_path(s, w, s.below(5) != 4));
                break;
        case 1:
                l = "cd " + bare_or_quoted(s, gen_some_path(s, w, s.below(6) != 5));
                break;
        case 2: {
                l = "cat";
                int n = 0;
                while (s.more(n, 2, 4)) {
                        l += " " + bare_or_quoted(s, gen_some_path(s, w, false));
                        n++;
                }
                break;
        }
        case 3: { // run something
                l = bare_or_quoted(s, gen_some_path(s, w, false));
                int n = 0;
                while (s.more(n, 1, 4)) {
                        l += Bytes(1 + s.below(2), ' ') + bare_or_quoted(s, gen_name(s, true));
                        n++;
                }
                break;
        }
        case 4: {
                Bytes d = gen_data(s, 14), e;
                for (unsigned char ch : d) {
                        if (ch < 0x21 || ch > 0x7e || ch == '\\' || ch == '"' || s.chance(1, 10))
                                e += fmt("\\x%02x", ch);
                        else
                                e += (char)ch;
                }
                l = "echo " + (e.empty() ? Bytes("\"\"") : e);
                if (s.flip())
                        l += " > " + bare_or_quoted(s, gen_some_path(s, w, false));
                break;
        }
        case 5:
                l = "xxd " + bare_or_quoted(s, gen_some_path(s, w, false));
                break;
        case 6:
                l = "help";
                break;
        case 7:
                l = "help " + bare_or_quoted(s, gen_some_path(s, w, false));
                break;
        case 8:
                l = "pwd";
                break;
        case 9: { // wrong arities
                static const std::vector<Bytes> v = {"cd",       "pwd x",    "ls a b",      "xxd",       "xxd a b",  "cat",       "help a b",
                                                     "echo a b", "echo a > b c", "echo a b c", "cd a b", "echo",     "\"\"",      "cd \"\"",
                                                     "ls \"\"",  "help \"\"", "cat \"\"",    "   ",       "",         "echo \"a b\""};
                l = s.pick(v);
                break;
        }
        default: {
                size_t n = s.below(14);
                for (size_t i = 0; i < n; i++)
                        l += " \"\\x>a/.b"[s.below(9)];
                break;
        }
        }
        if (s.chance(1, 12))
                l = Bytes(1 + s.below(3), ' ') + l;
        if (s.chance(1, 12))
                l += Bytes(1 + s.below(3), ' ');
        if (l.find("//") != Bytes::npos) {
                Bytes t;
                for (size_t i = 0; i < l.size(); i++)
                        if (!(l[i] == '/' && i + 1 < l.size() && l[i + 1] == '/'))
                                t += l[i];
                l = t;
        }
        if (s.chance(1, 20)) {  // a line full of operands
                size_t n = 2 + s.below((uint32_t)w.model->capacity() / 2);
                Bytes t = s.chance(1, 3) ? " " + bare_or_quoted(s, gen_some_path(s, w, false)) : Bytes(" ") + "ab1>."[s.below(5)];
                while (n-- && l.size() + t.size() <= w.model->capacity())
                        l += t;
        }
        if (l.size() > w.model->capacity())
                l.resize(w.model->capacity());
        pad_line(s, w, l);
        return l;
}

std::string world_str(const World &w) {
        std::string o = fmt("shell[%s] host='%s' in=%zu out=%zu path=%zu hook=%d", w.real->api->config_name, w.real->hostname.c_str(), w.real->sizes.in,
                            w.real->sizes.out, w.real->sizes.path, w.real->hook);
        auto fs = [](const FileP &f) {
                std::string t = "'" + vf_printable(f->name) + "'#" + std::to_string(f->id) + "(";
                if (f->exec)
                        t += "x" + std::to_string(f->beh);
                if (f->process)
                        t += "p";
                if (f->get)
                        t += "r" + std::to_string(f->init_data.size());
                if (f->set)
                        t += "w";
                if (f->has_help)
                        t += "h";
                if (f->has_desc)
                        t += "d";
                return t + ")";
        };
        for (auto &t : w.model->tree) {
                o += " " + vf_printable(t.first) + "{";
                for (auto &f : t.second->files)
                        o += fs(f) + " ";
                o += "}";
        }
        for (auto &g : w.model->groups)
                if (g.id >= 0) {
                        o += " cmds{";
                        for (auto &f : g.files)
                                o += fs(f) + " ";
                        o += "}";
                }
        return o;
}

void World::warm(Src &s, Ctx &c) {
        if (!s.chance(1, 4))
                return;
        auto saved = real->data;
        c.label("sessions with a past");
        WorldOpt o;
        int n = 0;
        while (s.more(n, 3, 6) || n == 0) {
                n++;
                Bytes l;
                switch (s.weighted({5, 2, 1})) {
                case 0:
                        l = gen_cmdline(s, *this, o) + "\r";
                        break;
                case 1: { // completion, then the line is dropped or executed
                        auto f = all_files();
                        l = f.empty() || s.flip() ? gen_name(s, false) : f[s.below((uint32_t)f.size())].second->name;
                        l = l.substr(0, s.below((uint32_t)l.size() + 1));
                        if (s.flip())
                                l = "ls " + l;
                        l += s.flip() ? "\t" : "\t\t";
                        break;
                }
                default:
                        l = s.flip() ? "\x1b" : "\"a\\";
                }
                if (l.size() + 1 > model->capacity() || l.find("//") != Bytes::npos)
                        continue;
                c.note("before: \"" + vf_printable(l) + "\"");
                type(l);
                if (!model->line.empty() || model->esc)
                        type(s.flip() && !model->esc && model->line.find("//") == Bytes::npos ? "\r" : "\x03");
        }
        for (auto &d : saved)
                if (real->data[d.first] != d.second)
                        real->data[d.first] = model->data[d.first] = d.second;
}
