// P01, P13..P23: memory safety, isolation, printing, recovery, help, life cycle,
// configurations, liveness, heap use, command groups, helpers, processing
#include "props.hpp"
#include <algorithm>
#include <dlfcn.h>
#include <link.h>
#include <thread>
#ifndef PAGE
#define PAGE 4096ul
#endif

// The writable data of one build of the library, as it was before the first case. Restoring it
// gives the next run a library that was just loaded, so that state the library keeps for itself
// (first-use caches, "active object" pointers) cannot hide behind an earlier run.
namespace {
struct Fresh {
        std::vector<std::pair<uint8_t *, std::vector<uint8_t>>> parts;
};
struct FreshQuery {
        const void *addr;
        Fresh *f;
};
}
__attribute__((no_sanitize("address", "thread", "undefined"), noinline)) static void raw_copy(volatile uint8_t *d, const volatile uint8_t *s, size_t n) {
        for (size_t i = 0; i < n; i++)
                if (d[i] != s[i])
                        d[i] = s[i];
}
static int fresh_cb(struct dl_phdr_info *i, size_t, void *p) {
        FreshQuery *q = (FreshQuery *)p;
        uintptr_t a = (uintptr_t)q->addr, ro0 = 0, ro1 = 0;
        bool mine = false;
        for (int k = 0; k < i->dlpi_phnum; k++) {
                const ElfW(Phdr) &h = i->dlpi_phdr[k];
                uintptr_t b = i->dlpi_addr + h.p_vaddr;
                if (h.p_type == PT_LOAD && a >= b && a < b + h.p_memsz)
                        mine = true;
                if (h.p_type == PT_GNU_RELRO) {
                        ro0 = b & ~(PAGE - 1);
                        ro1 = (b + h.p_memsz + PAGE - 1) & ~(PAGE - 1);
                }
        }
        if (!mine)
                return 0;
        for (int k = 0; k < i->dlpi_phnum; k++) {
                const ElfW(Phdr) &h = i->dlpi_phdr[k];
                if (h.p_type != PT_LOAD || !(h.p_flags & PF_W))
                        continue;
                uintptr_t b = i->dlpi_addr + h.p_vaddr, e = b + h.p_memsz;
                if (ro1 > ro0 && b >= ro0 && b < ro1)
                        b = ro1;
                if (b < e) {
                        q->f->parts.push_back({(uint8_t *)b, std::vector<uint8_t>(e - b)});
                        raw_copy(q->f->parts.back().second.data(), (uint8_t *)b, e - b);
                }
        }
        return 1;
}
static void fresh_statics(const vf_api *api) {
        static std::map<const vf_api *, Fresh> all;
        auto it = all.find(api);
        if (it == all.end()) {
                Fresh &f = all[api];
                FreshQuery q{(const void *)api->service, &f};
                dl_iterate_phdr(fresh_cb, &q);
                return;
        }
        for (auto &p : it->second.parts)
                raw_copy(p.first, p.second.data(), p.second.size());
}

Bytes garbage_bytes(Src &s, World &w, size_t maxlen) {
        Bytes g;
        while (s.more(g.size(), 24, maxlen)) {
                switch (s.weighted({6, 4, 3, 2, 2, 2, 1})) {
                case 0: g += (char)s.range('a', 'e'); break;
                case 1: g += (char)s.below(256); break;
                case 2: g += "\t\r\n\x03\x08\x7f\x1b \"\\[O"[s.below(12)]; break;
                case 3: g += "\x1b["; g += (char)s.range('A', 'D'); break;
                case 4: g += s.pick(w.all_dirs()); break;
                case 5: {
                        static const std::vector<Bytes> v = {"cd ..\r", "cd /\r", "ls\r", "help\r", "echo x > ", "cat ", "cd ", "xxd ", "../..", " \"", "\\x4"};
                        g += s.pick(v);
                        break;
                }
                default: g += Bytes(1 + s.below(300), (char)s.range('a', 'c')); break;
                }
        }
        return g;
}

// The same generated world as many times as needed.
struct Blueprint {
        std::vector<uint32_t> ch;
        const vf_api *api;
        WorldOpt o;
        void first(Src &s, Ctx &c, World &w, const vf_api *a, const WorldOpt &opt) {
                api = a;
                o = opt;
                size_t at = s.rec.size();
                gen_world(s, c, w, api, o);
                ch.assign(s.rec.begin() + at, s.rec.end());
        }
        void again(World &w) const {
                Src r;
                r.replay = &ch;
                Ctx c;
                gen_world(r, c, w, api, o);
        }
};

// ------------------------------------------------------------- memory (P01)
struct MemOp {
        int k;
        Bytes b;
        uint32_t n = 0, m = 0;
};

static Bytes mem_name(Src &s) {
        Bytes n = gen_name(s, true);
        if (s.chance(1, 8))
                n += Bytes(1 + s.below(s.chance(1, 4) ? 600 : 60), (char)s.range('a', 'b'));
        return n;
}

static void mem_world(Src &s, Ctx &c, World &w, const vf_api *api) {
        Sizes z;
        switch (s.weighted({3, 3, 2})) {
        case 0: z.in = 16 + s.below(64); break;
        case 1: z.in = 2 + s.below(14); break;
        default: z.in = 100 + s.below(200); break;
        }
        switch (s.weighted({3, 3, 2})) {
        case 0: z.out = 16 + s.below(64); break;
        case 1: z.out = 4 + s.below(20); break;
        default: z.out = 100 + s.below(200); break;
        }
        switch (s.weighted({3, 3, 2})) {
        case 0: z.path = 16 + s.below(64); break;
        case 1: z.path = 2 + s.below(14); break;
        default: z.path = 100 + s.below(200); break;
        }
        w.create(api, z, s.flip() ? "test" : "", s.flip());
        w.real->init();
        WorldOpt o;
        o.max_data = s.chance(1, 5) ? 600 : 60;
        auto files = [&](size_t max, bool cmd) {
                std::vector<FileP> v;
                std::set<Bytes> u;
                while (s.more(u.size(), 3, max)) {
                        Bytes n = mem_name(s);
                        if (u.insert(n).second) {
                                FileP f = gen_file(s, w, o, n, cmd);
                                if (s.chance(1, 8))
                                        f->has_desc = true, f->desc = Bytes(s.below(200), 'D');
                                v.push_back(f);
                        }
                }
                return v;
        };
        w.must_mount("/", files(5, false));
        std::vector<Bytes> dirs = {"/"};
        int tries = 0;
        while (s.more(tries, 5, 10)) {
                tries++;
                Bytes p = join_path(dirs[s.below((uint32_t)dirs.size())], mem_name(s));
                if (p.size() >= z.path || w.model->node_at(p))
                        continue;
                w.must_mount(p, files(4, false));
                dirs.push_back(p);
        }
        int ng = 0;
        while (s.more(ng, 1, 2)) {
                ng++;
                auto f = files(3, true);
                if (!f.empty())
                        w.add_group(f);
        }
        c.note(world_str(w));
}

static std::vector<MemOp> mem_ops(Src &s, Ctx &c, World &w) {
        std::vector<MemOp> ops;
        WorldOpt o;
        size_t cap = w.model->capacity();
        while (s.more(ops.size(), 9, 40) || ops.empty()) {
                MemOp op;
                op.k = 0;
                switch (s.weighted({8, 5, 4, 3, 2, 2, 2, 1, 1, 2})) {
                case 0: op.b = gen_cmdline(s, w, o) + (s.flip() ? "\r" : "\n"); break;
                case 1: op.b = garbage_bytes(s, w, 60); break;
                case 2: { // complete a name
                        Bytes n;
                        auto f = w.all_files();
                        auto d = w.all_dirs();
                        if (!f.empty() && s.flip())
                                n = f[s.below((uint32_t)f.size())].second->name;
                        else
                                n = d[s.below((uint32_t)d.size())];
                        op.b = (s.flip() ? "x " : "") + n.substr(0, s.below((uint32_t)n.size() + 1)) + "\t";
                        if (s.flip())
                                op.b += "\t";
                        break;
                }
                case 3: { // lines around the buffer size
                        size_t n = cap + s.below(6);
                        n = n > 3 ? n - s.below(4) : n;
                        op.b = Bytes(n, (char)s.range('a', 'c'));
                        if (s.flip() && n > 3)
                                op.b[n / 2] = ' ';
                        op.b += "\t\r\n\x7f"[s.below(4)];
                        break;
                }
                case 4: op.k = 1; op.n = s.below(6); op.b = gen_text(s, s.chance(1, 4) ? 300 : 30); op.m = s.below(USH_STATUS__TOTAL_NUM); break;
                case 5: { // unmount
                        op.k = 2;
                        auto d = w.all_dirs();
                        op.b = d[s.below((uint32_t)d.size())];
                        break;
                }
                case 6: op.k = 3; op.n = 1 + s.below(60); break;        // only some service calls
                case 7: op.k = 4; break;                                // reset
                case 8: { // new content
                        op.k = 5;
                        op.n = w.files.empty() ? 0 : w.files[s.below((uint32_t)w.files.size())]->id;
                        op.b = gen_data(s, 100);
                        break;
                }
                default:
                        op.k = 6;
                        op.n = s.below(12);                            // mount a directory again
                        if (op.n >= 8) {                               // a path around the limit through every path entry point
                                auto d = w.all_dirs();
                                Bytes b = s.flip() ? d[s.below((uint32_t)d.size())] : Bytes("/");
                                size_t len = w.model->sizes.path + s.below(8);
                                len = len > 4 ? len - s.below(5) : len;
                                op.b = b == "/" ? b : b + "/";
                                while (op.b.size() < len)
                                        op.b += s.chance(1, 12) && op.b.back() != '/' ? '/' : (char)('a' + s.below(3));
                        }
                        break;
                }
                c.id(op.b);
                c.id(op.k);
                c.note(fmt("op%d(%u) \"%s\"", op.k, op.n, vf_printable(op.b).c_str()));
                ops.push_back(op);
        }
        return ops;
}

static void mem_apply(World &w, const std::vector<MemOp> &ops) {
        Inst &r = *w.real;
        const vf_api *api = r.api;
        r.run();
        for (auto &op : ops) {
                switch (op.k) {
                case 0:
                        r.in.insert(r.in.end(), op.b.begin(), op.b.end());
                        if (op.b.size() % 3) {
                                r.run();
                        } else {
                                for (int i = 0; i < 40; i++)
                                        r.step();
                        }
                        break;
                case 1: {
                        // printing from outside is only meaningful while the shell waits for input
                        r.run();
                        char *t = r.heap.str(op.b);
                        switch (op.n) {
                        case 0: api->print(r.obj, t); break;
                        case 1: api->print_no_newline(r.obj, t); break;
                        case 2: api->printf_(r.obj, "%s", t); break;
                        case 3:
                                api->printf_(r.obj, "%s%d", t, (int)op.m);
                                api->printf_(r.obj, "%s", t);
                                break;
                        case 4: api->print_status(r.obj, (ush_status_t)op.m); break;
                        default: {
                                static wchar_t bad[] = {0x7fffffff, 0};
                                api->printf_(r.obj, "%s%ls", t, bad);
                        }
                        }
                        break;
                }
                case 2: {
                        if (op.b == "/")
                                break;
                        api->unmount(r.obj, op.b.c_str());
                        break;
                }
                case 3:
                        for (uint32_t i = 0; i < op.n; i++)
                                r.step();
                        break;
                case 4: api->reset(r.obj); r.pending = false; break;
                case 5:
                        r.data[op.n] = op.b;
                        break;
                default:
                        if (op.n >= 8) {
                                r.run();
                                const char *p = r.heap.str(op.b);
                                auto *there = api->get_by_path(r.obj, p);
                                if (op.n == 8)
                                        api->set_cwd(r.obj, p);
                                else if (op.n == 9 && there != r.obj->root)     // a shell without a root cannot be serviced
                                        api->unmount(r.obj, p);
                                else if (op.n > 9)
                                        api->mount(r.obj, p, r.new_node(), nullptr, 0);
                                break;
                        }
                        if (!w.mounts.empty()) {
                                Mounted &m = w.mounts[op.n % w.mounts.size()];
                                if (api->get_by_path(r.obj, m.path.c_str()) == nullptr) {
                                        ush_node_object *nn = r.new_node();
                                        if (api->mount(r.obj, r.heap.str(m.path), nn, m.arr.arr, m.arr.n) == USH_STATUS_OK)
                                                m.node = nn;
                                }
                        }
                }
                if (!r.io_error.empty())
                        r.io_error.clear();     // judged by the flow property
        }
        r.run();
        r.type("\x03");
        Bytes tail = r.type("\r");
        Bytes pr = "]$ " + w.model->sty("\x1B[0m");
        CHECK(tail.size() >= pr.size() && tail.compare(tail.size() - pr.size(), pr.size(), pr) == 0, "the shell does not answer with a prompt any more: \"%s\"",
              vf_printable(tail).c_str());
}

void p_memory(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        World a;
        size_t at = s.rec.size();
        mem_world(s, c, a, api);
        std::vector<uint32_t> ch(s.rec.begin() + at, s.rec.end());
        std::vector<MemOp> ops = mem_ops(s, c, a);
        for (auto &op : ops)
                if (op.k == 0 && op.b.find_first_of("\t\r\n") != Bytes::npos)
                        c.nontrivial = true;
        c.label("operations", ops.size());
        // second execution: the same shell on other initial memory (and other automatic-variable contents)
        const vf_api *api2 = api;
        if (api == g_targets[0])
                api2 = g_targets[1];
        else if (api == g_targets[1])
                api2 = g_targets[0];
        World b;
        {
                Src r;
                r.replay = &ch;
                Ctx c2;
                mem_world(r, c2, b, api2);
        }
        memset(b.real->desc->input_buffer, 0, b.real->sizes.in);
        memset(b.real->desc->output_buffer, 0, b.real->sizes.out);
        mem_apply(a, ops);
        mem_apply(b, ops);
        CHECK(a.real->out == b.real->out, "output depends on initial memory contents %s", diff_str(a.real->out, b.real->out).c_str());
        CHECK(a.real->log == b.real->log, "callbacks depend on initial memory contents: %s versus %s", events_str(a.real->log).c_str(),
              events_str(b.real->log).c_str());
}

// ---------------------------------------------------------- isolation (P13)
void p_isolation(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        int k = 2 + (s.below(4) == 3);
        bool crowd = s.chance(1, 100);
        if (crowd) {
                k = 4 + (int)s.below(s.flip() ? 4 : 16);
                c.label("many shells");
        }
        std::vector<Blueprint> bp(k);
        std::vector<Bytes> input(k), want(k);
        std::vector<std::vector<Event>> wlog(k);
        std::vector<std::map<int, Bytes>> wdata(k);
        std::vector<std::unique_ptr<World>> alone, live;
        WorldOpt o;
        o.max_nodes = crowd ? 2 : 4;
        o.max_files = crowd ? 2 : 4;
        o.max_data = 40;
        bool fresh = s.flip();
        for (int i = 0; i < k; i++) {
                World w;
                if (fresh)
                        fresh_statics(api);
                bp[i].first(s, c, w, api, o);
                int n = 0;
                while (s.more(n, 2, crowd ? 2 : 6) || n == 0) {
                        n++;
                        input[i] += gen_cmdline(s, w, o) + (s.flip() ? "\r" : "\n");
                        if (s.chance(1, 4))
                                input[i] += gen_name(s, false).substr(0, 2) + "\t\x03";
                }
                c.id(input[i]);
                c.note(fmt("shell %d types \"", i) + vf_printable(input[i]) + "\"");
                w.real->run();
                w.real->type(input[i]);
                want[i] = w.real->out;
                wlog[i] = w.real->log;
                wdata[i] = w.real->data;
        }
        if (fresh)
                fresh_statics(api);
        for (int i = 0; i < k; i++) {
                live.emplace_back(new World);
                bp[i].again(*live[i]);
                live[i]->real->in.assign(input[i].begin(), input[i].end());
        }
        int mode = (int)s.below(4);
        Rng rg(s.below(1u << 30), 9);
        unsigned long steps = 0;
        int cur = 0, burst = 0, active = -1;
        if (mode == 3) {        // one shell is serviced from inside the callbacks of another
                for (int i = 0; i < k; i++)
                        live[i]->real->nest = [&, i](Inst &) {
                                if (active != i)
                                        return;
                                uint64_t r = rg.next();
                                int j = (int)((i + 1 + (r >> 8) % (k - 1)) % k), n = (int)(r & 3);
                                if (n == 3)
                                        n = (int)((r >> 20) & 15);
                                if ((r >> 32) % 8 == 0) { // to its end: nothing but its own callbacks holds it up
                                        live[j]->real->run();
                                        CHECK(live[j]->real->in.empty(), "a shell serviced from a callback of another does not read its input");
                                        return;
                                }
                                while (n-- > 0) {
                                        live[j]->real->step();
                                        steps++;
                                }
                        };
                c.label("nested");
        }
        while (true) {
                bool all = true;
                for (auto &w : live)
                        all &= w->real->starved && w->real->in.empty();
                if (all)
                        break;
                if (mode == 0)
                        cur = (cur + 1) % k;
                else if (mode == 1 || mode == 3)
                        cur = (int)(rg.next() % k);
                else if (burst-- <= 0) {
                        cur = (int)(rg.next() % k);
                        burst = (int)(rg.next() % 40);
                }
                // idle shells may be serviced too
                active = cur;
                live[cur]->real->step();
                active = -1;
                CHECK(++steps < 3000000, "interleaved shells do not become idle");
        }
        for (int i = 0; i < k; i++) {
                Inst &r = *live[i]->real;
                CHECK(r.out == want[i], "shell %d prints something else when run beside others %s", i, diff_str(want[i], r.out).c_str());
                CHECK(r.log == wlog[i], "shell %d: callbacks alone %s, beside others %s", i, events_str(wlog[i]).c_str(), events_str(r.log).c_str());
                CHECK(r.data == wdata[i], "shell %d: file contents differ", i);
        }
        c.nontrivial = true;
        for (auto &l : wlog)
                c.label("callbacks", l.size());
}

// ------------------------------- calls of the application itself, for P13, P24
struct Poke {
        int k;
        Bytes b;
        size_t n;
};

static std::vector<Poke> gen_pokes(Src &s, Ctx &c, World &w) {
        std::vector<Poke> v;
        auto d = w.all_dirs();
        while (s.more(v.size(), 3, 10)) {
                Poke p;
                p.k = s.below(15);
                p.n = s.below(200);
                Bytes dir = s.pick(d);
                switch (p.k) {
                case 0: p.b = join_path(dir, fmt("n%u", s.below(3))); break;
                case 1: p.b = s.flip() ? dir : join_path(dir, fmt("n%u", s.below(3))); break;
                case 2: p.b = dir; break;
                case 9: case 10: p.b = gen_path_to(s, "/", dir); break;
                default: p.b = s.pick(std::vector<Bytes>{"ls\r", "help\r", "pwd\r", "\t\x03", "cd ..\r", "cat n0\r"}); break;
                }
                if (p.k < 2 && p.b.size() >= w.model->sizes.path)
                        continue;
                c.id(p.b);
                c.id((int)p.n * 10 + p.k);
                v.push_back(p);
        }
        return v;
}

static Bytes run_pokes(World &w, const std::vector<Poke> &v) {
        Inst &r = *w.real;
        const vf_api *api = r.api;
        Bytes res;
        std::vector<ush_node_object *> groups;
        for (auto &p : v) {
                switch (p.k) {
                case 0: res += fmt("m%d ", (int)api->mount(r.obj, r.heap.str(p.b), r.new_node(), nullptr, 0)); break;
                case 1:
                        if (p.b != "/")
                                res += fmt("u%d ", (int)api->unmount(r.obj, r.heap.str(p.b)));
                        break;
                case 2: res += fmt("c%d ", (int)api->set_cwd(r.obj, r.heap.str(p.b))); break;
                case 3: api->print(r.obj, r.heap.str(Bytes(p.n, 'p'))); break;
                case 4: api->printf_(r.obj, "%s", r.heap.str(Bytes(p.n, 'q'))); break;
                case 5:
                        if (api->commands) {
                                groups.push_back(r.new_node());
                                res += fmt("a%d ", (int)api->cmd_add(r.obj, groups.back(), api->builtin, api->builtin_num));
                        }
                        break;
                case 6:
                        if (api->commands && !groups.empty()) {
                                res += fmt("r%d ", (int)api->cmd_remove(r.obj, groups[p.n % groups.size()]));
                                groups.erase(groups.begin() + (long)(p.n % groups.size()));
                        }
                        break;
                case 7: // no such wide character: formatting fails
                        api->printf_(r.obj, "a%lc", (wint_t)0x7fffffff);
                        break;
                case 8: api->print_status(r.obj, (ush_status_t)(p.n % USH_STATUS__TOTAL_NUM)); break;
                case 9: {
                        if (p.b.size() + 2 + strlen(r.obj->current_node->path) >= r.sizes.path)
                                break;
                        Bytes o(r.sizes.path, 0);
                        api->abs_path(r.obj, r.heap.str(p.b), &o[0]);
                        res += o.c_str();
                        ush_file_descriptor const *f = api->find(r.obj, r.heap.str(p.b));
                        res += f ? f->name : "-";
                        break;
                }
                case 10: { // the helpers
                        char *in = r.heap.str(p.b);
                        Bytes a = p.b, o(p.b.size() + 64, 0);
                        res += fmt("%zu%d", api->levels(in), (int)api->is_printable((uint8_t)p.n));
                        res += api->status_string((ush_status_t)(p.n % USH_STATUS__TOTAL_NUM));
                        res += api->last(in);
                        res += api->last_arg(in);
                        api->join(in, "n", &o[0]);
                        res += o.c_str();
                        if (!p.b.empty() && p.b[0] == '/') {
                                api->collapse(&a[0], &o[0]);
                                res += o.c_str();
                        }
                        a = p.b;
                        api->upper(&a[0]);
                        res += a.c_str();
                        a = "\\x41b" + p.b;
                        Bytes e(a.size(), 0);
                        e.resize(api->decode(&a[0], (uint8_t *)&e[0], a.size()));
                        res += e;
                        break;
                }
                case 11: api->reset(r.obj); break;
                case 12: api->print_no_newline(r.obj, r.heap.str(Bytes(p.n, 'r'))); break;
                default: r.in.insert(r.in.end(), p.b.begin(), p.b.end()); break;
                }
                r.run();
        }
        return res;
}

// --------------------------------------------------------------- threads (P24)
void p_threads(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        int k = 2 + (s.below(4) == 3);
        std::vector<Blueprint> bp(k);
        std::vector<Bytes> input(k), want(k);
        std::vector<std::vector<Event>> wlog(k);
        std::vector<std::vector<Poke>> pokes(k);
        std::vector<Bytes> wres(k), res(k);
        std::vector<std::unique_ptr<World>> live;
        WorldOpt o;
        o.max_nodes = 4;
        o.max_files = 4;
        o.max_data = 40;
        bool inside = s.flip();  // init and mounts happen in the threads too
        for (int i = 0; i < k; i++) {
                World w;
                fresh_statics(api);
                bp[i].first(s, c, w, api, o);
                int n = 0;
                while (s.more(n, 3, 8) || n == 0) {
                        n++;
                        input[i] += gen_cmdline(s, w, o) + (s.flip() ? "\r" : "\n");
                        if (s.chance(1, 3))
                                input[i] += gen_name(s, false).substr(0, 2) + "\t\x03";
                        if (s.chance(1, 8))
                                input[i] += "\x1b[A\x1b[B";
                }
                c.id(input[i]);
                c.note(fmt("shell %d types \"", i) + vf_printable(input[i]) + "\"");
                w.real->run();
                w.real->type(input[i]);
                pokes[i] = gen_pokes(s, c, w);
                wres[i] = run_pokes(w, pokes[i]);
                want[i] = w.real->out;
                wlog[i] = w.real->log;
        }
        fresh_statics(api);
        auto set_up = [&](int i) {
                bp[i].again(*live[i]);
                live[i]->real->in.assign(input[i].begin(), input[i].end());
        };
        for (int i = 0; i < k; i++) {
                live.emplace_back(new World);
                if (!inside)
                        set_up(i);
        }
        std::vector<std::string> err(k);
        std::vector<std::thread> th;
        for (int i = 0; i < k; i++)
                th.emplace_back([&, i] {
                        try {
                                if (inside)
                                        set_up(i);
                                live[i]->real->run();
                                res[i] = run_pokes(*live[i], pokes[i]);
                                api->deinit(live[i]->real->obj);
                        } catch (const Fail &f) {
                                err[i] = f.msg.empty() ? "failed" : f.msg;
                        } catch (...) {
                                err[i] = "exception";
                        }
                });
        for (auto &t : th)
                t.join();
        for (int i = 0; i < k; i++) {
                CHECK(err[i].empty(), "shell %d in its own thread: %s", i, err[i].c_str());
                Inst &r = *live[i]->real;
                CHECK(r.out == want[i], "shell %d prints something else in its own thread %s", i, diff_str(want[i], r.out).c_str());
                CHECK(res[i] == wres[i], "shell %d: calls of the application returned %s alone, %s in a thread", i, wres[i].c_str(), res[i].c_str());
                CHECK(r.log == wlog[i], "shell %d: callbacks alone %s, in a thread %s", i, events_str(wlog[i]).c_str(), events_str(r.log).c_str());
        }
        c.nontrivial = true;
        for (auto &l : wlog)
                c.label("callbacks", l.size());
}

// ------------------------------------------------- read-only user data (P25)
void p_constant(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        WorldOpt o;
        o.rom = true;
        o.max_nodes = 5;
        World w;
        gen_world(s, c, w, api, o);
        w.start();
        w.warm(s, c);
        int n = 0;
        size_t ob = w.real->out.size();
        while (s.more(n, 6, 20) || n == 0) {
                n++;
                Bytes k;
                switch (s.weighted({12, 3, 2, 1, 3, 1, 1})) {
                case 5: { // a directory goes and comes
                        auto d = w.all_dirs();
                        if (!w.remount(s, c, s.pick(d)))
                                continue;
                        k = s.flip() ? "ls\r" : "pwd\r";
                        c.label("remounts");
                        break;
                }
                case 6: { // the application prints a constant text
                        Inst &r = *w.real;
                        if (!w.model->line.empty() || w.model->esc)
                                continue;
                        Bytes t = gen_text(s, 30);
                        bool nl = s.flip();
                        size_t o0 = r.out.size();
                        (nl ? api->print : api->print_no_newline)(r.obj, r.heap.str(t));
                        r.run();
                        Bytes g = r.out.substr(o0), e = t + (nl ? "\r\n" : "") + w.model->prompt();
                        CHECK(g == e, "a printed text %s", diff_str(e, g).c_str());
                        c.label("prints");
                        k = "\r";
                        break;
                }
                case 4: { // the application asks, with constant strings
                        Inst &r = *w.real;
                        auto d = w.all_dirs();
                        Bytes dir = s.pick(d), p = gen_path_to(s, w.model->cwd->path, dir);
                        char *rp = r.heap.str(p), *rd = r.heap.str(dir);
                        c.id(p);
                        c.note("application uses \"" + vf_printable(p) + "\"");
                        if (p.size() + w.model->cwd->path.size() + 2 >= w.model->sizes.path)
                                continue;
                        switch (s.below(6)) {
                        case 0: {
                                int e = api->set_cwd(r.obj, rp);
                                NodeM *nm = w.model->node_at(dir);
                                CHECK(e == USH_STATUS_OK, "set_current_dir(\"%s\") in %s returned %d", p.c_str(), w.model->cwd->path.c_str(), e);
                                w.model->cwd = nm;
                                break;
                        }
                        case 1: {
                                Bytes o2(w.model->sizes.path, 0);
                                api->abs_path(r.obj, rp, &o2[0]);
                                CHECK(o2.c_str() == dir, "absolute path of \"%s\" is \"%s\"", p.c_str(), o2.c_str());
                                break;
                        }
                        case 2: CHECK(api->get_by_path(r.obj, rd), "\"%s\" is not found", dir.c_str()); break;
                        case 3: api->get_parent(r.obj, rd); break;
                        case 4: api->find(r.obj, rp); break;
                        default: {
                                api->levels(rd);
                                api->last(rd);
                                api->last_arg(rd);
                                Bytes o2(dir.size() + 8, 0);
                                api->join(rd, rp, &(o2 = Bytes(p.size() + dir.size() + 8, 0))[0]);
                                api->level(s.below((uint32_t)api->levels(rd) + 1), rd, &o2[0]);
                                break;
                        }
                        }
                        c.label("API calls");
                        k = s.flip() ? "\r" : "pwd\r";
                        break;
                }
                case 0: k = gen_cmdline(s, w, o) + (s.flip() ? "\r" : "\n"); break;
                case 1: k = gen_name(s, false).substr(0, 1 + s.below(3)) + "\t\t\x03"; break;
                case 2: {
                        auto f = w.all_files();
                        if (f.empty())
                                continue;
                        k = (s.flip() ? "xxd " : "cat ") + quote_arg(s, f[s.below((uint32_t)f.size())].first);
                        if (k.size() > w.model->capacity())
                                continue;
                        k += "\r";
                        break;
                }
                default: {
                        auto cm = w.all_commands();
                        if (cm.empty())
                                continue;
                        k = "help " + quote_arg(s, cm[s.below((uint32_t)cm.size())]->name) + "\r";
                        if (k.size() > w.model->capacity())
                                continue;
                        break;
                }
                }
                c.id(k);
                c.note("type \"" + vf_printable(k) + "\"");
                w.type(k, "response");
        }
        if (w.mounts.size() > 1 && s.flip()) {
                auto r = w.unmount(w.mounts.back().path);
                CHECK(r.first == r.second, "unmount returns %d, expected %d", r.first, r.second);
                w.type("ls\r", "response");
        }
        if (w.real->out.size() > ob + 60)
                c.nontrivial = true;
        c.label("read-only bytes", w.real->heap.rom_used);
}

// -------------------------------------------------------------- print (P14)
// T was printed by printf calls through an output buffer of `out` bytes.
static void check_printf(const Bytes &T, size_t out, const Bytes &got) {
        if (out >= 4 && T.size() + 4 <= out) {
                CHECK(got == T, "printf text that fits differs %s", diff_str(T, got).c_str());
                return;
        }
        if (got == T)
                return;
        if (out < 24)
                return;         // the marker does not fit: only safety is required
        static const Bytes marker = "...overflow error\r\n";
        Bytes g = got;
        if (!g.empty() && g.back() == '\0')
                g.pop_back();
        CHECK(g.size() >= marker.size() && g.compare(g.size() - marker.size(), marker.size(), marker) == 0,
              "printf of %zu bytes through a buffer of %zu ends with \"%s\"", T.size(), out, vf_printable(g).c_str());
        g.resize(g.size() - marker.size());
        CHECK(T.compare(0, g.size(), g) == 0, "printf overflow: \"%s\" is not a prefix of the text", vf_printable(g).c_str());
        CHECK(g.size() + 24 >= out, "printf overflow kept only %zu of %zu bytes", g.size(), out);
}

// T and something the formatter refuses
static void check_format_error(const Bytes &T, size_t out, const Bytes &got) {
        static const Bytes marker = "...format error\r\n";
        if (out < 24)
                return;
        Bytes g = got;
        if (!g.empty() && g.back() == '\0')
                g.pop_back();
        CHECK(g.size() >= marker.size() && g.compare(g.size() - marker.size(), marker.size(), marker) == 0,
              "a failed printf through a buffer of %zu ends with \"%s\"", out, vf_printable(g).c_str());
        g.resize(g.size() - marker.size());
        CHECK(T.compare(0, g.size(), g) == 0, "failed printf: \"%s\" is not a prefix of the text", vf_printable(g).c_str());
}

void p_print(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        World w;
        Sizes z;
        z.in = 40 + s.below(80);
        switch (s.weighted({3, 3, 2})) {
        case 0: z.out = 24 + s.below(60); break;
        case 1: z.out = 4 + s.below(24); break;
        default: z.out = 80 + s.below(200); break;
        }
        bool huge = s.chance(1, 3000);
        if (huge)
                z.out = 65500 + s.below(s.flip() ? 80 : 4000);
        z.path = 128;
        w.create(api, z, "test", false);
        w.real->init();
        File k;
        k.name = "k";
        k.exec = true;
        k.beh = B_NOTHING;
        File p;
        p.name = "p";
        p.exec = true;
        p.process = true;
        p.beh = B_PROCESS;
        p.texts = {gen_text(s, 30)};
        p.process_calls = (int)s.below(3);
        FileP kf = w.add_file(k);
        std::vector<FileP> g = {kf};
        if (api->process_start)
                g.push_back(w.add_file(p));
        w.add_group(g);
        w.must_mount("/", {});
        w.start();
        if (z.out >= 64 && !huge)
                w.warm(s, c);
        Inst &r = *w.real;
        Bytes prompt = w.model->prompt();
        int n = 0;
        c.note(fmt("[%s] output buffer %zu", api->config_name, z.out));
        c.id(z.out);
        while (s.more(n, 4, 14) || n == 0) {
                n++;
                int kind = (int)s.below(6), place = s.weighted({4, 3});
                if (huge && n > 3)
                        break;
                std::vector<Bytes> texts;
                int cnt = kind == 2 ? 1 + s.below(5) : 1;
                for (int i = 0; i < cnt; i++) {
                        Bytes t = gen_text(s, s.chance(1, 4) ? 120 : 20);
                        if (s.chance(1, 16))
                                t.append(200 + s.below(200), (char)s.range('a', 'z'));
                        if (s.chance(1, 1000) || (huge && i == 0)) {
                                t += huge_data(s);
                                for (auto &ch : t)
                                        if (ch == 0)
                                                ch = 'y';
                        }
                        if (kind == 2 && s.chance(1, 3)) { // aim at the edge of the buffer
                                size_t used = 0;
                                for (auto &x : texts)
                                        used += x.size();
                                size_t want = z.out + 3 - std::min<size_t>(z.out + 3, used + s.below(10));
                                t.resize(want, 'z');
                                for (auto &ch : t)
                                        if (ch == 0)
                                                ch = 'y';
                        }
                        if (kind == 4)
                                t = t.substr(0, z.out - 1);
                        texts.push_back(t);
                }
                int st = (int)s.below(USH_STATUS__TOTAL_NUM);
                bool fmtd = s.flip();
                // formatted prints may follow each other while the earlier text is still being written
                bool midway = kind == 2 && place == 1 && s.flip();
                size_t total = 0;
                for (auto &t : texts)
                        total += t.size();
                if (total + 6 > z.out)
                        midway = false;
                std::vector<size_t> gaps(texts.size(), 0);
                if (midway)
                        for (size_t i = 0, sum = 0, used = 0; i + 1 < texts.size(); i++) {
                                sum += texts[i].size();
                                gaps[i] = s.below((uint32_t)(sum - used) + 1);
                                used += gaps[i];
                        }
                Bytes part;
                auto act = [&](Inst &in) {
                        switch (kind) {
                        case 0: api->print(in.obj, in.heap.str(texts[0])); break;
                        case 1: api->print_no_newline(in.obj, in.heap.str(texts[0])); break;
                        case 2:
                                for (size_t i = 0; i < texts.size(); i++) {
                                        const Bytes &t = texts[i];
                                        while (i && gaps[i - 1]-- > 0)
                                                in.step();
                                        if (fmtd)
                                                api->printf_(in.obj, "%.*s%s", (int)(t.size() / 2), t.c_str(), t.c_str() + t.size() / 2);
                                        else
                                                api->printf_(in.obj, "%s", in.heap.str(t));
                                }
                                break;
                        case 3: api->print_status(in.obj, (ush_status_t)st); break;
                        case 5: // no such wide character: formatting fails after some text
                                api->printf_(in.obj, "%s%lc", texts[0].c_str(), (wint_t)0x7fffffff);
                                break;
                        default:
                                memcpy(in.desc->output_buffer, texts[0].c_str(), texts[0].size() + 1);
                                api->flush(in.obj);
                        }
                };
                Bytes T;
                for (auto &t : texts)
                        T += t;
                Bytes got;
                size_t o0 = r.out.size();
                if (place == 0) { // from the exec callback
                        r.exec_probe = [&](Inst &in, const File &, int, char **) { act(in); };
                        bool cr = s.flip();
                        got = r.type(cr ? "k\r" : "k\n");
                        r.exec_probe = nullptr;
                        Bytes head = cr ? "k\r\n" : "k\n";
                        CHECK(got.compare(0, head.size(), head) == 0, "echo \"%s\"", vf_printable(got).c_str());
                        got = got.substr(head.size());
                } else { // from outside, while the user may be in the middle of a line
                        part = s.flip() ? Bytes() : Bytes("ab").substr(0, 1 + s.below(2));
                        r.type(part);
                        o0 = r.out.size();
                        act(r);
                        r.run();
                        got = r.out.substr(o0);
                }
                r.log.clear();
                c.id(T);
                c.note(fmt("%s kind %d \"%s\"", place ? "outside" : "callback", kind, vf_printable(T, 200).c_str()));
                CHECK(got.size() >= prompt.size() && got.compare(got.size() - prompt.size(), prompt.size(), prompt) == 0,
                      "no prompt after printing: \"%s\"", vf_printable(got).c_str());
                got.resize(got.size() - prompt.size());
                switch (kind) {
                case 0: CHECK(got == T + "\r\n", "print: %s", diff_str(T + "\r\n", got).c_str()); break;
                case 1:
                case 4: CHECK(got == T, "%s: %s", kind == 4 ? "flush" : "print_no_newline", diff_str(T, got).c_str()); break;
                case 2: check_printf(T, z.out, got); break;
                case 5: check_format_error(T, z.out, got); break;
                default: {
                        Bytes e = w.model->status(st) + "\r\n";
                        CHECK(got == e, "print_status: %s", diff_str(e, got).c_str());
                }
                }
                if (!T.empty())
                        c.nontrivial = true;
                c.label(place ? "outside" : "callback");
                // the shell keeps working
                w.real->log.clear();
                if (s.chance(1, 3) && g.size() > 1)
                        w.type("p\r", "processing output");
                if (s.chance(1, 3))
                        w.type("k\n", "next command");
                w.real->log.clear();
                w.model->log.clear();
        }
}

// ----------------------------------------------------------- recovery (P15)
static void sync_clone(const World &x, World &y) {
        y.real->run();
        y.real->take();
        y.real->log.clear();
        y.real->data = x.real->data;
        Bytes cwd = x.real->obj->current_node->path;
        CHECK(y.real->api->set_cwd(y.real->obj, cwd.c_str()) == USH_STATUS_OK, "cannot enter \"%s\" in the fresh shell", cwd.c_str());
}

static void same_session(Src &s, Ctx &c, World &x, World &y, const WorldOpt &o, const char *what) {
        x.real->take();
        y.real->take();
        x.real->log.clear();
        y.real->log.clear();
        x.model->line.clear();
        if (NodeM *n = x.model->node_at(x.real->obj->current_node->path))
                x.model->cwd = n;
        int n = 0;
        while (s.more(n, 3, 8) || n == 0) {
                n++;
                Bytes l = gen_cmdline(s, x, o) + (s.flip() ? "\r" : "\n");
                if (s.chance(1, 4))
                        l = gen_name(s, false).substr(0, 2) + "\t" + "\x03" + l;
                c.id(l);
                c.note("then \"" + vf_printable(l) + "\"");
                Bytes a = x.real->type(l), b = y.real->type(l);
                CHECK(a == b, "%s: \"%s\" answers differ from a fresh shell %s", what, vf_printable(l).c_str(), diff_str(b, a).c_str());
                CHECK(x.real->log == y.real->log, "%s: \"%s\" calls %s, a fresh shell %s", what, vf_printable(l).c_str(), events_str(x.real->log).c_str(),
                      events_str(y.real->log).c_str());
        }
        CHECK(x.real->data == y.real->data, "%s: file contents differ from a fresh shell", what);
}

void p_recovery(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        WorldOpt o;
        o.max_nodes = 5;
        o.max_data = 40;
        o.min_in = s.chance(1, 3) ? 16 : 96;
        World x, y;
        Blueprint bp;
        bp.first(s, c, x, api, o);
        bp.again(y);
        x.real->run();
        Bytes g;
        int n = 0;
        while (s.more(n, 2, 6) || n == 0) {
                n++;
                if (s.flip())
                        g += gen_cmdline(s, x, o) + (s.flip() ? "\r" : "");
                else
                        g += garbage_bytes(s, x, 60);
        }
        c.id(g);
        c.note("garbage \"" + vf_printable(g) + "\"");
        x.real->in.assign(g.begin(), g.end());
        x.real->in.push_back('\x03');
        x.real->run();
        Bytes e = "^C\r\n" + x.model->sty("\x1B[35m") + "[" + x.real->hostname + " ";
        Bytes cwd = x.real->obj->current_node->path;
        e += (cwd == "/" ? cwd : cwd.substr(cwd.rfind('/') + 1)) + "]$ " + x.model->sty("\x1B[0m");
        const Bytes &out = x.real->out;
        CHECK(out.size() >= e.size() && out.compare(out.size() - e.size(), e.size(), e) == 0, "after ^C the output ends with \"%s\"",
              vf_printable(out.substr(out.size() > 60 ? out.size() - 60 : 0)).c_str());
        sync_clone(x, y);
        same_session(s, c, x, y, o, "after ^C");
        c.nontrivial = g.size() >= 4;
}

// --------------------------------------------------------------- help (P16)
void p_help(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        World w;
        WorldOpt o;
        o.max_groups = 4;
        o.max_cmds = 5;
        o.max_nodes = 4;
        o.allow_reset = false;
        gen_world(s, c, w, api, o);
        w.start();
        w.warm(s, c);
        c.id(world_str(w));
        int n = 0;
        while (s.more(n, 4, 12) || n == 0) {
                n++;
                Bytes l;
                auto f = w.all_files();
                auto cm = w.all_commands();
                switch (s.weighted({3, 3, 3, 1, 1, 1})) {
                case 0: l = "help"; break;
                case 1: l = "help " + quote_arg(s, cm.empty() ? Bytes("ls") : cm[s.below((uint32_t)cm.size())]->name); break;
                case 2:
                        l = "help " + quote_arg(s, f.empty() ? Bytes("ls") : gen_path_to(s, w.model->cwd->path, f[s.below((uint32_t)f.size())].first));
                        break;
                case 3: l = "help " + quote_arg(s, gen_name(s, true)); break;
                case 4: {
                        auto d = w.all_dirs();
                        l = "cd " + quote_arg(s, d[s.below((uint32_t)d.size())]);
                        break;
                }
                default: l = "help a b"; break;
                }
                bool all = l == "help";
                if (!pad_line(s, w, l))
                        continue;
                c.id(l);
                c.note("line \"" + vf_printable(l) + "\"");
                w.type(l + "\r", "help");
                if (!all && !f.empty())
                        c.nontrivial = true;
                if (all && w.model->groups.size() > 1)
                        c.nontrivial = true;
        }
}

// --------------------------------------------------------- life cycle (P17)
static void remount(World &w, bool fresh) {
        Inst &r = *w.real;
        struct G {
                const ush_file_descriptor *a;
                size_t n;
        };
        (void)fresh;
        for (auto &m : w.mounts) {
                if (fresh)
                        m.node = r.new_node();
                int e = r.api->mount(r.obj, r.path_str(m.path), m.node, m.arr.arr, m.arr.n);
                CHECK(e == USH_STATUS_OK, "mounting \"%s\" again returned %d", m.path.c_str(), e);
        }
}

void p_lifecycle(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        WorldOpt o;
        o.max_nodes = 6;
        o.max_data = 40;
        World x, y;
        Blueprint bp;
        bp.first(s, c, x, api, o);
        bp.again(y);
        int mode = s.weighted({3, 3, 3, 3});
        Inst &r = *x.real;
        std::vector<std::pair<const ush_file_descriptor *, size_t>> groups;
        for (auto &g : x.group_nodes)
                groups.push_back({g.second->file_list, g.second->file_list_size});
        // some history, then stop anywhere
        r.run();
        Bytes in;
        int n = 0;
        while (s.more(n, 2, 5)) {
                n++;
                in += gen_cmdline(s, x, o) + "\r";
                if (s.chance(1, 4))
                        in += "a\t\x1b[";
        }
        r.in.assign(in.begin(), in.end());
        uint32_t steps = s.below((uint32_t)(in.size() * 12 + 2));
        bool write_blocked = s.chance(1, 4);
        if (write_blocked)
                r.write_gate = [&]() { return (r.service_calls & 3) == 0; };
        for (uint32_t i = 0; i < steps; i++)
                r.step();
        r.write_gate = nullptr;
        c.id(in);
        c.id(steps);
        c.id(mode);
        static const char *what[] = {"after reset", "after init on dirty memory", "after a second init", "after deinit and init"};
        c.note(fmt("input \"%s\", %u service calls, then %s", vf_printable(in).c_str(), steps, what[mode]));
        c.nontrivial = steps > 20 && !r.in.empty();
        r.in.clear();
        r.pending = false;
        r.process_left = 0;
        r.take();
        r.log.clear();
        auto again = [&](bool fresh) {
                remount(x, fresh);
                for (size_t i = 0; i < groups.size(); i++) {
                        ush_node_object *gn = x.group_nodes[i].second;
                        if (fresh)
                                gn = x.group_nodes[i].second = r.new_node();
                        api->cmd_add(r.obj, gn, groups[i].first, groups[i].second);
                }
        };
        switch (mode) {
        case 0: api->reset(r.obj); break;
        case 1: {
                Rng rg(s.below(1u << 30), 3);
                int style = (int)s.below(3);
                for (size_t i = 0; i < api->object_size; i++)
                        ((uint8_t *)r.obj)[i] = style == 0 ? (uint8_t)rg.next() : style == 1 ? 0xff : (uint8_t)s.below(4);
                for (size_t i = 0; i < r.sizes.in; i++)
                        r.desc->input_buffer[i] = (char)rg.next();
                for (size_t i = 0; i < r.sizes.out; i++)
                        r.desc->output_buffer[i] = (char)rg.next();
                r.init();
                again(true);
                break;
        }
        case 2:
                r.init();
                again(true);
                break;
        default:
                api->deinit(r.obj);
                for (auto &m : x.mounts)
                        CHECK(m.node->parent == nullptr && m.node->children == nullptr && m.node->next == nullptr,
                              "after deinit the node mounted at \"%s\" is still linked to others", m.path.c_str());
                CHECK(r.obj->root == nullptr && r.obj->commands == nullptr, "after deinit the shell still refers to its tree");
                r.init();
                again(s.flip());
        }
        r.run();
        Bytes banner = x.model->banner();
        Bytes got = r.take();
        CHECK(got == banner, "%s the shell prints %s", what[mode], diff_str(banner, got).c_str());
        CHECK(r.log.empty(), "%s callbacks ran: %s", what[mode], events_str(r.log).c_str());
        CHECK(Bytes(r.obj->current_node->path) == "/", "%s the working directory is \"%s\"", what[mode], r.obj->current_node->path);
        sync_clone(x, y);
        same_session(s, c, x, y, o, what[mode]);
}

// ------------------------------------------------------ configurations (P18)
static void stock_is_default(const vf_api *api) {
        static const char *const tr[] = {"ok", "error", "directory not found", "nested directories exist", "cannot find parent node",
                "directory already mounted", "syntax error", "wrong arguments", "file not executable", "file not writable",
                "file not readable", "no help available", "file not found", "read only file"};
        for (int i = 0; i < 14; i++)
                CHECK(!strcmp(api->tr[i], tr[i]), "%s configuration: message %d is \"%s\" instead of \"%s\"", api->config_name, i, api->tr[i], tr[i]);
        for (int i = 0; i < VF_CMD_NUM; i++)
                CHECK(api->cmd[i], "%s configuration: built-in command %d is switched off", api->config_name, i);
        CHECK(api->autocomplete && api->styles && api->align == 16 && api->columns == 8, "%s configuration: completion %d, styles %d, alignment %d, columns %d",
              api->config_name, api->autocomplete, api->styles, api->align, api->columns);
}

void p_config(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        if (!strncmp(api->config_name, "stock-", 6))
                stock_is_default(api);
        World w;
        WorldOpt o;
        o.max_nodes = 5;
        o.max_data = 70;
        gen_world(s, c, w, api, o);
        w.start();
        w.warm(s, c);
        c.id(Bytes(api->config_name));
        c.id(world_str(w));
        c.label(std::string("config ") + api->config_name);
        int n = 0, cmds = 0;
        while (s.more(n, 5, 14) || n == 0) {
                n++;
                Bytes l;
                if (s.below(6) == 5) {
                        l = gen_name(s, false).substr(0, 1 + s.below(3)) + "\t";
                        if (s.flip())
                                l += "\x03";
                        else if (s.flip())
                                l += "\x08\x7f\x1b[A";
                } else {
                        l = w.model->line.empty() ? gen_cmdline(s, w, o) : Bytes();
                        l += s.flip() ? "\r" : "\n";
                        cmds++;
                }
                if (w.model->line.size() + l.size() > w.model->capacity())
                        l = "\x03";
                if ((w.model->line + l).find("//") != Bytes::npos)
                        l = "\x03";
                c.id(l);
                c.note("type \"" + vf_printable(l) + "\"");
                w.type(l, "response");
        }
        c.nontrivial = cmds >= 2;
}

// ----------------------------------------------------------- liveness (P19)
void p_liveness(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        World w;
        WorldOpt o;
        o.max_nodes = 6;
        o.max_data = 60;
        if (s.chance(1, 4))
                mem_world(s, c, w, api);
        else
                gen_world(s, c, w, api, o);
        Inst &r = *w.real;
        Bytes in;
        int n = 0;
        bool cmd = false;
        while (s.more(n, 3, 8) || n == 0) {
                n++;
                if (s.below(4) == 3)
                        in += garbage_bytes(s, w, 50);
                else {
                        in += gen_cmdline(s, w, o) + "\r";
                        cmd = true;
                }
                if (s.chance(1, 4))
                        in += gen_name(s, false).substr(0, 2) + "\t";
        }
        c.id(in);
        c.note("input \"" + vf_printable(in) + "\"");
        bool late = s.flip();           // everything at once, or byte by byte as it is asked for
        uint32_t refuse = s.below(4);
        Rng rg(s.below(1u << 30), 11);
        if (refuse)
                r.write_gate = [&, refuse]() { return rg.next() % (refuse + 1) == 0; };
        size_t fed = 0;
        if (!late) {
                r.in.assign(in.begin(), in.end());
                fed = in.size();
        }
        bool prev_false = false, said_idle = false;
        unsigned long since = 0;
        for (unsigned long k = 0;; k++) {
                bool avail = !r.in.empty();
                size_t evs = r.log.size();
                bool busy = r.step();
                r.io_error.clear();
                if (!busy) {
                        CHECK(r.writes == 0 && r.write_calls == 0 && r.reads == 0, "service returned idle after moving data (%d reads, %d writes, %d write attempts)",
                              r.reads, r.writes, r.write_calls);
                        CHECK(r.log.size() == evs, "service returned idle after running a callback");
                        CHECK(!(prev_false && avail && !r.starved), "service stays idle although input is available");
                } else
                        CHECK(!r.starved, "service returned busy although it only found no input");
                if (r.reads || r.writes || r.write_calls || r.log.size() != evs)
                        since = 0;
                else
                        since++;
                // a call that neither moves data nor runs a callback is internal work, which is bounded
                CHECK(since < 20000, "%lu service calls in a row moved no data (busy=%d)", since, busy);
                if (r.reads)
                        said_idle = false;
                CHECK(!said_idle || (r.writes == 0 && r.write_calls == 0 && r.log.size() == evs),
                      "service had reported idle, then did something without new input");
                if (!busy)
                        said_idle = true;
                prev_false = !busy && avail;
                if (r.starved && r.in.empty()) {
                        if (fed >= in.size())
                                break;
                        r.in.push_back(in[fed++]);
                }
                CHECK(k < 3000000, "session does not end");
        }
        // idle stays idle
        size_t o0 = r.out.size();
        for (uint32_t i = 0, k = s.chance(1, 2000) ? 65530 + s.below(2000) : s.chance(1, 20) ? 250 + s.below(800) : 8; i < k; i++)
                CHECK(!r.step(), "an idle shell reports busy");
        CHECK(r.out.size() == o0, "an idle shell prints");
        c.nontrivial = cmd;
        c.label("service calls", r.service_calls);
}

// --------------------------------------------------------------- heap (P20)
void p_noheap(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        for (auto *t : g_targets)
                *t->heap_calls = 0;
        World w;
        WorldOpt o;
        o.max_nodes = 6;
        o.max_data = s.chance(1, 10) ? 3000 : 100;
        o.min_in = s.chance(1, 3) ? 200 + s.below(900) : 96;
        gen_world(s, c, w, api, o);
        Inst &r = *w.real;
        r.run();
        Bytes in;
        int n = 0, cmds = 0;
        while (s.more(n, 5, 14) || n == 0) {
                n++;
                if (s.below(5) == 4)
                        in += garbage_bytes(s, w, 40);
                else {
                        in += gen_cmdline(s, w, o) + "\r";
                        cmds++;
                }
                if (s.chance(1, 4))
                        in += gen_name(s, false).substr(0, 2) + "\t";
        }
        c.id(in);
        c.note("input \"" + vf_printable(in) + "\"");
        r.type(in);
        r.type("\x03");
        for (int k = 0; k < 3; k++) {
                char *big = r.heap.str(Bytes(s.below(2 * (uint32_t)w.model->sizes.out), 'p'));
                switch (s.below(8)) {
                case 0: api->print(r.obj, big); break;
                case 1: api->print_no_newline(r.obj, big); break;
                case 2: api->print_status(r.obj, (ush_status_t)s.below(USH_STATUS__TOTAL_NUM)); break;
                case 3:
                        snprintf(r.obj->desc->output_buffer, w.model->sizes.out, "%s", big);
                        api->flush(r.obj);
                        break;
                case 4: api->printf_(r.obj, "%s", ""); break;
                case 5: api->printf_(r.obj, "%s", big); // fall through: formatted output is concatenated
                case 6: api->printf_(r.obj, "%s", big); break;
                default: api->printf_(r.obj, "%s %d %f", "text", 5, 1.5);
                }
                r.run();
        }
        auto d = w.all_dirs();
        if (s.flip() && d.size() > 1) {         // a shell without a root cannot be serviced
                api->unmount(r.obj, d.back().c_str());
                r.type("ls\r");
        }
        api->deinit(r.obj);
        CHECK(*api->heap_calls == 0, "the library called the heap %lu times", *api->heap_calls);
        c.nontrivial = cmds >= 3;
}

// ------------------------------------------------------------- groups (P21)
void p_groups(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        World w;
        Sizes z;
        z.in = 120;
        z.out = std::max<size_t>(96, api->columns * 3 + 8);
        z.path = 300;
        w.create(api, z, "test", false);
        w.real->init();
        static const std::vector<Bytes> nm = {"a", "ab", "abc", "ls", "help", "pwd", "b", "he", "echo", "xx"};
        std::vector<Bytes> crowd;               // rarely: more commands than an 8-bit counter holds
        auto mk = [&](bool cmd) {
                std::vector<FileP> v;
                std::set<Bytes> u;
                if (cmd && crowd.empty() && s.chance(1, 60)) {
                        int k = s.range(250, 300);
                        for (int i = 0; i < k; i++) {
                                File f;
                                f.name = fmt("c%d", i);
                                f.exec = true;
                                f.beh = B_PRINT;
                                f.texts = {fmt("I am %s", f.name.c_str())};
                                v.push_back(w.add_file(f));
                                if (i % 50 == 0 || i > k - 50)
                                        crowd.push_back(f.name);
                        }
                        c.label("more than 250 commands in a group");
                }
                while (v.empty() || s.more(v.size(), 1, 4)) {
                        Bytes n = s.pick(nm);
                        if (!u.insert(n).second) {
                                if (u.size() >= 3)
                                        break;
                                continue;
                        }
                        File f;
                        f.name = n;
                        f.exec = s.below(6) != 5;
                        f.beh = B_PRINT;
                        f.texts = {fmt("I am %d", w.next_id)};
                        f.has_help = s.flip();
                        f.help = f.texts[0] + " help\r\n";
                        f.has_desc = s.flip();
                        f.desc = f.texts[0];
                        f.get = s.flip();
                        f.set = s.flip();
                        f.init_data = f.texts[0];
                        v.push_back(w.add_file(f));
                }
                (void)cmd;
                return v;
        };
        w.must_mount("/", mk(false));
        w.start();
        w.warm(s, c);
        std::vector<std::pair<GroupM, ush_node_object *>> removed;
        size_t most = 5;
        if (s.chance(1, 60)) {          // many groups
                most = s.flip() ? 20 : 300;
                for (size_t k = most - 3 - s.below(6); k > 0; k--)
                        w.add_group(mk(false));
                c.label("many groups");
        }
        if (api->commands && s.chance(1, 3))    // the built-in commands are a group like any other
                w.group_nodes.push_back({-1, &w.real->obj->buildin_commands});
        if (api->commands) {
                FileArray &b = w.group_tables[-1];
                b.arr = (ush_file_descriptor *)api->builtin;
                b.n = api->builtin_num;
        }
        int n = 0;
        while (s.more(n, 10, 30) || n < 2) {
                n++;
                switch (s.weighted({3, 3, 6, 1})) {
                case 0: {
                        if (w.group_nodes.size() >= most)
                                break;
                        if (!removed.empty() && s.flip()) { // the same objects again
                                auto g = removed.back();
                                removed.pop_back();
                                const FileArray &fa = w.group_tables[g.first.id];
                                int rr = api->cmd_add(w.real->obj, g.second, fa.arr, fa.n);
                                CHECK(rr == USH_STATUS_OK, "adding a group again returned %d", rr);
                                w.model->groups.insert(w.model->groups.begin(), g.first);
                                w.group_nodes.push_back({g.first.id, g.second});
                                c.note("add again");
                        } else if (!w.group_nodes.empty() && s.chance(1, 5)) {  // one table registered through two nodes
                                int from = w.group_nodes[s.below((uint32_t)w.group_nodes.size())].first;
                                GroupM gm;
                                for (auto &g : w.model->groups)
                                        if (g.id == from)
                                                gm = g;
                                int id = w.add_group(gm.files, &w.group_tables[from]);
                                c.note(fmt("add group %d: the table of group %d", id, from));
                                c.label("shared table");
                        } else {
                                auto fl = mk(true);
                                int id = w.add_group(fl);
                                Bytes t;
                                for (auto &f : fl)
                                        t += f->name + " ";
                                c.note(fmt("add group %d: %s", id, t.c_str()));
                        }
                        c.id(Bytes("add"));
                        break;
                }
                case 1: {
                        if (w.group_nodes.empty())
                                break;
                        size_t k = s.below((uint32_t)w.group_nodes.size());
                        int id = w.group_nodes[k].first;
                        ush_node_object *no = w.group_nodes[k].second;
                        int rr = api->cmd_remove(w.real->obj, no);
                        c.note(fmt("remove group %d -> %d", id, rr));
                        CHECK(rr == USH_STATUS_OK, "removing a group returned %d", rr);
                        for (size_t i = 0; i < w.model->groups.size(); i++)
                                if (w.model->groups[i].id == id) {
                                        removed.push_back({w.model->groups[i], no});
                                        w.model->groups.erase(w.model->groups.begin() + i);
                                        break;
                                }
                        w.group_nodes.erase(w.group_nodes.begin() + k);
                        if (!w.group_nodes.empty())
                                c.nontrivial = true;
                        rr = api->cmd_remove(w.real->obj, no);
                        CHECK(rr == USH_STATUS_ERROR_NODE_NOT_FOUND, "removing a group twice returned %d", rr);
                        c.id(fmt("remove%zu", k));
                        break;
                }
                case 2: {
                        Bytes l;
                        switch (s.weighted({5, 2, 2, 1, 1})) {
                        case 0: l = !crowd.empty() && s.flip() ? s.pick(crowd) : s.pick(nm); break;
                        case 1: l = "help"; break;
                        case 2: l = "help " + s.pick(nm); break;
                        case 3: l = "cat " + s.pick(nm); break;
                        default: l = s.pick(nm).substr(0, 1) + "\t"; break;
                        }
                        c.id(l);
                        c.note("line \"" + vf_printable(l) + "\"");
                        w.type(l + (l.back() == '\t' ? "\x03" : "\r"), "response");
                        break;
                }
                default: {
                        ush_node_object *never = w.real->new_node();
                        int rr = api->cmd_remove(w.real->obj, never);
                        CHECK(rr == USH_STATUS_ERROR_NODE_NOT_FOUND, "removing an unknown group returned %d", rr);
                }
                }
        }
        w.type("help\r", "final command list");
        for (auto &x : nm)
                w.type(x + "\r", "response");
        if (!crowd.empty())
                w.type(crowd.back() + "\r", "response");
}

// -------------------------------------------------------------- utils (P22)
static std::vector<Bytes> comps(const Bytes &p) { // components after the leading slash
        std::vector<Bytes> v;
        size_t i = 1;
        while (true) {
                size_t j = p.find('/', i);
                if (j == Bytes::npos) {
                        v.push_back(p.substr(i));
                        return v;
                }
                v.push_back(p.substr(i, j - i));
                i = j + 1;
        }
}

void p_utils(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        Heap h;
        auto name = [&]() {
                Bytes n;
                static const char *sp[] = {".", "..", "...", "a", "ab", ".a", "a.", "..a"};
                if (s.flip())
                        return Bytes(sp[s.below(8)]);
                do
                        n += (char)(s.flip() ? s.range('a', 'd') : s.range(0x21, 0xff));
                while (s.more(n.size(), 4, 20));
                for (auto &ch : n)
                        if (ch == '/')
                                ch = 'q';
                return n;
        };
        bool big = s.chance(1, 400);            // beyond what an 8-bit counter holds
        Bytes p = "/";
        int nc = 0;
        if (big) {
                c.label("more than 255 levels or characters");
                Bytes some = name();
                for (int k = s.range(120, 700); nc < k; nc++)
                        p += (nc ? "/" : "") + (s.below(8) ? some.substr(0, 1 + nc % 3) : name());
        }
        while (!big && s.more(nc, 4, 12)) {
                p += (nc ? "/" : "") + name();
                nc++;
        }
        if (nc && s.chance(1, 6))
                p += "/";
        c.id(p);
        c.nontrivial = p.size() > 2;
        c.note("path \"" + vf_printable(p) + "\"");
        bool trail = p.size() > 1 && p.back() == '/';
        // collapse
        {
                char *in = h.str(p), *out = (char *)h.alloc(p.size() + 1, 0xA5);
                api->collapse(in, out);
                std::vector<Bytes> st;
                if (p != "/")
                        for (auto &x : comps(p)) {
                                if (x == "..") {
                                        if (!st.empty())
                                                st.pop_back();
                                } else if (x != ".")
                                        st.push_back(x);
                        }
                Bytes e;
                for (auto &x : st)
                        e += "/" + x;
                if (e.empty())
                        e = "/";
                CHECK(e == out, "collapse of \"%s\" is \"%s\", expected \"%s\"", vf_printable(p).c_str(), vf_printable(out).c_str(), vf_printable(e).c_str());
                if (!trail) {
                        Bytes again(out);
                        char *in2 = h.str(again), *out2 = (char *)h.alloc(again.size() + 1, 0xA5);
                        api->collapse(in2, out2);
                        CHECK(again == out2, "collapse is not idempotent: \"%s\" then \"%s\"", vf_printable(again).c_str(), vf_printable(out2).c_str());
                }
        }
        // levels and prefixes
        size_t lv = p == "/" ? 0 : (size_t)std::count(p.begin(), p.end(), '/');
        CHECK(api->levels(h.str(p)) == lv, "levels of \"%s\" is %zu, expected %zu", vf_printable(p).c_str(), api->levels(h.str(p)), lv);
        if (p != "/") {
                std::vector<Bytes> cs = comps(p);
                Bytes e;
                for (size_t i = 0; i <= lv + 1; i++) {
                        if (i == 0)
                                e = "/";
                        else if (i <= lv)
                                e = (i == 1 ? Bytes() : e) + "/" + cs[i - 1];
                        if (big && i % 29 != 1 && i + 3 < lv)
                                continue;
                        char *out = (char *)h.alloc(p.size() + 1, 0xA5);
                        api->level(i, h.str(p), out);
                        CHECK(e == out, "level %zu of \"%s\" is \"%s\", expected \"%s\"", i, vf_printable(p).c_str(), vf_printable(out).c_str(), vf_printable(e).c_str());
                }
        }
        // parent, base, join
        {
                char *u = h.str(p);
                api->upper(u);
                size_t k = p.rfind('/');
                Bytes e = p == "/" ? Bytes() : k == 0 ? Bytes("/") : p.substr(0, k);
                CHECK(e == u, "parent of \"%s\" is \"%s\", expected \"%s\"", vf_printable(p).c_str(), vf_printable(u).c_str(), vf_printable(e).c_str());
                char *pc = h.str(p);
                Bytes b = p == "/" ? p : p.substr(k + 1);
                CHECK(b == api->last(pc), "last component of \"%s\" is \"%s\"", vf_printable(p).c_str(), vf_printable(api->last(pc)).c_str());
                if (!trail) {
                        Bytes n = name(), j = join_path(p, n);
                        char *out = (char *)h.alloc(j.size() + 1, 0xA5);
                        api->join(h.str(p), h.str(n), out);
                        CHECK(j == out, "join of \"%s\" and \"%s\" is \"%s\"", vf_printable(p).c_str(), vf_printable(n).c_str(), vf_printable(out).c_str());
                        char *jp = h.str(j);
                        CHECK(n == api->last(jp) || j.size() == 1, "last component of a joined path");
                        api->upper(jp);
                        CHECK(p == jp, "parent of a joined path is \"%s\", expected \"%s\"", vf_printable(jp).c_str(), vf_printable(p).c_str());
                }
        }
        // last argument
        {
                Bytes l;
                if (big && s.flip())
                        l = Bytes(s.range(200, 600), 'x');
                for (size_t k = l.size(); s.more(l.size() - k, 6, 30);)
                        l += s.below(3) == 0 ? ' ' : (char)s.range('a', 'c');
                if (big && s.flip())
                        l += Bytes(s.range(200, 600), 'y');
                c.id(l);
                char *q = h.str(l);
                size_t k = l.rfind(' ');
                char *e = q + (k == Bytes::npos ? 0 : k + 1);
                char *g = api->last_arg(q);
                CHECK(g == e, "last argument of \"%s\" starts at %td, expected %td", l.c_str(), g - q, e - q);
        }
        // prefix test
        {
                Bytes a = big ? Bytes(s.range(200, 600), 'p') + name() : name(), b = s.flip() ? a.substr(0, s.below((uint32_t)a.size() + 1)) : name();
                if (s.chance(1, 4))
                        b += 'z';
                bool e = a.compare(0, b.size(), b) == 0 && b.size() <= a.size();
                CHECK(api->startswith(h.str(a), h.str(b)) == e, "startswith(\"%s\",\"%s\")", vf_printable(a).c_str(), vf_printable(b).c_str());
        }
        // decoding, bounded
        {
                Bytes t;
                for (size_t k = big ? 200 + s.below(400) : 0; k; k--)
                        t += k % 3 ? Bytes("k") : Bytes("\\x4f");
                for (size_t t0 = t.size(); s.more(t.size() - t0, 8, 60);) {
                        int k = s.weighted({3, 2, 3});
                        t += k == 0 ? Bytes(1, (char)s.range(1, 255)) : k == 1 ? Bytes("\\") : Bytes("\\x") + "0123456789abcdefABCDEFgxG"[s.below(25)] + "0123456789abcdefABCDEFgx"[s.below(24)];
                }
                c.id(t);
                Bytes full = Model::decode(t);
                size_t max = s.flip() ? t.size() : s.below((uint32_t)t.size() + 2);
                uint8_t *out = (uint8_t *)h.alloc(std::min(max, t.size()), 0xA5);
                size_t n = api->decode(h.str(t), out, std::min(max, t.size()));
                Bytes e = full.substr(0, std::min(max, t.size()));
                CHECK(n == e.size() && memcmp(out, e.data(), n) == 0, "decode of \"%s\" with %zu bytes gives %zu bytes \"%s\", expected \"%s\"", vf_printable(t).c_str(),
                      max, n, vf_printable(Bytes((char *)out, n)).c_str(), vf_printable(e).c_str());
                char *ip = h.str(t);    // in place, as echo does it
                n = api->decode(ip, (uint8_t *)ip, t.size());
                CHECK(n == full.size() && memcmp(ip, full.data(), n) == 0, "decode in place of \"%s\"", vf_printable(t).c_str());
        }
        unsigned b = s.below(256);
        CHECK(api->is_printable((uint8_t)b) == (b >= 0x20 && b <= 0x7e), "is_printable(0x%02x)", b);
        for (int i = 0; i < USH_STATUS__TOTAL_NUM; i++) {
                Bytes e = i == 0 ? Bytes(api->tr[0]) : Bytes(api->tr[1]) + ": " + api->tr[i + 1];
                CHECK(e == api->status_string((ush_status_t)i), "text of status %d is \"%s\", expected \"%s\"", i, api->status_string((ush_status_t)i), e.c_str());
        }
}

// ------------------------------------------------------------ process (P23)
void p_process(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        if (!api->process_start)
                throw Discard();
        World w;
        WorldOpt o;
        o.max_nodes = 3;
        o.max_data = 30;
        gen_world(s, c, w, api, o);
        File f;
        f.name = "proc";
        f.exec = true;
        f.process = true;
        f.beh = B_PROCESS;
        f.process_calls = (int)s.below(30);
        f.process_stages = s.flip();
        f.finish = (int)s.below(4);
        f.status = (int)s.below(USH_STATUS__TOTAL_NUM);
        f.texts = {gen_text(s, 40)};
        File g = f;
        g.name = "noproc";
        g.process = false;
        g.beh = B_PROCESS_NULL;
        FileP fp = w.add_file(f), gp = w.add_file(g);
        w.add_group({fp, gp});
        if (s.chance(1, 3)) {           // another file carries on with the processing
                File h;
                h.name = "other";
                h.process = true;
                FileP hp = w.add_file(h);
                w.add_group({hp});
                fp->chain = hp->id;
                fp->chain_at = (int)s.below((uint32_t)fp->process_calls + 1) - 1;
                c.label("processing handed over");
        }
        w.start();
        w.warm(s, c);
        Inst &r = *w.real;
        int n = 0;
        while (s.more(n, 2, 5) || n == 0) {
                n++;
                bool null = s.chance(1, 5);
                Bytes first = Bytes(null ? "noproc" : "proc") + "\r";
                Bytes more;
                int k = 0;
                while (s.more(k, 2, 4)) {
                        k++;
                        more += s.flip() ? gen_cmdline(s, w, o) + "\r" : Bytes("ab\x7f\x7f");
                }
                c.id(first + more);
                c.note("type-ahead \"" + vf_printable(first + more) + "\"" + fmt(" turns %d", fp->process_calls));
                Bytes e = w.model->feed(first + more);
                Bytes all = first + more;
                size_t o0 = r.out.size();
                r.in.insert(r.in.end(), all.begin(), all.end());
                // until the command starts
                unsigned long guard = 0;
                while (r.log.empty() || (r.log.back().kind != 'X')) {
                        r.step();
                        CHECK(++guard < 100000, "the command does not start");
                }
                if (!null) {
                        size_t o1 = r.out.size(), q = r.in.size();
                        for (int i = 0; i <= fp->process_calls; i++) {
                                size_t before = r.log.size();
                                bool busy = r.step();
                                CHECK(r.log.size() == before + 1 && r.log.back().kind == 'P', "service call %d of the processing state ran %zu callbacks", i,
                                      r.log.size() - before);
                                CHECK(busy, "service reports idle while a command is being processed");
                                CHECK(r.in.size() == q && r.read_calls == 0, "input was consumed while a command is being processed");
                        }
                        CHECK(r.out.size() == o1, "output appeared before the process callback printed");
                        if (fp->process_calls)
                                c.nontrivial = true;
                }
                r.run();
                Bytes got = r.out.substr(o0);
                CHECK(e == got, "output %s", diff_str(e, got).c_str());
                CHECK(r.log == w.model->log, "callbacks expected %s, got %s", events_str(w.model->log).c_str(), events_str(r.log).c_str());
                r.log.clear();
                w.model->log.clear();
                c.label("process turns", null ? 0 : fp->process_calls);
        }
}
