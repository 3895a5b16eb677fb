// P06..P12: directory tree, listing, cat, xxd, echo, completion, flow control
#include "props.hpp"
#include <algorithm>

// ----------------------------------------------------------------- tree (P06)
#define LONG_NAME "controller-of-the-second-" // long names that differ late
static const std::vector<Bytes> &tree_paths() {
        static std::vector<Bytes> v;
        if (v.empty()) {
                static const char *c[] = {"a", "ab", "abc", "b", "a.b", "ba", "cab", LONG_NAME "1", LONG_NAME "2"};
                v.push_back("/");
                for (auto x : c) {
                        v.push_back(Bytes("/") + x);
                        for (auto y : c) {
                                v.push_back(Bytes("/") + x + "/" + y);
                                if (Bytes(y) == "a" || Bytes(y) == "ab" || Bytes(y) == "ba")
                                        for (auto z : {"a", "ab", "ba", "b"}) {
                                                v.push_back(Bytes("/") + x + "/" + y + "/" + z);
                                                if (Bytes(z) == "a")
                                                        v.push_back(Bytes("/") + x + "/" + y + "/" + z + "/ab");
                                        }
                        }
                }
        }
        return v;
}

static ush_node_object *node_of(World &w, const Bytes &path) {
        if (!w.model->root || !w.model->node_at(path))
                return nullptr;
        for (size_t i = w.mounts.size(); i-- > 0;)
                if (w.mounts[i].path == path)
                        return w.mounts[i].node;
        return nullptr;
}

static void check_tree(World &w) {
        for (auto &p : tree_paths()) {
                ush_node_object *e = node_of(w, p), *g = w.real->api->get_by_path(w.real->obj, p.c_str());
                CHECK(e == g, "lookup of \"%s\" finds %s, expected %s", p.c_str(), g ? g->path : "nothing", e ? e->path : "nothing");
                if (e) {
                        CHECK(p == e->path, "node mounted at \"%s\" now says its path is \"%s\"", p.c_str(), e->path);
                        NodeM *pm = w.model->node_at(p)->parent;
                        ush_node_object *pe = pm ? node_of(w, pm->path) : nullptr;
                        CHECK(e->parent == pe, "node \"%s\" has the wrong parent", p.c_str());
                        CHECK(e->file_list_size == w.model->node_at(p)->files.size(), "node \"%s\" lost or gained files", p.c_str());
                }
                if (p != "/") {
                        size_t k = p.rfind('/');
                        ush_node_object *pg = w.real->api->get_parent(w.real->obj, p.c_str());
                        CHECK(pg == node_of(w, k ? p.substr(0, k) : Bytes("/")), "parent lookup of \"%s\"", p.c_str());
                }
        }
}

void p_tree(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        World w;
        Sizes z;
        z.in = 200;
        z.out = std::max<size_t>(96, api->columns * 3 + 8);
        z.path = 160;
        w.create(api, z, "test", s.chance(1, 4));
        w.real->init();
        bool started = false;
        std::vector<ush_node_object *> spare;   // unmounted node objects, free for reuse
        int ok = 0, refused = 0, n = 0, fid = 0;
        auto mk_files = [&]() {
                std::vector<FileP> fl;
                int k = (int)s.below(3);
                for (int i = 0; i < k; i++) {
                        File f;
                        static const char *same[] = {"a", "ab", "b", "abc", "a.b", "ba", "cab"};       // as directories are called
                        f.name = s.chance(1, 3) ? Bytes(same[s.below(7)]) : fmt("f%d", fid % 7);
                        fid++;
                        f.get = true;
                        f.init_data = fmt("<%d>", fid);
                        bool dup = false;
                        for (auto &x : fl)
                                dup |= x->name == f.name;
                        if (!dup)
                                fl.push_back(w.add_file(f));
                }
                return fl;
        };
        Bytes last_dir = "/";
        auto any_path = [&]() -> Bytes {
                auto &tp = tree_paths();
                if (s.flip() && w.model->root) { // near what exists
                        auto d = w.all_dirs();
                        Bytes b = d[s.below((uint32_t)d.size())];
                        if (s.flip())
                                return b;
                        static const char *x[] = {"a", "ab", "b", "abc", "a.b", "ba", "cab", LONG_NAME "1", LONG_NAME "2"};
                        return join_path(b, x[s.below(9)]);
                }
                return tp[s.below((uint32_t)tp.size())];
        };
        auto some_path = [&]() -> Bytes {
                Bytes p = any_path();
                return p.size() < 120 ? p : Bytes("/ba");
        };
        // usually the root comes first
        if (!s.chance(1, 4)) {
                w.must_mount("/", mk_files());
                ok++;
        }
        while (s.more(n, 22, 80) || n < 3) {
                n++;
                bool idle = w.model->root != nullptr;
                switch (s.weighted({8, 4, 3, 2, 1})) {
                case 0: { // mount
                        Bytes p = some_path();
                        if (std::count(p.begin(), p.end(), '/') > 6)
                                break;
                        bool will = !(w.model->root && w.model->node_at(p)) && (p == "/" || w.model->parent_of(p));
                        Mounted m;
                        m.path = p;
                        m.files = mk_files();
                        // a mount that must fail may name an object that is in use: it has to stay as it was
                        if (!will && !w.mounts.empty() && s.flip()) {
                                std::vector<ush_node_object *> live;
                                for (auto &t : w.model->tree)
                                        if (w.model->root)
                                                live.push_back(node_of(w, t.first));
                                m.node = live.empty() ? w.real->new_node() : live[s.below((uint32_t)live.size())];
                        } else if (!spare.empty() && s.flip()) {
                                m.node = spare.back();
                                if (will)
                                        spare.pop_back();
                        } else
                                m.node = w.real->new_node();
                        m.arr = w.real->make_files(m.files);
                        int r = api->mount(w.real->obj, w.real->path_str(p), m.node, m.arr.arr, m.arr.n);
                        int e = w.model->mount(p, m.files);
                        c.note(fmt("mount %s (%zu files) -> %d", p.c_str(), m.files.size(), r));
                        CHECK(r == e, "mount(\"%s\") returned %d, expected %d", p.c_str(), r, e);
                        if (e == USH_STATUS_OK) {
                                w.mounts.push_back(m);
                                ok++;
                        } else
                                refused++;
                        c.id(p);
                        break;
                }
                case 1: { // unmount
                        Bytes p = some_path();
                        NodeM *nm = w.model->root ? w.model->node_at(p) : nullptr;
                        ush_node_object *obj = nm ? node_of(w, p) : nullptr;
                        if (started && p == "/" && !s.chance(1, 4))
                                break;
                        int r = api->unmount(w.real->obj, p.c_str());
                        int e = w.model->unmount(p);
                        c.note(fmt("unmount %s -> %d", p.c_str(), r));
                        CHECK(r == e, "unmount(\"%s\") returned %d, expected %d", p.c_str(), r, e);
                        if (e == USH_STATUS_OK) {
                                ok++;
                                if (obj)
                                        spare.push_back(obj);
                        } else
                                refused++;
                        c.id("-" + p);
                        break;
                }
                case 2: { // go somewhere
                        if (!idle)
                                break;
                        if (!started) {
                                w.start();
                                started = true;
                        }
                        Bytes p = some_path();
                        c.note("cd " + p);
                        w.type("cd " + p + "\r");
                        break;
                }
                case 3: {
                        if (!idle || !started)
                                break;
                        Bytes p = some_path();
                        c.note("ls " + p);
                        w.type("ls " + p + "\r");
                        w.type("pwd\r");
                        break;
                }
                default: { // through the API
                        if (!idle)
                                break;
                        Bytes p = some_path();
                        int r = api->set_cwd(w.real->obj, p.c_str());
                        NodeM *nm = w.model->node_at(p);
                        CHECK((r == USH_STATUS_OK) == (nm != nullptr), "set_current_dir(\"%s\") returned %d", p.c_str(), r);
                        if (nm)
                                w.model->cwd = nm;
                        break;
                }
                }
                check_tree(w);
                if (w.model->root)
                        CHECK(w.real->obj->current_node == node_of(w, w.model->cwd->path), "the working directory is not the mounted directory \"%s\"",
                              w.model->cwd->path.c_str());
        }
        if (w.model->root) {
                if (!started)
                        w.start();
                for (auto &t : w.all_dirs()) {
                        w.type("ls " + t + "\r", "final listing");
                        w.type("cd " + t + "\r");
                        w.type("cat f0 f1\r");
                }
        }
        c.label("tree operations", ok);
        c.label("refused operations", refused);
        c.nontrivial = ok >= 3 && refused >= 1;
}

// ------------------------------------------------------------------- ls (P07)
void p_ls(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        World w;
        WorldOpt o;
        o.max_nodes = 12;
        o.max_files = 6;
        o.max_groups = 1;
        o.allow_reset = false;
        gen_world(s, c, w, api, o);
        w.start();
        w.warm(s, c);
        int n = 0;
        while (s.more(n, 4, 12) || n == 0) {
                n++;
                auto d = w.all_dirs();
                for (int k = s.chance(1, 4) ? 1 + s.below(2) : 0; k > 0; k--)
                        w.remount(s, c, d[s.below((uint32_t)d.size())]);
                Bytes t = d[s.below((uint32_t)d.size())], l;
                switch (s.weighted({4, 4, 2, 1})) {
                case 0: l = "ls"; t = w.model->cwd->path; break;
                case 1: l = "ls " + quote_arg(s, gen_path_to(s, w.model->cwd->path, t)); break;
                case 2: l = "cd " + quote_arg(s, gen_path_to(s, w.model->cwd->path, t)); t = ""; break;
                default: { // not a directory
                        auto f = w.all_files();
                        l = "ls " + quote_arg(s, f.empty() || s.flip() ? gen_name(s, false) : gen_path_to(s, w.model->cwd->path, f[s.below((uint32_t)f.size())].first));
                        t = "";
                }
                }
                if (!pad_line(s, w, l))
                        continue;
                c.id(l);
                c.id(w.model->cwd->path);
                c.note("cwd " + w.model->cwd->path + " line \"" + vf_printable(l) + "\"");
                w.type(l + "\r", "listing");
                c.label("listings");
                if (!t.empty()) {
                        NodeM *nm = w.model->node_at(t);
                        if (nm && !nm->kids.empty() && !nm->files.empty())
                                c.nontrivial = true;
                }
        }
        c.id(world_str(w));
}

// ------------------------------------------------------------------ cat (P08)
void p_cat(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        World w;
        WorldOpt o;
        o.only_data = true;
        o.max_data = s.chance(1, 6) ? 2000 : 120;
        o.max_nodes = 5;
        o.max_files = 6;
        o.max_groups = 1;
        o.allow_reset = false;
        bool many = s.chance(1, 150);   // more operands than a byte counts
        if (many)
                o.min_in = 1200, o.max_data = 8;
        gen_world(s, c, w, api, o);
        w.model->log_get = w.real->log_get = true;
        w.real->one_buffer = s.chance(1, 4);
        w.start();
        w.warm(s, c);
        int n = 0;
        while (s.more(n, 3, 10) || n == 0) {
                n++;
                auto files = w.all_files();
                if (files.empty())
                        throw Discard();
                Bytes l = "cat";
                size_t total = 0;
                int k = 0, good = 0;
                if (many) {             // the shortest readable name, many times
                        c.label("many operands");
                        Bytes nm;
                        for (auto &f : files) {
                                size_t at = f.first.rfind('/');
                                if (f.second->get && f.first.substr(0, at ? at : 1) == w.model->cwd->path && w.model->find(f.first.substr(at + 1)) == f.second &&
                                    (nm.empty() || f.first.size() - at - 1 < nm.size()))
                                        nm = f.first.substr(at + 1);
                        }
                        if (nm.empty() || nm.find_first_of(" \"\\") != Bytes::npos)
                                throw Discard();
                        for (int i = 240 + (int)s.below(40); i > 0 && l.size() + 60 < w.model->capacity(); i--)
                                l += " " + nm;
                }
                while (s.more(k, 3, 6) || k == 0) {
                        k++;
                        Bytes p;
                        // mostly readable files
                        auto *e = &files[s.below((uint32_t)files.size())];
                        if (!e->second->get && !s.chance(1, 6))
                                for (auto &f : files)
                                        if (f.second->get && f.second != e->second)
                                                e = &f;
                        if (s.chance(1, 14))
                                p = gen_name(s, false);
                        else
                                p = gen_path_to(s, w.model->cwd->path, e->first);
                        if (p.size() > 1 && p.back() == '/')
                                p.pop_back();
                        auto cm = w.all_commands();
                        if (!cm.empty() && s.chance(1, 8))
                                p = cm[s.below((uint32_t)cm.size())]->name;
                        l += " " + quote_arg(s, p);
                        if (e->second->get) {
                                good++;
                                total += w.model->data[e->second->id].size();
                        }
                }
                if (!pad_line(s, w, l))
                        continue;
                // data may change between commands
                if (s.chance(1, 3)) {
                        auto &e = files[s.below((uint32_t)files.size())];
                        Bytes d = !many && s.chance(1, 500) ? huge_data(s) : gen_data(s, o.max_data);
                        w.model->data[e.second->id] = w.real->data[e.second->id] = d;
                }
                c.id(l);
                for (auto &f : files)
                        c.id(w.model->data[f.second->id]);
                c.note("cwd " + w.model->cwd->path + " line \"" + vf_printable(l) + "\"");
                Bytes e = w.model->feed(l + "\r"), g = w.real->type(l + "\r");
                CHECK(e == g, "\"%s\": output %s", vf_printable(l).c_str(), diff_str(e, g).c_str());
                CHECK(w.model->log == w.real->log, "\"%s\": callbacks expected %s, got %s", vf_printable(l).c_str(), events_str(w.model->log).c_str(),
                      events_str(w.real->log).c_str());
                size_t gets = 0;
                for (auto &ev : w.model->log)
                        gets += ev.kind == 'G';
                w.model->log.clear();
                w.real->log.clear();
                c.label("files printed", gets);
                if (gets >= 2 && total > 0)
                        c.nontrivial = true;
        }
}

// ------------------------------------------------------------------ xxd (P09)
static const uint32_t XXD_MAX = 49;
extern const uint64_t xxd_enum_count = 3 * XXD_MAX;
std::vector<uint32_t> xxd_enum(uint64_t i) { return {7, (uint32_t)(i % 3), (uint32_t)(i / 3)}; }

void p_xxd(Src &s, Ctx &c) {
        bool en = s.chance(1, 8);
        const vf_api *api = pick_target(s);
        World w;
        Sizes z;
        z.in = 64;
        z.out = api->columns * 3 + 2 + s.below(40);
        z.path = 200;
        z.out = std::max<size_t>(z.out, 16);
        w.create(api, z, "test", false);
        w.real->init();
        File f;
        f.name = "data";
        f.get = true;
        if (en) {
                uint32_t len = s.below(XXD_MAX);
                for (uint32_t i = 0; i < len; i++)
                        f.init_data += (char)(i * 37 + 11);
        } else {
                size_t cols = api->columns;
                switch (s.weighted({3, 3, 2})) {
                case 0: f.init_data = gen_data(s, 64); break;
                case 1: {
                        size_t n = cols * s.below(6) + (s.flip() ? 0 : s.below((uint32_t)cols + 1));
                        for (size_t i = 0; i < n; i++)
                                f.init_data += (char)(s.flip() ? s.below(256) : s.range(0x1e, 0x80));
                        break;
                }
                default: f.init_data = s.chance(1, 500) ? huge_data(s) : gen_data(s, 1200); break;
                }
        }
        f.get_unset = s.chance(1, 4);
        bool grp = s.chance(1, 8);
        f.set = s.flip();
        f.exec = s.chance(1, 4);
        f.beh = B_NOTHING;
        f.process = s.chance(1, 4);
        FileP fp = w.add_file(f);
        if (grp) {
                w.must_mount("/", {});
                w.add_group({fp});
        } else
                w.must_mount("/", {fp});
        w.start();
        if (!en)
                w.warm(s, c);
        const Bytes &d = f.init_data;
        c.id(d);
        c.note(fmt("[%s] %zu bytes: ", api->config_name, d.size()) + vf_printable(d, 200));
        c.nontrivial = !d.empty();
        c.label("bytes", d.size());
        Bytes pr = w.model->prompt();
        Inst &r = *w.real;
        r.log_get = true;
        int asked = 0;
        bool moving = s.chance(1, 4);   // new contents arrive while the dump is being printed
        r.nest = [&](Inst &) { asked += r.nest_kind == 'G'; };
        if (moving)
                r.write_gate = [&]() {
                        if (asked)
                                r.data[fp->id] = Bytes(r.out.size() % 5 + d.size() / 2, (char)('A' + r.out.size() % 26));
                        return true;
                };
        Bytes g = w.real->type("xxd data\r");
        r.nest = nullptr;
        r.write_gate = nullptr;
        r.data[fp->id] = d;
        CHECK(asked == 1, "one dump asked %d times for the data", asked);
        r.log.clear();
        r.log_get = false;
        Bytes head = "xxd data\r\n";
        CHECK(g.size() >= head.size() + pr.size() && g.compare(0, head.size(), head) == 0 && g.compare(g.size() - pr.size(), pr.size(), pr) == 0,
              "frame of the dump: \"%s\"", vf_printable(g).c_str());
        Bytes body = g.substr(head.size(), g.size() - head.size() - pr.size());
        // parse the dump back
        size_t cols = api->columns, at = 0, row = 0;
        Bytes back;
        while (at < body.size()) {
                size_t e = body.find("\r\n", at);
                CHECK(e != Bytes::npos, "dump row %zu is not terminated", row);
                Bytes r = body.substr(at, e - at);      // one row
                at = e + 2;
                CHECK(r.size() == 10 + cols * 3 + 1 + cols, "dump row %zu has %zu characters: \"%s\"", row, r.size(), vf_printable(r).c_str());
                CHECK(r.substr(0, 10) == fmt("%08zX: ", row * cols), "dump row %zu starts with \"%s\"", row, r.substr(0, 10).c_str());
                for (size_t k = 0; k < cols; k++) {
                        Bytes h = r.substr(10 + k * 3, 3);
                        char a = r[10 + cols * 3 + 1 + k];
                        if (row * cols + k < d.size()) {
                                unsigned char b = (unsigned char)d[row * cols + k];
                                CHECK(h == fmt("%02X ", b), "byte %zu (0x%02x) is shown as \"%s\"", row * cols + k, b, vf_printable(h).c_str());
                                CHECK(a == ((b >= 0x20 && b <= 0x7e) ? (char)b : '.'), "byte %zu (0x%02x) has the character '%s'", row * cols + k, b,
                                      vf_printable(Bytes(1, a)).c_str());
                                back += (char)strtoul(h.c_str(), nullptr, 16);
                        } else
                                CHECK(h == "   " && a == ' ', "column %zu beyond the data shows \"%s%c\"", k, h.c_str(), a);
                }
                CHECK(r[10 + cols * 3] == ' ', "separator");
                row++;
        }
        CHECK(back == d, "dump parses back to %zu bytes instead of %zu", back.size(), d.size());
        CHECK(row == std::max<size_t>(1, (d.size() + cols - 1) / cols), "dump of %zu bytes has %zu rows", d.size(), row);
        // refusals
        w.type("xxd\r");
        w.type("xxd nosuch\r");
        w.type("xxd data data\r");
}

// ----------------------------------------------------------------- echo (P10)
// one enumerated case is a slice of all two-byte escape forms
extern const uint64_t echo_enum_count = 256;
std::vector<uint32_t> echo_enum(uint64_t i) { return {11, (uint32_t)i}; }

static Bytes spell_echo(Src &s, const Bytes &d, bool &hex) {
        Bytes o;        // the argument as the command must receive it
        for (unsigned char b : d) {
                bool must = b < 0x20 || b == 0x7f || b >= 0x80;
                if (must ? !(b >= 0x80 && s.flip()) : s.chance(1, 8)) {
                        const char *dig = s.flip() ? "0123456789abcdef" : "0123456789ABCDEF";
                        o += "\\x";
                        o += dig[b >> 4];
                        o += dig[b & 15];
                        hex = true;
                } else if (b == '\\') { // a backslash needs its own escape inside the argument
                        o += s.flip() ? "\\\\" : "\\x5c";
                } else if (b != 'x' && s.chance(1, 12)) {
                        o += '\\';
                        o += (char)b;
                } else
                        o += (char)b;
        }
        return o;
}

void p_echo(Src &s, Ctx &c) {
        int mode = s.below(12) == 11;
        const vf_api *api = mode ? g_targets[0] : pick_target(s);
        World w;
        Sizes z;
        z.in = mode ? 64 : 40 + s.below(400);
        bool huge = !mode && s.chance(1, 4000); // more than two bytes count
        if (huge)
                z.in = 66000 + s.below(8000);
        z.out = std::max<size_t>(32, api->columns * 3 + 4);
        z.path = z.in + 64;
        w.create(api, z, "test", false);
        w.real->init();
        File f;
        f.name = "f";
        f.get = true;
        f.set = true;
        f.init_data = "old";
        if (!mode) {                    // other capabilities do not matter, nor where it is registered
                f.get = s.flip();
                f.exec = s.flip();
                f.beh = B_NOTHING;
                f.process = s.chance(1, 4);
                f.has_help = s.flip();
                f.help = "h";
        }
        FileP fp = w.add_file(f);
        File ro;
        ro.name = "ro";
        ro.get = true;
        FileP rp = w.add_file(ro);
        if (!mode && s.chance(1, 4)) {
                w.must_mount("/", {});
                w.add_group({rp, fp});
        } else
                w.must_mount("/", {fp, rp});
        w.start();
        if (!mode && !huge)
                w.warm(s, c);
        auto stored = [&](const Bytes &line, const Bytes &d) {
                Bytes g = w.real->type(line + "\r");
                Bytes e = line + "\r\n" + w.model->prompt();
                Event ev{'S', fp->id, {d}};
                CHECK(w.real->log.size() == 1 && w.real->log[0] == ev, "\"%s\" stored %s, expected %s", vf_printable(line).c_str(),
                      events_str(w.real->log).c_str(), ev.str().c_str());
                CHECK(g == e, "\"%s\" printed %s", vf_printable(line).c_str(), diff_str(e, g).c_str());
                w.real->log.clear();
        };
        auto shown = [&](const Bytes &line, const Bytes &d) {
                Bytes g = w.real->type(line + "\r");
                Bytes e = line + "\r\n" + d + "\r\n" + w.model->prompt();
                CHECK(g == e, "\"%s\" printed %s", vf_printable(line).c_str(), diff_str(e, g).c_str());
                CHECK(w.real->log.empty(), "\"%s\" called %s", vf_printable(line).c_str(), events_str(w.real->log).c_str());
        };
        if (huge) {
                Rng r(s.below(1u << 30), 4);
                Bytes d, sp;
                size_t len = s.flip() ? 65500 + s.below(100) : z.in - 40 - s.below(200);
                while (sp.size() < len) {
                        uint64_t v = r.next() % 2000;
                        char ch = (char)('a' + v % 26);
                        sp += v ? Bytes(1, ch) : fmt("\\x%02x", ch);
                        d += ch;
                }
                if (s.flip())
                        stored("echo " + sp + " > f", d);
                else
                        shown("echo " + sp, d);
                c.label("huge arguments");
                c.id(sp);
                c.note(fmt("echo of %zu characters", d.size()));
                c.nontrivial = true;
                return;
        }
        if (mode) {
                uint32_t b = s.below(256);
                for (int k = 0; k < 4; k++) {
                        Bytes h = fmt(k & 1 ? "\\x%02X" : "\\x%02x", b);
                        Bytes l = k & 2 ? "a" + h + "b" : h;
                        Bytes d = k & 2 ? Bytes("a") + (char)b + "b" : Bytes(1, (char)b);
                        stored("echo " + l + " > f", d);
                        if (b)
                                shown("echo " + l, d);
                        c.id(l);
                }
                if (b >= 0x21 && b < 0x7f && b != '"' && b != '\\') {
                        stored(Bytes("echo ") + (char)b + " > f", Bytes(1, (char)b));
                        shown(Bytes("echo ") + (char)b, Bytes(1, (char)b));
                }
                c.note(fmt("every spelling of byte 0x%02x", b));
                c.nontrivial = true;
                return;
        }
        int n = 0;
        while (s.more(n, 4, 12) || n == 0) {
                n++;
                bool hex = false, to_file = s.flip();
                Bytes d = gen_data(s, s.chance(1, 5) ? 90 : 12);
                if (!to_file)
                        d = d.substr(0, d.find('\0'));
                Bytes arg = spell_echo(s, d, hex);
                Bytes l = "echo " + quote_arg(s, arg);
                Bytes tail = to_file ? " > f" : "";
                if (l.size() + tail.size() > z.in - 2)
                        continue;
                l += tail;
                c.id(l);
                c.note("line \"" + vf_printable(l) + "\" data \"" + vf_printable(d) + "\"");
                if (to_file)
                        stored(l, d);
                else
                        shown(l, d);
                if (to_file)
                        w.model->data[fp->id] = d;
                if (hex)
                        c.nontrivial = true;
                c.label(to_file ? "stored" : "shown");
                if (f.get && s.chance(1, 4)) { // what is stored is what is read back
                        Bytes g = w.real->type("cat f\r");
                        CHECK(g == "cat f\r\n" + w.real->data[fp->id] + w.model->prompt(), "cat after echo: \"%s\"", vf_printable(g).c_str());
                        CHECK(w.real->data[fp->id] == w.model->data[fp->id], "stored data");
                }
                if (s.chance(1, 6)) {
                        static const std::vector<Bytes> bad = {"echo x > ro", "echo x > none", "echo x y", "echo x y f", "echo x > f g", "echo x >> f", "echo x > f > f"};
                        Bytes b = s.pick(bad);
                        w.type(b + "\r", "refusal");
                }
        }
}

// ------------------------------------------------------------------ TAB (P11)
void p_tab(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        World w;
        Sizes z;
        bool tight = s.flip();
        z.in = tight ? 4 + s.below(36) : 80 + s.below(100);
        z.out = std::max<size_t>(64, api->columns * 3 + 8);
        Bytes pre;                      // sometimes every name is longer than a byte counts
        if (s.chance(1, 150)) {
                pre = Bytes(s.flip() ? 250 + s.below(10) : 20 + s.below(600), 'L');
                z.in = tight ? pre.size() + s.below(12) + 4 : 1400;
                c.label("very long names");
        }
        z.path = 300 + z.in + 8 * pre.size();
        w.create(api, z, s.flip() ? "test" : "", s.flip());
        w.real->init();
        static const std::vector<Bytes> tn = {"a", "ab", "abc", "abcd", "abce", "abcdefgh", "b", "ba", "bab", "c", "data", "date", "dat", "d",
                                              "he", "hello", "help", "l", "lsx", "ls", "x", "xx", "xxdump", "very_long_name_for_completion_1",
                                              "very_long_name_for_completion_2", "A", "n e", "n\"e", "pwdx", "echo1"};
        auto files = [&](size_t max) {
                std::vector<FileP> v;
                std::set<Bytes> u;
                while (s.more(u.size(), 3, max)) {
                        Bytes n = pre + (s.below(6) == 5 ? gen_name(s, true) : s.pick(tn));
                        if (!u.insert(n).second)
                                continue;
                        File f;
                        f.name = n;
                        f.exec = true;
                        f.beh = B_NOTHING;
                        if (s.flip()) {
                                f.get = true;
                                f.init_data = Bytes(s.below(api->columns * 2 + 2), 'd');
                        }
                        v.push_back(w.add_file(f));
                }
                return v;
        };
        w.must_mount("/", files(6));
        std::vector<Bytes> dirs = {"/"};
        while (s.more(dirs.size(), 4, 8)) {
                Bytes p = join_path(dirs[s.below((uint32_t)dirs.size())], pre + s.pick(tn));
                if (w.model->node_at(p))
                        continue;
                w.must_mount(p, files(4));
                dirs.push_back(p);
        }
        int ng = 0;
        while (s.more(ng, 1, 2)) {
                ng++;
                auto f = files(4);
                if (!f.empty())
                        w.add_group(f);
        }
        bool crowd = s.chance(1, 300);  // more candidates than a byte counts
        if (crowd) {
                int kind = (int)s.below(3), num = 254 + (int)s.below(s.flip() ? 6 : 80);
                std::vector<FileP> v;
                for (int i = 0; i < num; i++) {
                        File f;
                        f.name = fmt("n%d%02d", i % 10, i / 10);
                        f.exec = true;
                        f.beh = B_NOTHING;
                        if (kind == 0)
                                w.must_mount("/" + f.name, {});
                        else
                                v.push_back(w.add_file(f));
                }
                if (kind == 1)
                        w.must_mount("/crowd", v);
                if (kind == 2)
                        w.add_group(v);
                c.label("more than 250 names");
        }
        w.start();
        if (!crowd && pre.empty() && z.in >= 24)
                w.warm(s, c);
        c.note(crowd ? "a crowded directory" : world_str(w));
        size_t cap = z.in - 2;
        int n = 0;
        if (crowd) {
                if (w.model->node_at("/crowd") && cap >= 8)
                        w.type("cd crowd\r", "directory change");
                w.type("n\t\t", "completion output");
                c.nontrivial = true;
                w.type(s.flip() ? "\r" : "0\t", "completion output");
        }
        while (s.more(n, 6, 30) || (n == 0 && !crowd)) {
                n++;
                Bytes k;
                switch (s.weighted({6, 8, 2, 2, 2, 2, 1, 1})) {
                case 7: { // other work in between
                        if (!w.model->line.empty())
                                k = "\r";
                        auto fs = w.all_files();
                        Bytes t = fs.empty() ? Bytes("xx") : fs[s.below((uint32_t)fs.size())].first;
                        int what = pre.empty() ? s.weighted({4, 1, 1, 1}) : 0;
                        t = what == 0 ? "xxd " + quote_arg(s, t) : what == 1 ? "cat " + quote_arg(s, t) : Bytes(what == 2 ? "ls" : "help");
                        if (t.size() <= cap)
                                k += t + "\r";
                        break;
                }
                case 0: { // part of a known name
                        Bytes t = pre + (s.below(6) == 5 ? gen_name(s, true) : s.pick(tn));
                        k = t.substr(0, 1 + s.below((uint32_t)t.size()));
                        break;
                }
                case 1: k = "\t"; break;
                case 2: k = " "; break;
                case 3: k = s.flip() ? "\x7f" : "\x08"; break;
                case 4: k = s.flip() ? "\r" : "\n"; break;
                case 5: { // directory change
                        if (!w.model->line.empty())
                                k = "\r";
                        auto d = w.all_dirs();
                        Bytes t = "cd " + quote_arg(s, d[s.below((uint32_t)d.size())]);
                        if (t.size() <= cap)
                                k += t + "\r";
                        break;
                }
                default: k = (s.flip() ? "/" : "../"); break;
                }
                if (w.model->line.size() + k.size() > cap && k[0] != '\t' && k[0] != '\r' && k[0] != '\n' && k[0] != '\x7f' && k[0] != '\x08')
                        k = k.substr(0, cap - w.model->line.size());
                if (k.empty())
                        k = "\t";
                if ((w.model->line + k).find("//") != Bytes::npos)
                        continue;
                if (k == "\t" && s.chance(1, 3))
                        k = "\t\t";
                size_t before = w.model->line.size();
                size_t ob = w.model->out.size();
                c.id(k);
                c.note("type \"" + vf_printable(k) + "\" on \"" + vf_printable(w.model->line) + "\"");
                w.type(k, "completion output");
                CHECK(w.model->line.size() <= cap, "model line too long");
                if (k[0] == '\t') {
                        if (w.model->line.size() > before)
                                c.nontrivial = true, c.label("completed");
                        else if (w.model->out.size() > ob)
                                c.nontrivial = true, c.label("listed");
                        else
                                c.label("nothing");
                        if (w.model->line.size() >= cap)
                                c.label("line full");
                }
        }
        // the line in the shell is the line on the screen: run it
        w.type("\r", "final line");
}

// ----------------------------------------------------------------- flow (P12)
void p_flow(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        WorldOpt o;
        o.max_nodes = 5;
        o.max_data = 60;
        // the same world twice: generate once, rebuild from the recorded choices
        World a, b;
        size_t at = s.rec.size();
        gen_world(s, c, a, api, o);
        std::vector<uint32_t> ch(s.rec.begin() + at, s.rec.end());
        {
                Src r;
                r.replay = &ch;
                Ctx c2;
                gen_world(r, c2, b, api, o);
        }
        a.start();
        b.real->run();
        b.real->take();
        Bytes input;
        int n = 0;
        while (s.more(n, 3, 10) || n == 0) {
                n++;
                switch (s.weighted({6, 1, 1})) {
                case 0: input += gen_cmdline(s, a, o) + (s.flip() ? "\r" : "\n"); break;
                case 1: input += gen_name(s, false).substr(0, 2) + "\t" + (s.flip() ? "\r" : "\x03"); break;
                default: input += "ab\x7f\x1b[Ac\x08\x03"; break;
                }
        }
        c.id(input);
        c.note("input \"" + vf_printable(input) + "\"");
        a.real->type(input);
        Bytes want = a.real->take();
        // schedules: a pattern per direction
        int wk = s.weighted({3, 2, 1}), rk = s.weighted({2, 2, 2});
        uint32_t wn = 1 + s.below(9), rn = 1 + s.below(9), seedv = s.below(1u << 30);
        bool per_step = s.flip();
        Rng rg(seedv, 5);
        size_t burst_w = 0, burst_r = 0;
        Inst *in = b.real.get();
        in->write_gate = [&, wk, wn]() -> bool {
                switch (wk) {
                case 0: return rg.next() % (wn + 1) == 0;
                case 1:
                        if (burst_w) {
                                burst_w--;
                                return false;
                        }
                        if (rg.next() % 17 == 0)
                                burst_w = wn * 3;
                        return true;
                default: return rg.next() % 2;
                }
        };
        // now and then the device stands still for long: hundreds of attempts, rarely more than 65536
        struct Stall {
                bool write;
                unsigned long at, left;         // after this many transfers, for this many attempts
        };
        std::vector<Stall> stalls;
        unsigned long stall_sum = 0;
        while (s.chance(1, 4) && stalls.size() < 4) {
                Stall t;
                t.write = s.flip();
                t.at = s.below((uint32_t)(t.write ? want.size() : input.size()) + 1);
                t.left = s.chance(1, 150) ? 65530 + s.below(3000) : 100 + s.below(900);
                stall_sum += t.left;
                stalls.push_back(t);
                c.note(fmt("%s stops for %lu attempts after %lu transfers", t.write ? "output" : "input", t.left, t.at));
        }
        unsigned long written = 0, taken = 0;
        auto stalled = [&](bool write) {
                for (auto &t : stalls)
                        if (t.write == write && t.left && t.at <= (write ? written : taken)) {
                                t.left--;
                                return true;
                        }
                return false;
        };
        auto jitter_w = in->write_gate;
        in->write_gate = [&]() -> bool {
                if (stalled(true) || !jitter_w())
                        return false;
                written++;
                return true;
        };
        std::function<bool()> jitter_r;
        jitter_r = [&, rk, rn]() -> bool {
                switch (rk) {
                case 0: return true;
                case 1: return rg.next() % (rn + 1) == 0;
                default:
                        if (burst_r) {
                                burst_r--;
                                return false;
                        }
                        if (rg.next() % 7 == 0)
                                burst_r = rn;
                        return true;
                }
        };
        in->read_gate = [&]() -> bool {
                if (stalled(false) || !jitter_r())
                        return false;
                taken++;
                return true;
        };
        (void)per_step;
        in->in.insert(in->in.end(), input.begin(), input.end());
        unsigned long budget = 60ul * (want.size() + input.size() * 8 + 2000) * (std::max(wn, rn) + 2) + 2 * stall_sum;
        unsigned long steps = 0;
        while (true) {
                in->step();
                steps++;
                if (!in->io_error.empty())
                        vf_fail("%s", in->io_error.c_str());
                CHECK(in->read_calls + in->write_calls <= 1, "one service call made %d read and %d write attempts", in->read_calls, in->write_calls);
                if (in->starved && in->in.empty())
                        break;
                CHECK(steps < budget, "no progress: %lu service calls, %zu of %zu output bytes", steps, in->out.size(), want.size());
        }
        CHECK(in->out == want, "output under refused reads and writes differs %s", diff_str(want, in->out).c_str());
        CHECK(in->log == a.real->log, "callbacks under refused reads and writes differ: expected %s, got %s", events_str(a.real->log).c_str(),
              events_str(in->log).c_str());
        CHECK(in->data == a.real->data, "file contents differ");
        c.label("refused writes", in->refused);
        c.nontrivial = in->refused >= 10 && input.find_first_of("\r\n") != Bytes::npos;
}
