// Whole sessions: everything a user and an application do to one shell, in any
// order, against the reference model.
#include "props.hpp"

namespace {

struct Spare {                  // descriptor tables and node objects the application has used before
        std::vector<FileArray> dirs, cmds;
        std::vector<ush_node_object *> nodes;
};

// what a line prints depends on nothing but the model; lines must fit
bool fits(const World &w, const Bytes &l) {
        size_t n = w.model->line.size();
        for (char ch : l)
                if (ch == '\r' || ch == '\n')
                        n = 0;
                else if ((ch == '\x08' || ch == '\x7f'))
                        n -= n > 0;
                else if (++n > w.model->capacity())
                        return false;
        return true;
}

// the same command line, typed by someone who makes mistakes
Bytes typed_with_noise(Src &s, const Bytes &l, size_t room) {
        static const std::vector<Bytes> noise = {"\x1b[A", "\x1b[B", "\x1b[C", "\x1b\x1b[D", "\x1bOD", "\x1bOH", "\x1bx", "q\x08", "zz\x7f\x08", " \x7f", "\"\x08", "\\\x7f"};
        Bytes o;
        size_t n = 0;
        for (size_t i = 0; i <= l.size(); i++) {
                if (s.chance(1, 12) && n < 8 && room > l.size() + 2) {
                        n++;
                        o += s.pick(noise);
                }
                if (i < l.size())
                        o += l[i];
        }
        return o;
}

}

void p_session(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        WorldOpt o;
        o.max_nodes = 6;
        o.max_data = 60;
        o.small_buffers = s.flip();
        o.min_in = s.chance(1, 4) ? 24 : 96;
        World w;
        gen_world(s, c, w, api, o);
        Inst &r = *w.real;
        Model &m = *w.model;
        r.log_get = m.log_get = s.flip();
        Spare spare;
        std::map<Bytes, std::pair<FileArray, ush_node_object *>> at;
        for (auto &x : w.mounts) {
                at[x.path] = {x.arr, x.node};
                spare.dirs.push_back(x.arr);
        }
        for (auto &g : w.group_tables)
                spare.cmds.push_back(g.second);
        w.start();
        uint32_t jitter_r = 0, jitter_w = 0;
        uint64_t tick = s.below(1u << 30);
        auto jitter = [&](uint32_t d) {
                return [&tick, d]() { return Rng::mix(tick) % d != 0; };
        };
        std::set<int> kinds;
        auto synced = [&](const char *what) {
                Bytes real = r.obj->current_node->path;
                CHECK(real == m.cwd->path, "%s the working directory is \"%s\", expected \"%s\"", what, vf_printable(real).c_str(), vf_printable(m.cwd->path).c_str());
                for (auto &d : m.data)
                        CHECK(r.data[d.first] == d.second, "%s file %d holds \"%s\", expected \"%s\"", what, d.first, vf_printable(r.data[d.first]).c_str(),
                              vf_printable(d.second).c_str());
        };
        auto type = [&](const Bytes &b) {
                c.id(b);
                c.note("type \"" + vf_printable(b, 200) + "\"");
                w.type(b);
        };
        auto clean = [&]() {
                if (!m.line.empty() || m.esc)
                        type("\x03");
        };
        // output the application causes while the shell is idle: then a new prompt and an empty line
        auto printed = [&](const Bytes &e, const char *what) {
                Bytes want = e + m.prompt();
                m.line.clear();
                m.out += want;
                r.run();
                Bytes got = r.take();
                CHECK(got == want, "%s %s", what, diff_str(want, got).c_str());
                CHECK(r.log.empty(), "%s ran callbacks: %s", what, events_str(r.log).c_str());
        };
        auto new_files = [&](bool cmd) {
                std::vector<FileP> v;
                std::set<Bytes> used;
                while (s.more(v.size(), 2, 4)) {
                        Bytes nm = gen_name(s, o.wild_names);
                        if (used.insert(nm).second)
                                v.push_back(gen_file(s, w, o, nm, cmd));
                }
                return v;
        };
        auto free_node = [&]() -> ush_node_object * {
                if (spare.nodes.empty() || s.flip())
                        return nullptr;
                size_t k = s.below((uint32_t)spare.nodes.size());
                ush_node_object *n = spare.nodes[k];
                spare.nodes.erase(spare.nodes.begin() + k);
                if (s.flip())
                        memset((void *)n, (int)s.below(256), sizeof *n);
                return n;
        };
        auto some_dir = [&]() {
                auto d = w.all_dirs();
                return d[s.below((uint32_t)d.size())];
        };
        auto mount_at = [&](const Bytes &p) {
                const FileArray *t = !spare.dirs.empty() && s.flip() ? &spare.dirs[s.below((uint32_t)spare.dirs.size())] : nullptr;
                std::vector<FileP> fl = t ? t->files : new_files(false);
                ush_node_object *n = free_node();
                auto rr = w.mount(p, fl, t, n);
                CHECK(rr.first == rr.second, "mount(\"%s\") returned %d, expected %d", vf_printable(p).c_str(), rr.first, rr.second);
                if (rr.first == USH_STATUS_OK) {
                        at[p] = {w.mounts.back().arr, w.mounts.back().node};
                        spare.dirs.push_back(w.mounts.back().arr);
                } else if (n)
                        spare.nodes.push_back(n);
                c.note(fmt("mount %s: %d", vf_printable(p).c_str(), rr.first));
        };
        int ops = 0, lines = 0;
        std::vector<Bytes> history, vacant;
        int total = s.chance(1, 40) ? 60 : 16;
        while (s.more(ops, total, total * 2) || ops < 2) {
                ops++;
                int kind = s.weighted({10, 4, 1, 2, 2, 2, 2, 1, 1, 1, 2, 2, 1});
                c.id(kind);
                kinds.insert(kind);
                switch (kind) {
                case 0: { // a command line
                        Bytes l;
                        if (!history.empty() && s.chance(1, 3)) // again, after other things have happened
                                l = history[history.size() - 1 - s.below((uint32_t)std::min<size_t>(history.size(), 4))];
                        else
                                history.push_back(l = gen_cmdline(s, w, o));
                        if (!fits(w, l))
                                type("\x03");
                        size_t room = m.capacity() - m.line.size();
                        if (s.chance(1, 3))
                                l = typed_with_noise(s, l, room);
                        if (!fits(w, l))
                                break;
                        lines++;
                        type(l + (s.flip() ? "\r" : "\n"));
                        break;
                }
                case 1: { // keys
                        Bytes l;
                        switch (s.below(6)) {
                        case 0: l = "\t"; break;
                        case 1: l = s.flip() ? "\x08" : "\x7f"; break;
                        case 2: l = s.flip() ? "\x1b[A" : s.flip() ? "\x1b" : "\x1b["; break;
                        case 3: l = " "; break;
                        case 4: {
                                Bytes n = gen_name(s, false);
                                l = n.substr(0, 1 + s.below((uint32_t)n.size()));
                                break;
                        }
                        default: {
                                auto f = w.all_files();
                                Bytes p = f.empty() || s.flip() ? some_dir() : f[s.below((uint32_t)f.size())].first;
                                p = gen_path_to(s, m.cwd->path, p);
                                l = " " + p.substr(0, 1 + s.below((uint32_t)p.size()));
                        }
                        }
                        if (s.flip())
                                l += "\t";
                        if (!fits(w, l))
                                break;
                        if ((m.line + l).find("//") != Bytes::npos)
                                break;
                        type(l);
                        break;
                }
                case 2:
                        type("\x03");
                        break;
                case 3: { // the application prints
                        Bytes t = gen_text(s, s.chance(1, 6) ? r.sizes.out + 40 : 30);
                        int k = (int)s.below(5);
                        c.note(fmt("application prints, kind %d \"%s\"", k, vf_printable(t).c_str()));
                        c.id(t);
                        if (m.esc)
                                type("\x03");
                        r.take();
                        switch (k) {
                        case 0:
                                api->print(r.obj, r.heap.str(t));
                                printed(t + "\r\n", "print");
                                break;
                        case 1:
                                api->print_no_newline(r.obj, r.heap.str(t));
                                printed(t, "print_no_newline");
                                break;
                        case 2: {
                                t = t.substr(0, r.sizes.out - 4);
                                api->printf_(r.obj, "%s", t.c_str());
                                printed(t, "printf");
                                break;
                        }
                        case 3: {
                                int st = (int)s.below(USH_STATUS__TOTAL_NUM);
                                api->print_status(r.obj, (ush_status_t)st);
                                printed(m.status(st) + "\r\n", "print_status");
                                break;
                        }
                        default:
                                t = t.substr(0, r.sizes.out - 1);
                                memcpy(r.desc->output_buffer, t.c_str(), t.size() + 1);
                                api->flush(r.obj);
                                printed(t, "flush");
                        }
                        break;
                }
                case 4: { // a directory comes
                        Bytes p = join_path(some_dir(), gen_name(s, o.wild_names));
                        if (s.chance(1, 8))
                                p = join_path(p, gen_name(s, false));
                        if (!vacant.empty() && s.flip())
                                p = vacant[vacant.size() - 1 - s.below((uint32_t)std::min<size_t>(vacant.size(), 3))];
                        if (std::count(p.begin(), p.end(), '/') > 5 || p.size() > 100)
                                break;
                        mount_at(p);
                        break;
                }
                case 5: { // a directory goes
                        Bytes p = some_dir();
                        if (s.chance(1, 8))
                                p = join_path(p, gen_name(s, false));
                        if (p == "/")
                                break;
                        auto rr = w.unmount(p);
                        CHECK(rr.first == rr.second, "unmount(\"%s\") returned %d, expected %d", vf_printable(p).c_str(), rr.first, rr.second);
                        c.note(fmt("unmount %s: %d", vf_printable(p).c_str(), rr.first));
                        if (rr.first == USH_STATUS_OK) {
                                spare.nodes.push_back(at[p].second);
                                vacant.push_back(p);
                                at.erase(p);
                        }
                        break;
                }
                case 6: // commands come and go
                        if (s.flip() && !w.group_nodes.empty()) {
                                size_t k = s.below((uint32_t)w.group_nodes.size());
                                auto g = w.group_nodes[k];
                                int rc = api->cmd_remove(r.obj, g.second);
                                CHECK(rc == USH_STATUS_OK, "removing a command group returned %d", rc);
                                w.group_nodes.erase(w.group_nodes.begin() + k);
                                for (size_t i = 0; i < m.groups.size(); i++)
                                        if (m.groups[i].id == g.first) {
                                                m.groups.erase(m.groups.begin() + i);
                                                break;
                                        }
                                spare.nodes.push_back(g.second);
                                c.note("remove a command group");
                        } else if (w.group_nodes.size() < 5) {
                                const FileArray *t = !spare.cmds.empty() && s.flip() ? &spare.cmds[s.below((uint32_t)spare.cmds.size())] : nullptr;
                                auto fl = t ? t->files : new_files(true);
                                FileArray copy;
                                if (t)
                                        copy = *t;
                                if (fl.empty())
                                        break;
                                int id = w.add_group(fl, t ? &copy : nullptr, free_node());
                                if (!t)
                                        spare.cmds.push_back(w.group_tables[id]);
                                c.note("add a command group of " + std::to_string(fl.size()));
                        }
                        break;
                case 7: { // the application changes the working directory
                        Bytes p = gen_path_to(s, m.cwd->path, some_dir());
                        if (s.chance(1, 6))
                                p = gen_name(s, false);
                        if (p.size() + m.cwd->path.size() + 2 > r.sizes.path || p.find("//") != Bytes::npos)
                                break;
                        NodeM *n = m.find_dir(p);
                        int e = n ? USH_STATUS_OK : USH_STATUS_ERROR_NODE_NOT_FOUND;
                        int rc = api->set_cwd(r.obj, p.c_str());
                        CHECK(rc == e, "set_cwd(\"%s\") returned %d, expected %d", vf_printable(p).c_str(), rc, e);
                        if (n)
                                m.cwd = n;
                        c.note("set_cwd " + vf_printable(p));
                        break;
                }
                case 8: // starting over
                        c.note("reset");
                        api->reset(r.obj);
                        m.cwd = m.root;
                        m.line.clear();
                        m.esc = 0;
                        w.start();
                        break;
                case 9: { // taken down and put up again
                        c.note("deinit and init");
                        api->deinit(r.obj);
                        std::vector<std::pair<Bytes, std::pair<FileArray, ush_node_object *>>> old(at.begin(), at.end());
                        std::vector<std::pair<int, ush_node_object *>> og = w.group_nodes;
                        auto tables = w.group_tables;
                        for (auto &n : og)
                                spare.nodes.push_back(n.second);
                        for (auto &n : old)
                                spare.nodes.push_back(n.second.second);
                        w.group_nodes.clear();
                        w.mounts.clear();
                        at.clear();
                        m.tree.clear();
                        m.root = m.cwd = nullptr;
                        while (!m.groups.empty() && m.groups[0].id >= 0)
                                m.groups.erase(m.groups.begin());
                        m.line.clear();
                        m.esc = 0;
                        if (s.flip())
                                memset((void *)r.obj, (int)s.below(256), api->object_size);
                        r.init();
                        for (auto &x : old) {
                                if (x.first != "/" && (s.chance(1, 5) || !m.parent_of(x.first)))
                                        continue;
                                auto rr = w.mount(x.first, x.second.first.files, &x.second.first, free_node());
                                CHECK(rr.first == USH_STATUS_OK && rr.second == USH_STATUS_OK, "mounting \"%s\" again returned %d", x.first.c_str(), rr.first);
                                at[x.first] = {w.mounts.back().arr, w.mounts.back().node};
                        }
                        for (auto &g : og)
                                if (s.flip())
                                        w.add_group(tables[g.first].files, &tables[g.first], free_node());
                        w.start();
                        break;
                }
                case 10: { // the contents of a file change by themselves
                        auto f = w.all_files();
                        if (f.empty())
                                break;
                        int id = f[s.below((uint32_t)f.size())].second->id;
                        m.data[id] = r.data[id] = gen_data(s, o.max_data);
                        c.note(fmt("contents of file %d change", id));
                        break;
                }
                case 11: // input and output become more or less ready
                        jitter_r = s.below(5);
                        jitter_w = s.below(5);
                        r.read_gate = jitter_r > 1 ? std::function<bool()>(jitter(jitter_r)) : nullptr;
                        r.write_gate = jitter_w > 1 ? std::function<bool()>(jitter(jitter_w)) : nullptr;
                        c.note(fmt("gates %u %u", jitter_r, jitter_w));
                        break;
                default: // nothing to do for a while
                        for (uint32_t i = 0, n = s.chance(1, 2000) ? 65530 + s.below(2000) : s.chance(1, 10) ? 250 + s.below(800) : s.below(12); i < n; i++)
                                r.step();
                        CHECK(r.out.empty() || m.out.size(), "idle output");
                }
                if (s.chance(1, 600)) { // much of the same
                        clean();
                        std::vector<Bytes> v;
                        int k = 1 + (int)s.below(3);
                        while (k--) {
                                Bytes l = s.flip() ? gen_cmdline(s, w, o).substr(0, 24) : s.flip() ? Bytes("a\t\x03") : s.flip() ? Bytes("\x1b[A") : Bytes("pwd");
                                if (l.find('\t') == Bytes::npos)
                                        l += "\r";
                                if (fits(w, l))
                                        v.push_back(l);
                        }
                        int rep = 200 + (int)s.below(500);
                        if (s.chance(1, 50)) { // more lines than a 16-bit counter counts
                                Bytes many;
                                Bytes one = s.flip() ? "\r" : "x\r";
                                for (int i = 0; i < 500; i++)
                                        many += one;
                                for (int i = 0; i < 132; i++) {
                                        w.type(many, "output of many lines");
                                        r.take();
                                        m.out.clear();
                                }
                                c.label("more than 65536 lines");
                        }
                        c.note(fmt("%d times:", rep));
                        c.label("long repetition");
                        for (int i = 0; i < rep && !v.empty(); i++) {
                                w.type(v[i % v.size()], "repeated output");
                                r.take();
                                m.out.clear();
                        }
                }
                synced("afterwards");
                r.out.clear();
                m.out.clear();
        }
        // the whole tree as a user sees it
        if (m.esc || !m.line.empty())
                type("\x03");
        for (auto &d : w.all_dirs()) {
                if (d.find(' ') != Bytes::npos || d.find('"') != Bytes::npos || d.find('\\') != Bytes::npos || d.size() + 4 > m.capacity())
                        continue;
                if (s.flip())
                        w.type("ls " + d + "\r", "final listing");
        }
        w.type("help\r", "final command list");
        c.label("operations", ops);
        c.label("command lines", lines);
        c.nontrivial = kinds.size() >= 4 && lines >= 2;
}
