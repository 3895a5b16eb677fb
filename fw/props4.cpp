// The tree and the command groups change while the shell is in the middle of
// an answer.
#include "props.hpp"

// absent in the ThreadSanitizer build
extern "C" __attribute__((weak)) void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" __attribute__((weak)) void __asan_unpoison_memory_region(void const volatile *, size_t);

namespace {

struct Gone {                   // node objects whose owner got them back
        std::vector<ush_node_object *> nodes;
        ~Gone() {
                for (auto *n : nodes)
                        if (__asan_unpoison_memory_region)
                                __asan_unpoison_memory_region(n, sizeof *n);
        }
        void forget(ush_node_object *n) {       // from now on nobody may look at it
                memset(n, 0xDD, sizeof *n);
                if (__asan_poison_memory_region)
                        __asan_poison_memory_region(n, sizeof *n);
                nodes.push_back(n);
        }
};

// Everything that was present for a moment, and what was present all the time.
struct Presence {
        std::vector<Bytes> always;      // in listing order
        std::set<Bytes> ever;
        void start(const std::vector<Bytes> &v) {
                always = v;
                ever.insert(v.begin(), v.end());
        }
        void now(const std::vector<Bytes> &v) {
                std::set<Bytes> s(v.begin(), v.end());
                std::vector<Bytes> a;
                for (auto &x : always)
                        if (s.count(x))
                                a.push_back(x);
                always = a;
                ever.insert(v.begin(), v.end());
        }
        // `seen` are the entries of one complete walk
        void judge(const std::vector<Bytes> &seen, const char *what) const {
                std::map<Bytes, int> cnt;
                for (auto &x : seen) {
                        CHECK(ever.count(x), "%s shows \"%s\", which was never there", what, vf_printable(x).c_str());
                        CHECK(++cnt[x] == 1, "%s shows \"%s\" twice", what, vf_printable(x).c_str());
                }
                std::vector<Bytes> kept;
                std::set<Bytes> a(always.begin(), always.end());
                for (auto &x : seen)
                        if (a.count(x))
                                kept.push_back(x);
                for (auto &x : always)
                        CHECK(cnt.count(x), "%s does not show \"%s\", which was there all the time", what, vf_printable(x).c_str());
                CHECK(kept == always, "%s changes the order of entries that stayed", what);
        }
};

std::vector<Bytes> lines_of(const Bytes &b) {
        std::vector<Bytes> v;
        size_t i = 0;
        while (i < b.size()) {
                size_t j = b.find("\r\n", i);
                if (j == Bytes::npos) {
                        v.push_back(b.substr(i));
                        break;
                }
                v.push_back(b.substr(i, j + 2 - i));
                i = j + 2;
        }
        return v;
}

}

void p_midway(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        World w;
        Sizes z;
        z.in = 160;
        z.out = std::max<size_t>(96, api->columns * 3 + 8);
        z.path = 300;
        w.create(api, z, "test", s.flip());
        w.real->init();
        Inst &r = *w.real;
        Gone gone;
        int fid = 0;
        auto mk = [&](size_t max, bool cmd) {
                std::vector<FileP> v;
                while (s.more(v.size(), 2, max) || (cmd && v.empty())) {
                        File f;
                        f.name = fmt("%c%d", cmd ? 'k' : 'f', fid++ % 100);
                        if (cmd)
                                f.exec = true, f.beh = B_PRINT, f.texts = {f.name + " runs"};
                        else {
                                f.get = s.below(5) != 4;
                                f.exec = s.flip();
                                f.beh = B_PRINT;
                                f.texts = {f.name + " runs"};
                                f.init_data = s.chance(1, 5) ? Bytes() : fmt("<data %d>\n", fid);
                        }
                        f.has_desc = s.flip();
                        f.desc = fmt("about %d", fid);
                        bool dup = false;
                        for (auto &x : v)
                                dup |= x->name == f.name;
                        if (!dup)
                                v.push_back(w.add_file(f));
                }
                return v;
        };
        static const std::vector<Bytes> dn = {"a", "ab", "abc", "b", "d1", "d2", "d3", "data", "date"};
        auto new_path = [&]() {
                auto d = w.all_dirs();
                Bytes b = s.flip() ? w.model->cwd->path : d[s.below((uint32_t)d.size())];
                return join_path(b, s.pick(dn));
        };
        auto depth = [](const Bytes &p) { return std::count(p.begin(), p.end(), '/'); };
        w.must_mount("/", mk(3, false));
        int n = 0;
        while (s.more(n, 7, 14) || n < 2) {
                n++;
                auto d = w.all_dirs();
                Bytes p = join_path(s.flip() ? Bytes("/") : d[s.below((uint32_t)d.size())], s.pick(dn));
                if (!w.model->node_at(p) && depth(p) < 4)
                        w.must_mount(p, mk(4, false));
        }
        n = 0;
        while (s.more(n, 2, 4)) {
                n++;
                w.add_group(mk(3, true));
        }
        w.start();
        w.warm(s, c);
        w.model->log_get = r.log_get = true;
        int rounds = 0;
        std::vector<ush_node_object *> later;
        do {
                rounds++;
                {
                        auto d = w.all_dirs();
                        w.type("cd " + d[s.below((uint32_t)d.size())] + "\r");
                }
                enum { LS, HELP, CAT, TAB, RUN } kind;
                FileP runs;
                Bytes line, ls_path;
                std::vector<Bytes> ops;
                switch (s.weighted({4, 2, 3, 3, 2})) {
                case 0: {
                        kind = LS;
                        auto d = w.all_dirs();
                        ls_path = s.flip() ? w.model->cwd->path : d[s.below((uint32_t)d.size())];
                        line = ls_path == w.model->cwd->path ? "ls" : "ls " + ls_path;
                        break;
                }
                case 1: kind = HELP; line = "help"; break;
                case 2: {
                        kind = CAT;
                        auto f = w.all_files();
                        line = "cat";
                        int k = 0;
                        while (!f.empty() && (s.more(k, 3, 5) || !k)) {
                                k++;
                                auto &e = f[s.below((uint32_t)f.size())];
                                if (!e.second->get)
                                        continue;
                                ops.push_back(e.first);
                                line += " " + e.first;
                        }
                        if (line.size() > 150)
                                continue;
                        break;
                }
                case 3: {
                        kind = RUN;     // a command that changes what it is part of
                        std::vector<std::pair<Bytes, FileP>> v;
                        for (auto &e : w.all_files())
                                if (e.second->exec)
                                        v.push_back(e);
                        for (auto &g : w.model->groups)
                                for (auto &f : g.files)
                                        if (f->exec && f->beh == B_PRINT && f->id >= 0)
                                                v.push_back({f->name, f});
                        if (v.empty())
                                continue;
                        auto &e = v[s.below((uint32_t)v.size())];
                        line = e.first;
                        runs = w.model->find(line);
                        if (!runs || !runs->exec)
                                continue;
                        break;
                }
                default:
                        kind = TAB;
                        line = s.flip() ? s.pick(dn).substr(0, 1) : s.flip() ? "k" : s.flip() ? "f" : "";
                        if (s.flip())
                                line = "x " + line;
                }
                c.note("line \"" + vf_printable(line) + "\"");
                c.id(line);
                // the state before
                Bytes before = kind == LS ? w.model->ls(w.model->node_at(ls_path)) : Bytes();
                size_t head = 0, tail_files = 0;
                Presence pr;
                auto current = [&]() {
                        std::vector<Bytes> v;
                        if (kind == LS) {
                                NodeM *nm = w.model->node_at(ls_path);
                                if (nm)
                                        for (auto *k : nm->kids)
                                                v.push_back("d---- " + w.model->sty("\x1B[32m") + k->base() + "/" + w.model->sty("\x1B[0m") + "\r\n");
                        } else if (kind == HELP) {
                                for (auto &g : w.model->groups)
                                        for (auto &f : g.files)
                                                v.push_back(w.model->file_line(f));
                        } else if (kind == TAB) {
                                Bytes a = line.size() && line[0] == 'x' ? line.substr(2) : line;
                                for (auto &x : w.model->candidates(a))
                                        v.push_back(x);
                        }
                        return v;
                };
                NodeM *target = kind == LS ? w.model->node_at(ls_path) : nullptr;
                std::vector<Bytes> c0 = current();
                pr.start(c0);
                if (kind == LS) {       // header, child lines, file lines
                        size_t kids = 0;
                        for (auto &x : c0)
                                kids += x.size();
                        head = (target->parent ? 2 : 1);
                        Bytes all = before;
                        size_t hl = 0;
                        auto l = lines_of(all);
                        for (size_t i = 0; i < head; i++)
                                hl += l[i].size();
                        tail_files = l.size() - head - c0.size();
                        CHECK(all.compare(hl, kids, [&] { Bytes b; for (auto &x : c0) b += x; return b; }()) == 0, "harness: listing layout");
                }
                // run the command a bit at a time
                Bytes typed = line + (kind == TAB ? "\t" : "\r");
                size_t o0 = r.out.size();
                r.in.insert(r.in.end(), typed.begin(), typed.end());
                std::vector<FileP> resolved;    // what the operands mean at the moment they are read
                size_t gets = 0;
                bool missing_since = false;
                auto operand_ok = [&](size_t i) {
                        FileP f = i < ops.size() ? w.model->find(ops[i]) : nullptr;
                        return f && f->get;
                };
                Bytes cat_expect;
                auto sync_gets = [&]() {
                        std::vector<int> read;
                        for (auto &e : r.log)
                                if (e.kind == 'G')
                                        read.push_back(e.file);
                        while (gets < read.size()) {
                                CHECK(gets < ops.size(), "cat reads more files than it was given");
                                FileP f = gets < resolved.size() ? resolved[gets] : nullptr;
                                CHECK(f && read[gets] == f->id, "cat reads another file than \"%s\"", ops[gets].c_str());
                                cat_expect += w.model->data[f->id];
                                gets++;
                                missing_since = !operand_ok(gets);
                        }
                };
                std::vector<Bytes> prompts = {w.model->prompt()};
                int changes = 0, want = (int)s.below(4);
                auto settle = [&](uint32_t steps) {
                        for (uint32_t i = 0; i < steps; i++) {
                                r.step();
                                sync_gets();
                        }
                };
                // a walk has begun once something follows the echoed line
                if (kind == LS || kind == HELP)
                        for (int i = 0; i < 4000 && r.out.size() <= o0 + line.size() + 2; i++)
                                r.step();
                auto change = [&]() {
                        changes++;
                        c.id(fmt("%lu", r.service_calls));
                        switch (s.weighted({4, 3, 2, 2})) {
                        case 0: { // a leaf goes away
                                std::vector<Bytes> leaves;
                                for (auto &t : w.model->tree)
                                        if (t.second->kids.empty() && t.first != "/")
                                                leaves.push_back(t.first);
                                if (leaves.empty())
                                        break;
                                Bytes p = leaves[s.below((uint32_t)leaves.size())];
                                if (kind == LS && s.flip())     // preferably one that is being listed
                                        for (auto &x : leaves)
                                                if (w.model->parent_of(x) == w.model->node_at(ls_path) && s.flip())
                                                        p = x;
                                if (kind == LS && p == ls_path)
                                        target = nullptr;
                                ush_node_object *no = api->get_by_path(r.obj, p.c_str());
                                auto rr = w.unmount(p);
                                CHECK(rr.first == rr.second, "unmount(\"%s\") returned %d, expected %d", p.c_str(), rr.first, rr.second);
                                later.push_back(no);
                                c.note(fmt("unmount %s at step %lu", p.c_str(), r.service_calls));
                                break;
                        }
                        case 1: { // a new directory
                                Bytes p = new_path();
                                if (depth(p) > 4 || w.model->node_at(p))
                                        break;
                                w.must_mount(p, mk(3, false));
                                c.note(fmt("mount %s at step %lu", p.c_str(), r.service_calls));
                                break;
                        }
                        case 2: { // a group goes away
                                if (w.group_nodes.empty())
                                        break;
                                size_t k = s.below((uint32_t)w.group_nodes.size());
                                int id = w.group_nodes[k].first;
                                int rc = api->cmd_remove(r.obj, w.group_nodes[k].second);
                                CHECK(rc == USH_STATUS_OK, "removing a group returned %d", rc);
                                later.push_back(w.group_nodes[k].second);
                                w.group_nodes.erase(w.group_nodes.begin() + k);
                                for (size_t i = 0; i < w.model->groups.size(); i++)
                                        if (w.model->groups[i].id == id) {
                                                w.model->groups.erase(w.model->groups.begin() + i);
                                                break;
                                        }
                                c.note(fmt("remove a group at step %lu", r.service_calls));
                                break;
                        }
                        default:
                                if (w.group_nodes.size() < 6) {
                                        w.add_group(mk(2, true));
                                        c.note(fmt("add a group at step %lu", r.service_calls));
                                }
                        }
                        if (kind == LS) {
                                if (target)
                                        pr.now(current());
                        } else
                                pr.now(current());
                        // the operands are all looked at first, then one by one
                        for (size_t i = gets; i < ops.size() && (i == gets || gets == 0); i++)
                                if (!operand_ok(i))
                                        missing_since = true;
                        prompts.push_back(w.model->prompt());
                };
                bool inside = kind == RUN || (kind == CAT && s.chance(1, 3));
                if (kind == CAT || kind == RUN)
                        r.nest = [&](Inst &) {
                                if (r.nest_kind != 'G' && r.nest_kind != 'X')
                                        return;
                                if (kind == CAT)
                                        resolved.push_back(resolved.size() < ops.size() ? w.model->find(ops[resolved.size()]) : nullptr);
                                if (inside && changes < want)
                                        do
                                                change();
                                        while (changes < want && s.flip());
                        };
                while (!inside && changes < want) {
                        settle(s.below(s.flip() ? 12 : 120));
                        change();
                }
                c.label("changes", changes);
                // to the end
                unsigned long budget = 200000;
                while (true) {
                        r.starved = false;
                        bool busy = r.step();
                        sync_gets();
                        if (!busy && r.in.empty() && r.starved)
                                break;
                        CHECK(--budget, "the shell does not return to its prompt after the tree changed under \"%s\"", line.c_str());
                }
                CHECK(r.io_error.empty(), "%s", r.io_error.c_str());
                r.nest = nullptr;
                Bytes g = r.out.substr(o0);
                auto starts = [&](const Bytes &b) { return g.compare(0, b.size(), b) == 0; };
                auto ends_with_prompt = [&]() {
                        // a change between the walk and the prompt is not there yet or already there
                        for (size_t i = prompts.size(); i-- > 0;)
                                if (g.size() >= prompts[i].size() && g.compare(g.size() - prompts[i].size(), prompts[i].size(), prompts[i]) == 0) {
                                        g.resize(g.size() - prompts[i].size());
                                        return true;
                                }
                        return false;
                };
                switch (kind) {
                case LS: {
                        CHECK(starts(line + "\r\n"), "the command line is not echoed");
                        g.erase(0, line.size() + 2);
                        CHECK(ends_with_prompt(), "listing without a prompt behind it: \"%s\"", vf_printable(g).c_str());
                        auto l = lines_of(g), b = lines_of(before);
                        CHECK(l.size() >= head + tail_files, "\"%s\" lost lines: \"%s\"", line.c_str(), vf_printable(g).c_str());
                        for (size_t i = 0; i < head; i++)
                                CHECK(l[i] == b[i], "\"%s\" starts with \"%s\"", line.c_str(), vf_printable(l[i]).c_str());
                        for (size_t i = 0; i < tail_files; i++)
                                CHECK(l[l.size() - tail_files + i] == b[b.size() - tail_files + i], "\"%s\" shows the files differently: \"%s\"", line.c_str(),
                                      vf_printable(g).c_str());
                        pr.judge(std::vector<Bytes>(l.begin() + head, l.end() - tail_files), "the listing");
                        if (c0.size() >= 2 && changes)
                                c.nontrivial = true;
                        break;
                }
                case HELP: {
                        CHECK(starts(line + "\r\n"), "the command line is not echoed");
                        g.erase(0, line.size() + 2);
                        CHECK(ends_with_prompt(), "help without a prompt behind it: \"%s\"", vf_printable(g).c_str());
                        auto l = lines_of(g);
                        for (auto &x : l)
                                CHECK(pr.ever.count(x), "help shows \"%s\", which was never there", vf_printable(x).c_str());
                        // names are not unique over groups: each entry that stayed is shown, in order
                        size_t i = 0;
                        for (auto &x : pr.always) {
                                while (i < l.size() && l[i] != x)
                                        i++;
                                CHECK(i < l.size(), "help does not show \"%s\" in its place, which was there all the time", vf_printable(x).c_str());
                                i++;
                        }
                        if (changes)
                                c.nontrivial = true;
                        break;
                }
                case CAT: {
                        CHECK(starts(line + "\r\n"), "the command line is not echoed");
                        g.erase(0, line.size() + 2);
                        if (!ops.empty()) {
                                CHECK(ends_with_prompt(), "cat without a prompt behind it: \"%s\"", vf_printable(g).c_str());
                                if (gets < ops.size()) {
                                        CHECK(missing_since, "\"%s\" stopped at \"%s\", which is readable", line.c_str(), ops[gets].c_str());
                                        Bytes e1 = cat_expect + w.model->status(USH_STATUS_ERROR_FILE_NOT_FOUND) + "\r\n";
                                        Bytes e2 = cat_expect + w.model->status(USH_STATUS_ERROR_FILE_NOT_READABLE) + "\r\n";
                                        CHECK(g == e1 || g == e2, "\"%s\" prints \"%s\", expected \"%s\"", line.c_str(), vf_printable(g).c_str(),
                                              vf_printable(e1).c_str());
                                        c.label("operand gone");
                                        if (gets)
                                                c.nontrivial = true;
                                } else
                                        CHECK(g == cat_expect, "\"%s\" prints \"%s\", expected \"%s\"", line.c_str(), vf_printable(g).c_str(), vf_printable(cat_expect).c_str());
                        }
                        break;
                }
                case RUN: {
                        Bytes e = line + "\r\n" + runs->texts[0] + "\r\n" + w.model->prompt();
                        CHECK(g == e, "a command that changes the tree prints %s", diff_str(e, g).c_str());
                        int x = 0;
                        for (auto &ev : r.log)
                                if (ev.kind == 'X')
                                        x += ev.file == runs->id ? 1 : 100;
                        CHECK(x == 1, "\"%s\" ran %d times", line.c_str(), x);
                        if (changes)
                                c.nontrivial = true;
                        break;
                }
                case TAB: {
                        // the line afterwards: what was typed, longer by the beginning of some candidate
                        Bytes a = line.size() && line[0] == 'x' ? line.substr(2) : line, b = line.substr(0, line.size() - a.size());
                        r.take();
                        CHECK(starts(line), "the line is not echoed: \"%s\"", vf_printable(g).c_str());
                        Bytes l = r.obj->desc->input_buffer;
                        CHECK(l.compare(0, line.size(), line) == 0, "TAB turns \"%s\" into \"%s\"", line.c_str(), vf_printable(l).c_str());
                        if (api->autocomplete && l.size() > line.size()) {
                                bool ok = false;
                                for (auto &x : pr.ever)
                                        ok |= x.compare(0, l.size() - b.size(), l.substr(b.size())) == 0;
                                CHECK(ok, "TAB turns \"%s\" into \"%s\", which begins no name", line.c_str(), vf_printable(l).c_str());
                        }
                        CHECK(g.size() >= l.size() && g.compare(g.size() - l.size(), l.size(), l) == 0, "the line \"%s\" is not what is on the screen: \"%s\"",
                              vf_printable(l).c_str(), vf_printable(g).c_str());
                        if (changes)
                                c.nontrivial = true;
                        Bytes rest = r.type("\x03");
                        CHECK(rest.size() >= w.model->prompt().size() && rest.compare(rest.size() - w.model->prompt().size(), Bytes::npos, w.model->prompt()) == 0,
                              "no prompt after ^C: \"%s\"", vf_printable(rest).c_str());
                        break;
                }
                }
                r.take();
                r.log.clear();
                w.model->log.clear();
                // what was taken away belongs to the application again
                for (auto *x : later)
                        gone.forget(x);
                later.clear();
                for (auto &t : w.all_dirs())
                        if (s.flip())
                                w.type("ls " + t + "\r", "later listing");
                w.type("help\r", "later command list");
                w.type("pwd\r", "later working directory");
                w.type(s.flip() ? "a\t\x03" : "k\t\x03", "later completion");
                if (!w.group_nodes.empty() && s.flip()) {
                        auto &g0 = w.model->groups[0];
                        if (!g0.files.empty())
                                w.type(g0.files[0]->name + "\r", "later command");
                }
        } while (rounds < 6 && s.more(rounds, 2, 6));
}
