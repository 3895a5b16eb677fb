// P02..P05: line editing, tokenization, dispatch, path resolution
#include "props.hpp"
#include <algorithm>

// ------------------------------------------------------- a small VT100 screen
struct Screen {
        std::vector<Bytes> rows{Bytes()};
        size_t r = 0, c = 0;
        int esc = 0;
        void put(const Bytes &b) {
                for (char ch : b) {
                        if (esc == 1) {
                                esc = ch == '[' ? 2 : 0;
                                continue;
                        }
                        if (esc == 2) {
                                if (ch >= 0x40 && ch <= 0x7e)
                                        esc = 0;
                                continue;
                        }
                        switch (ch) {
                        case 0x1b:
                                esc = 1;
                                break;
                        case '\b':
                                if (c > 0)
                                        c--;
                                break;
                        case '\r':
                                c = 0;
                                break;
                        case '\n': // newline mode
                                c = 0;
                                r++;
                                rows.push_back(Bytes());
                                break;
                        case 0:
                                break;
                        default:
                                if (rows[r].size() <= c)
                                        rows[r].resize(c, ' ');
                                if (rows[r].size() == c)
                                        rows[r] += ch;
                                else
                                        rows[r][c] = ch;
                                c++;
                        }
                }
        }
        Bytes row() const {
                Bytes b = rows[r];
                while (!b.empty() && b.back() == ' ')
                        b.pop_back();
                return b;
        }
};
static Bytes rtrim(Bytes b) {
        while (!b.empty() && b.back() == ' ')
                b.pop_back();
        return b;
}
static Bytes visible_prompt(const World &w) { return "[" + w.model->hostname + " " + w.model->cwd->base() + "]$ "; }

static void basic_world(Src &s, World &w, const vf_api *api, size_t in, bool hook, const std::vector<Bytes> &dirs = {"/"}) {
        Sizes z;
        z.in = in;
        z.out = std::max<size_t>(96, api->columns * 3 + 8);
        z.path = in + 64;
        w.create(api, z, s.flip() ? "test" : "h", hook);
        w.real->init();
        for (auto &d : dirs)
                w.must_mount(d, {});
}

void p_editing(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        World w;
        size_t in;
        switch (s.weighted({3, 2, 1})) {
        case 0: in = 40 + s.below(60); break;
        case 1: in = 3 + s.below(14); break;
        default: in = 200 + s.below(400); break;
        }
        basic_world(s, w, api, in, true);
        File f;
        f.name = "k";
        f.exec = true;
        f.beh = B_NOTHING;
        w.add_group({w.add_file(f)});
        w.start();
        w.warm(s, c);
        size_t cap = in - 2;
        c.note(fmt("[%s] line buffer %zu", api->config_name, in));
        Screen scr;
        scr.put(w.model->banner());
        int lines = 0;
        bool edited = false, executed = false;
        while (s.more(lines, 3, 8) || lines == 0) {
                Bytes keys, text;
                int esc = 0; // after ESC the next bytes belong to the sequence
                size_t n = 0;
                // sometimes start with a line that fills the buffer completely
                if (s.chance(1, 5)) {
                        size_t want = cap - std::min<size_t>(cap, s.below(3));
                        while (text.size() < want) {
                                char ch = (char)s.range('a', 'e');
                                keys += ch;
                                text += ch;
                        }
                }
                while (s.more(n, 12, 60)) {
                        n++;
                        switch (s.weighted({20, 8, 4, 4, 2, 1})) {
                        case 5: { // erasing inside an escape sequence: the screen tells what became of it
                                scr.put(w.real->type(keys));
                                c.id(keys);
                                c.note("keys \"" + vf_printable(keys) + "\"");
                                keys = "\x1b";
                                if (s.chance(1, 4))
                                        keys += s.flip() ? "[" : "O";
                                for (size_t k = 1 + s.below(3); k > 0; k--) {
                                        keys += s.flip() ? '\x7f' : '\x08';
                                        if (!text.empty())
                                                text.pop_back();
                                }
                                char ch = (char)s.range('a', 'z');
                                keys += ch;
                                scr.put(w.real->type(keys));
                                c.id(keys);
                                c.note("keys \"" + vf_printable(keys) + "\"");
                                keys.clear();
                                if (scr.row() == visible_prompt(w) + text + ch)
                                        text += ch;
                                edited = true;
                                break;
                        }
                        case 0: {
                                Bytes t;
                                if (s.flip())
                                        t = Bytes(1, (char)s.range(0x20, 0x7e));
                                else if (s.flip())
                                        t = "k";
                                else
                                        t = Bytes(1, (char)(s.flip() ? s.range(0x80, 0xff) : s.range('a', 'z')));
                                if (text.size() < cap) {
                                        keys += t;
                                        text += t;
                                }
                                break;
                        }
                        case 1:
                                keys += s.flip() ? '\x7f' : '\x08';
                                if (!text.empty())
                                        text.pop_back();
                                edited = true;
                                break;
                        case 2: // arrow keys, CSI or SS3
                                keys += Bytes(1 + (s.chance(1, 6) ? 1 + s.below(2) : 0), '\x1b') + (s.flip() ? "[" : "O") + Bytes(1, "ABCDHFPQRS"[s.below(10)]);
                                edited = true;
                                break;
                        case 3: // ESC and one ordinary character
                                keys += Bytes("\x1b") + Bytes(1, (char)s.range('a', 'z'));
                                edited = true;
                                break;
                        default: { // erase a word
                                size_t k = 1 + s.below(6);
                                for (size_t i = 0; i < k; i++) {
                                        keys += '\x7f';
                                        if (!text.empty())
                                                text.pop_back();
                                }
                                edited = true;
                                break;
                        }
                        }
                }
                (void)esc;
                c.id(keys);
                c.note("keys \"" + vf_printable(keys) + "\" line \"" + vf_printable(text) + "\"");
                // type in chunks; after each complete chunk the screen must show prompt + line
                scr.put(w.real->type(keys));
                Bytes want = rtrim(visible_prompt(w) + text), got = scr.row();
                CHECK(w.real->log.empty(), "a callback ran before the line was entered: %s", events_str(w.real->log).c_str());
                CHECK(got == want, "screen shows \"%s\", expected \"%s\" after keys \"%s\"", vf_printable(got).c_str(), vf_printable(want).c_str(),
                      vf_printable(keys).c_str());
                CHECK(scr.c == (visible_prompt(w) + text).size(), "cursor at column %zu, expected %zu", scr.c, (visible_prompt(w) + text).size());
                std::vector<Bytes> args = Model::tokenize(text);
                if (s.chance(1, 6)) {
                        scr.put(w.real->type("\x03"));
                        CHECK(w.real->log.empty(), "a cancelled line was executed: %s", events_str(w.real->log).c_str());
                        edited = true;
                } else {
                        // some terminals end a line with two characters: the second one ends an empty line
                        static const char *eol[] = {"\r", "\n", "\r\n", "\n\r", "\r\r", "\n\n", "\r\n\r\n"};
                        Bytes end = eol[s.weighted({8, 8, 2, 1, 1, 1, 1})];
                        Bytes ans = w.real->type(end), pr = w.model->prompt();
                        scr.put(ans);
                        std::vector<Event> &log = w.real->log;
                        if (end.size() > 1) {
                                size_t hooks = 0, prompts = 0;
                                for (auto &e : log)
                                        hooks += e.kind == 'H';
                                CHECK(hooks == (args.empty() ? 0u : 1u), "line \"%s\" and empty lines behind it ran %s", vf_printable(text).c_str(),
                                      events_str(log).c_str());
                                for (size_t at = 0; (at = ans.find(pr, at)) != Bytes::npos; at += pr.size())
                                        prompts++;
                                CHECK(prompts >= end.size(), "%zu line ends gave %zu prompts: \"%s\"", end.size(), prompts, vf_printable(ans).c_str());
                                c.label("doubled line ends");
                        }
                        if (args.empty())
                                CHECK(log.empty(), "an empty line ran something: %s", events_str(log).c_str());
                        else {
                                CHECK(!log.empty() && log[0].kind == 'H' && log[0].args == args, "line \"%s\" was executed as %s", vf_printable(text).c_str(),
                                      events_str(log).c_str());
                                executed = true;
                        }
                        log.clear();
                }
                Bytes row = scr.row(), p = rtrim(visible_prompt(w));
                CHECK(row == p, "no fresh prompt after the line: \"%s\"", vf_printable(row).c_str());
                lines++;
        }
        c.label("lines", lines);
        c.nontrivial = edited && executed;
}

// ----------------------------------------------------------------- tokenizer
static const int TOK_MAX = 6;
static const char tok_alpha[] = "a x\"\\";
static uint64_t pow5(int n) {
        uint64_t r = 1;
        while (n--)
                r *= 5;
        return r;
}
static const uint64_t TOK_CHUNK = 25;
static uint64_t tok_total() {
        uint64_t t = 0;
        for (int l = 0; l <= TOK_MAX; l++)
                t += pow5(l);
        return t;
}
extern const uint64_t tok_enum_count = (1 + 5 + 25 + 125 + 625 + 3125 + 15625 + TOK_CHUNK - 1) / TOK_CHUNK;
std::vector<uint32_t> tok_enum(uint64_t i) { return {5, (uint32_t)i}; }
static Bytes tok_line(uint64_t k) {
        for (int l = 0; l <= TOK_MAX; l++) {
                if (k < pow5(l)) {
                        Bytes b;
                        for (int j = 0; j < l; j++) {
                                b += tok_alpha[k % 5];
                                k /= 5;
                        }
                        return b;
                }
                k -= pow5(l);
        }
        return "";
}

static void check_argv(World &w, const Bytes &line, const std::vector<Bytes> &args, const char *eol) {
        w.real->type(line + eol);
        std::vector<Event> &log = w.real->log;
        if (args.empty())
                CHECK(log.empty(), "line \"%s\" has no arguments but ran %s", vf_printable(line).c_str(), events_str(log).c_str());
        else {
                Event e{'H', -1, args};
                CHECK(log.size() >= 1 && log[0] == e, "line \"%s\" gave %s, expected arguments %s", vf_printable(line).c_str(), events_str(log).c_str(),
                      events_str({e}).c_str());
                CHECK(log.size() <= 2, "line \"%s\" ran %zu callbacks", vf_printable(line).c_str(), log.size());
                if (log.size() == 2)
                        CHECK(log[1].args == args, "command saw %s", log[1].str().c_str());
        }
        log.clear();
}

void p_tokens(Src &s, Ctx &c) {
        int mode = s.weighted({3, 2, 1});
        World w;
        if (mode == 2) { // slice of the exhaustive enumeration
                uint64_t chunk = s.below((uint32_t)tok_enum_count);
                basic_world(s, w, g_targets[0], 40, true);
                w.start();
                for (uint64_t k = chunk * TOK_CHUNK; k < (chunk + 1) * TOK_CHUNK && k < tok_total(); k++) {
                        Bytes l = tok_line(k);
                        c.id(l);
                        check_argv(w, l, Model::tokenize(l), "\r");
                        c.label("enumerated lines");
                }
                c.note(fmt("enumerated lines %llu.. e.g. \"%s\"", (unsigned long long)(chunk * TOK_CHUNK), vf_printable(tok_line(chunk * TOK_CHUNK)).c_str()));
                c.nontrivial = chunk > 0;
                return;
        }
        const vf_api *api = pick_target(s);
        bool many = s.chance(1, 60);    // more arguments than a byte counts
        size_t in = s.chance(1, 4) ? 12 + s.below(30) : 100 + s.below(300);
        if (many)
                in = 800 + s.below(300);
        bool huge = s.chance(1, 4000);  // more characters, sometimes more arguments, than two bytes count
        if (huge)
                in = 65500 + s.below(s.flip() ? 600 : 80000);
        basic_world(s, w, api, in, true);
        File f;
        f.name = "p";
        f.exec = true;
        FileP fp = w.add_file(f);
        w.add_group({fp});
        w.start();
        if (!huge)
                w.warm(s, c);
        int n = 0;
        while (s.more(n, 3, 8) || n == 0) {
                n++;
                Bytes line;
                std::vector<Bytes> args;
                if (huge) {
                        if (n > 2)
                                break;
                        Rng r(s.below(1u << 30), 3);
                        int k = (int)s.below(3);        // one long argument, long ones, short ones
                        size_t len = in - 2 - s.below(s.flip() ? 3 : 500);
                        line = "p ";
                        while (line.size() < len) {
                                uint64_t v = r.next() % 1000;
                                line += k == 2 ? (line.back() == ' ' ? 'a' : ' ') : k == 1 && v < 2 ? ' ' : v < 5 ? '\\' : (char)('a' + v % 26);
                        }
                        args = Model::tokenize(line);
                        c.label("huge lines");
                } else if (mode == 0) { // round trip: arguments -> spelling -> arguments
                        size_t na = 1 + s.below(s.chance(1, 8) ? 40 : 6);
                        if (many)
                                na = 250 + s.below(60);
                        for (size_t i = 0; i < na; i++) {
                                Bytes a;
                                if (i == 0)
                                        a = "p";
                                else
                                        while (s.more(a.size(), many ? 1 : 4, many ? 3 : 30)) {
                                                int k = s.weighted({5, 3, 1, 1});
                                                a += k == 0   ? (char)s.range('a', 'z')
                                                     : k == 1 ? " \"\\x>"[s.below(5)]
                                                     : k == 2 ? (char)s.range(0x21, 0x7e)
                                                              : (char)s.range(0x80, 0xff);
                                        }
                                Bytes q = quote_arg(s, a);
                                if (line.size() + q.size() + 4 > in - 2)
                                        break;
                                if (i || s.chance(1, 6))
                                        line += Bytes(1 + (s.chance(1, 5) ? s.below(3) : 0), ' ');
                                line += q;
                                args.push_back(a);
                        }
                        if (s.chance(1, 6))
                                line += ' ';
                        if (line.size() > in - 2)
                                throw Discard();
                        if (args.empty())
                                line.clear();
                } else { // any line at all, against the independent tokenizer
                        size_t len = s.below(s.chance(1, 4) ? (uint32_t)in - 1 : 20);
                        len = std::min(len, in - 2);
                        for (size_t i = 0; i < len; i++) {
                                int k = s.weighted({4, 6, 1, 1});
                                line += k == 0 ? (char)s.range('a', 'e') : k == 1 ? " \"\\x"[s.below(4)] : k == 2 ? (char)s.range(0x21, 0x7e) : (char)s.range(0x80, 0xff);
                        }
                        args = Model::tokenize(line);
                }
                c.id(line);
                c.note("line \"" + vf_printable(line.substr(0, 3000)) + fmt("\" argc %zu", args.size()));
                check_argv(w, line, args, s.flip() ? "\r" : "\n");
                if (args.size() >= 2 || line.find_first_of("\"\\") != Bytes::npos)
                        c.nontrivial = true;
                c.label("lines");
                c.label("arguments", args.size());
        }
}

// ------------------------------------------------------------------- dispatch
// the application changes something from inside its hook or its command, before the shell looks up or goes on
static void plan_act(Src &s, Ctx &c, World &w, const WorldOpt &o) {
        char when = s.flip() ? 'H' : 'X';
        auto dirs = w.all_dirs();
        Bytes d = dirs[s.below((uint32_t)dirs.size())];
        switch (s.below(4)) {
        case 0:
                c.note(fmt("callback %c goes to ", when) + d);
                w.real->act = [d, when](Inst &in, char k) {
                        if (k == when) {
                                in.act = nullptr;
                                int r = in.api->set_cwd(in.obj, d.c_str());
                                if (r != USH_STATUS_OK)
                                        throw Fail{fmt("changing to %s from a callback returned %d", d.c_str(), r)};
                        }
                };
                w.model->act = [d, when](Model &m, char k) {
                        if (k == when) {
                                m.cwd = m.node_at(d);
                                m.act = nullptr;
                        }
                };
                break;
        case 1: {
                std::vector<FileP> fl;
                auto all = w.all_files();
                Bytes n = !all.empty() && s.flip() ? all[s.below((uint32_t)all.size())].second->name : gen_name(s, false);
                fl.push_back(gen_file(s, w, o, n, true));
                ush_node_object *node = w.real->new_node();
                FileArray fa = w.real->make_files(fl);
                c.note(fmt("callback %c adds command ", when) + vf_printable(n));
                w.real->act = [node, fa, when](Inst &in, char k) {
                        if (k == when) {
                                in.act = nullptr;
                                in.api->cmd_add(in.obj, node, fa.arr, fa.n);
                        }
                };
                for (auto &f : fl)
                        w.model->data[f->id] = f->init_data;
                w.model->act = [fl, when](Model &m, char k) {
                        if (k == when) {
                                GroupM g;
                                g.id = -5;
                                g.files = fl;
                                m.groups.insert(m.groups.begin(), g);
                                m.act = nullptr;
                        }
                };
                break;
        }
        case 2: {
                Bytes p = join_path(d, gen_name(s, false));
                if (p.size() > 60)
                        return;
                std::vector<FileP> fl = {gen_file(s, w, o, gen_name(s, false), false)};
                ush_node_object *node = w.real->new_node();
                FileArray fa = w.real->make_files(fl);
                char *path = w.real->path_str(p);
                auto st = std::make_shared<int>(-1);
                c.note(fmt("callback %c mounts ", when) + vf_printable(p));
                w.model->act = [p, fl, st, when](Model &m, char k) {
                        if (k == when) {
                                *st = m.mount(p, fl);
                                m.act = nullptr;
                        }
                };
                w.real->act = [node, fa, path, st, when](Inst &in, char k) {
                        if (k == when) {
                                in.act = nullptr;
                                int r = in.api->mount(in.obj, path, node, fa.arr, fa.n);
                                if (r != *st)
                                        throw Fail{fmt("mounting %s from a callback returned %d instead of %d", path, r, *st)};
                        }
                };
                break;
        }
        default: {
                if (d == "/")
                        return;
                auto st = std::make_shared<int>(-1);
                c.note(fmt("callback %c unmounts ", when) + d);
                w.model->act = [d, st, when](Model &m, char k) {
                        if (k == when) {
                                *st = m.unmount(d);
                                m.act = nullptr;
                        }
                };
                w.real->act = [d, st, when](Inst &in, char k) {
                        if (k == when) {
                                in.act = nullptr;
                                int r = in.api->unmount(in.obj, d.c_str());
                                if (r != *st)
                                        throw Fail{fmt("unmounting %s from a callback returned %d instead of %d", d.c_str(), r, *st)};
                        }
                };
                break;
        }
        }
        c.label("acting callbacks");
}

void p_dispatch(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        World w;
        WorldOpt o;
        o.wild_names = s.chance(1, 4);
        o.max_groups = 3;
        o.max_cmds = 4;
        gen_world(s, c, w, api, o);
        w.start();
        w.warm(s, c);
        int n = 0;
        bool acting = s.chance(1, 4);
        while (s.more(n, 7, 24) || n == 0) {
                n++;
                Bytes l;
                const Bytes cwd = w.model->cwd->path;
                switch (s.weighted({5, 3, 2, 2, 1})) {
                case 0: { // a name that exists somewhere
                        auto f = w.all_files();
                        auto cm = w.all_commands();
                        uint32_t k = s.below((uint32_t)(f.size() + cm.size()));
                        l = k < f.size() ? f[k].second->name : cm[k - f.size()]->name;
                        bool odd = l.find_first_of(" \"\\") != Bytes::npos;
                        if (odd)
                                l = quote_arg(s, l);
                        break;
                }
                case 1: {
                        auto f = w.all_files();
                        if (f.empty())
                                l = "nosuch";
                        else
                                l = quote_arg(s, gen_path_to(s, cwd, f[s.below((uint32_t)f.size())].first));
                        break;
                }
                case 2: {
                        auto d = w.all_dirs();
                        l = "cd " + quote_arg(s, d[s.below((uint32_t)d.size())]);
                        break;
                }
                case 3:
                        l = quote_arg(s, gen_name(s, false));
                        break;
                default: { // a directory used as a command
                        auto d = w.all_dirs();
                        l = quote_arg(s, gen_path_to(s, cwd, d[s.below((uint32_t)d.size())]));
                        break;
                }
                }
                int na = 0;
                while (s.more(na, 1, 5)) {
                        na++;
                        l += " " + quote_arg(s, s.chance(1, 6) ? Bytes() : gen_name(s, true));
                }
                if (!pad_line(s, w, l))
                        continue;
                c.id(l);
                c.note("cwd " + vf_printable(cwd) + " line \"" + vf_printable(l) + "\"");
                if (acting && s.chance(1, 3))
                        plan_act(s, c, w, o);
                Bytes e = w.model->feed(l + "\r");
                for (auto &ev : w.model->log)
                        if (ev.kind == 'X')
                                c.nontrivial = true;
                Bytes g = w.real->type(l + "\r");
                CHECK(w.model->log == w.real->log, "line \"%s\" in %s: expected callbacks %s, got %s", vf_printable(l).c_str(), vf_printable(cwd).c_str(),
                      events_str(w.model->log).c_str(), events_str(w.real->log).c_str());
                CHECK(e == g, "line \"%s\" in %s: response differs %s", vf_printable(l).c_str(), vf_printable(cwd).c_str(), diff_str(e, g).c_str());
                w.model->log.clear();
                w.real->log.clear();
                w.model->act = nullptr;
                w.real->act = nullptr;
                c.label("lines");
        }
}

// ---------------------------------------------------------------------- paths
static bool has_long_path(World &w, const std::vector<Bytes> &args) {
        for (auto &a : args) {
                Bytes raw = (!a.empty() && a[0] == '/') ? a : join_path(w.model->cwd->path, a);
                if (raw.size() >= w.model->sizes.path)
                        return true;
        }
        return false;
}

void p_paths(Src &s, Ctx &c) {
        const vf_api *api = pick_target(s);
        World w;
        Sizes z;
        z.in = 200;
        z.out = std::max<size_t>(128, api->columns * 3 + 8);
        bool tight = s.chance(1, 3);
        // tree shape first, so that a tight path limit can be chosen from it
        std::vector<Bytes> dirs = {"/"};
        bool wild = s.chance(1, 4);
        if (s.chance(1, 150)) {         // deeper, or with longer names, than a byte counts
                z.in = 1400;
                if (s.flip()) {
                        int depth = 20 + (int)s.below(280);
                        Bytes p = "/";
                        for (int i = 0; i < depth; i++) {
                                p = join_path(p, Bytes(1, (char)('a' + s.below(3))));
                                dirs.push_back(p);
                        }
                } else {
                        Bytes p = "/";
                        for (int i = 0; i < 3; i++) {
                                Bytes n(250 + s.below(20), 'n');
                                n[s.below((uint32_t)n.size())] = 'm';
                                p = join_path(p, n);
                                dirs.push_back(p);
                        }
                }
                c.label("deep tree or long names");
        }
        bool huge = s.chance(1, 2500);  // spellings longer than two bytes count
        if (huge)
                z.in = 70000;
        while (s.more(dirs.size(), 5, 10)) {
                const Bytes &par = dirs[s.below((uint32_t)dirs.size())];
                if (std::count(par.begin(), par.end(), '/') >= 5 || par.size() > 60)
                        continue;
                Bytes p = join_path(par, gen_name(s, wild));
                if (std::find(dirs.begin(), dirs.end(), p) == dirs.end())
                        dirs.push_back(p);
        }
        std::map<Bytes, std::vector<Bytes>> fn;
        size_t longest = 1;
        for (auto &d : dirs) {
                longest = std::max(longest, d.size());
                std::set<Bytes> u;
                while (s.more(u.size(), 2, 4))
                        u.insert(gen_name(s, wild));
                for (auto &n : u) {
                        fn[d].push_back(n);
                        longest = std::max(longest, join_path(d, n).size());
                }
        }
        z.path = tight ? longest + 1 + s.below(6) : z.in + longest + 8;
        bool unreach = s.chance(1, 20); // a file no path of the allowed length names
        if (unreach) {
                const Bytes &d = dirs[s.below((uint32_t)dirs.size())];
                fn[d].push_back(Bytes(z.path + s.below(s.flip() ? 260 : 4), 'u'));
                z.out += z.path + 300;
                c.label("file beyond the path limit");
        }
        w.create(api, z, "test", s.flip());
        w.real->init();
        WorldOpt o;
        o.allow_reset = false;
        for (auto &d : dirs) {
                std::vector<FileP> fl;
                for (auto &n : fn[d]) {
                        File f;
                        f.name = n;
                        f.get = s.below(4) != 3;
                        f.set = s.below(4) != 3;
                        f.exec = s.below(4) != 3;
                        f.has_help = s.below(4) != 3;
                        f.beh = B_PRINT;
                        f.init_data = f.help = "<" + join_path(d, n) + ">";
                        f.texts.push_back("run " + join_path(d, n));
                        fl.push_back(w.add_file(f));
                }
                w.must_mount(d, fl);
        }
        w.start();
        if (!huge && !unreach)
                w.warm(s, c);
        c.note(world_str(w));
        int n = 0;
        while (s.more(n, 8, 24) || n == 0) {
                n++;
                const Bytes cwd = w.model->cwd->path;
                // a target: directory, file, or something that does not exist
                Bytes target;
                auto files = w.all_files();
                switch (s.weighted({4, 4, 1, 1})) {
                case 0:
                        target = dirs[s.below((uint32_t)dirs.size())];
                        break;
                case 1:
                        target = files.empty() ? "/" : files[s.below((uint32_t)files.size())].first;
                        break;
                case 2:
                        target = join_path(dirs[s.below((uint32_t)dirs.size())], gen_name(s, false));
                        break;
                default: // extend an existing file or drop the last character
                        target = files.empty() ? "/" : files[s.below((uint32_t)files.size())].first;
                        if (s.flip())
                                target += "/" + gen_name(s, false);
                        else if (target.size() > 2 && target[target.size() - 2] != '/')
                                target.pop_back();
                        break;
                }
                Bytes p = gen_path_to(s, cwd, target);
                if (huge && n < 3) {
                        Bytes round = s.flip() ? "./" : gen_name(s, false) + "/../", d;
                        size_t want = s.flip() ? 65400 + s.below(300) : s.below(69000);
                        while (d.size() < want)
                                d += round;
                        bool rooted = !p.empty() && p[0] == '/';
                        p = (rooted ? "/" : "") + d + p.substr(rooted);
                        c.label("huge paths");
                }
                Bytes sp = quote_arg(s, p), l;
                bool ro = true;
                switch (s.weighted({3, 3, 3, 2, 2, 2, 1, 1})) {
                case 0: l = "cd " + sp; ro = false; break;
                case 1: l = "ls " + sp; break;
                case 2: l = "cat " + sp; break;
                case 3: l = sp; break;
                case 4: l = "help " + sp; break;
                case 5: l = "xxd " + sp; break;
                case 6: l = "echo new > " + sp; ro = false; break;
                default: l = "pwd"; break;
                }
                if (!pad_line(s, w, l))
                        continue;
                c.id(l);
                c.id(cwd);
                c.note("cwd " + vf_printable(cwd) + " line \"" + vf_printable(l) + "\"");
                std::vector<Bytes> args = Model::tokenize(l);
                bool lng = has_long_path(w, args);
                if (!lng) {
                        w.type(l + "\r", "response");
                        Bytes a;
                        if (l != "pwd" && w.model->abs_path(p, a) && (p != target) && (w.model->node_at(a) || w.model->parent_of(a)))
                                c.nontrivial = true;
                } else if (ro) {
                        // does not fit: not found, or resolved correctly; nothing else
                        Bytes e1 = w.model->feed(l + "\r");
                        std::vector<Event> l1;
                        l1.swap(w.model->log);
                        size_t keep = w.model->sizes.path;
                        w.model->sizes.path = 100000;
                        Bytes e2 = w.model->feed(l + "\r");
                        w.model->sizes.path = keep;
                        std::vector<Event> l2;
                        l2.swap(w.model->log);
                        Bytes g = w.real->type(l + "\r");
                        CHECK((g == e1 && w.real->log == l1) || (g == e2 && w.real->log == l2),
                              "path \"%s\" longer than the limit in %s: got \"%s\" %s, neither not-found nor the right object", vf_printable(p).c_str(),
                              vf_printable(cwd).c_str(), vf_printable(g).c_str(), events_str(w.real->log).c_str());
                        w.real->log.clear();
                        c.label("over the path limit");
                }
                c.label("paths");
                // the working directory as the API and the shell report it
                if (s.chance(1, 6)) {
                        char *ab = (char *)w.real->heap.alloc(z.path, 0xA5);
                        char *inp = w.real->heap.str(p);
                        Bytes want;
                        if (w.model->abs_path(p, want)) {
                                api->abs_path(w.real->obj, inp, ab);
                                CHECK(want == ab, "absolute form of \"%s\" in %s is \"%s\", expected \"%s\"", vf_printable(p).c_str(),
                                      vf_printable(w.model->cwd->path).c_str(), vf_printable(ab).c_str(), vf_printable(want).c_str());
                                NodeM *nd = w.model->node_at(want);
                                ush_node_object *rn = api->get_by_path(w.real->obj, ab);
                                CHECK((nd != nullptr) == (rn != nullptr), "node lookup of \"%s\"", vf_printable(want).c_str());
                                if (nd)
                                        CHECK(nd->path == rn->path, "node lookup of \"%s\" found \"%s\"", vf_printable(want).c_str(), vf_printable(rn->path).c_str());
                        }
                }
        }
}
