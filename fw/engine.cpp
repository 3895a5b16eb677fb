#include "engine.hpp"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

std::string vf_printable(const Bytes &b, size_t max) {
        std::string o;
        for (size_t i = 0; i < b.size(); i++) {
                if (o.size() > max) {
                        o += "...(" + std::to_string(b.size()) + " bytes)";
                        break;
                }
                unsigned char c = (unsigned char)b[i];
                char t[8];
                if (c == '\\')
                        o += "\\\\";
                else if (c == '\n')
                        o += "\\n";
                else if (c == '\r')
                        o += "\\r";
                else if (c == '\t')
                        o += "\\t";
                else if (c >= 0x20 && c < 0x7f)
                        o += (char)c;
                else {
                        snprintf(t, sizeof t, "\\x%02x", c);
                        o += t;
                }
        }
        return o;
}

void vf_fail(const char *fmt, ...) {
        char buf[6000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        throw Fail{buf};
}

static double now() {
        struct timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
}

enum Outcome { PASS = 0, VIOL = 1, DISC = 2, CRASH = 3, HANG = 4 };

// Run one case in this process.
static Outcome run_case(const Prop &p, Src &src, Ctx &ctx, std::string &msg) {
        try {
                p.fn(src, ctx);
                return PASS;
        } catch (Fail &f) {
                msg = f.msg;
                return VIOL;
        } catch (Discard &) {
                return DISC;
        } catch (Stop &) {
                return DISC;
        }
}

static const int CASE_CPU_LIMIT = 8;    // seconds of CPU time for one case

static void arm(int sec) {
        struct itimerval it;
        memset(&it, 0, sizeof it);
        it.it_value.tv_sec = sec;
        setitimer(ITIMER_PROF, &it, nullptr);
}

static Src make_src(uint64_t seed, const Prop &p, uint64_t idx, std::vector<uint32_t> &store) {
        Src s;
        if (idx < p.enum_count && p.enum_choices) {
                store = p.enum_choices(idx);
                s.replay = &store;
        } else {
                uint64_t h = 0;
                for (const char *c = p.id; *c; c++)
                        h = h * 131 + (unsigned char)*c;
                s.rng = Rng(seed * 1000003ull + h, idx);
        }
        return s;
}

struct Shared {
        volatile uint64_t cur[64];
        volatile uint64_t done[64];
        volatile uint64_t found[64];    // index+1 of a violating case
        volatile uint64_t minfound;
        volatile int stop;
};

// Run a choice sequence in a forked child; crash- and hang-safe.
static Outcome forked(const Prop &p, const std::vector<uint32_t> &ch, const char *errfile, std::string &msg,
                      std::vector<uint32_t> *rec_out, std::vector<std::string> *desc_out = nullptr) {
        size_t sz = 8u << 20;
        char *m = (char *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
                int fd = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
                dup2(fd, 2);
                dup2(fd, 1);
                Src s;
                s.replay = &ch;
                Ctx c;
                c.want_desc = c.desc_file = desc_out != nullptr;
                std::string mm;
                arm(CASE_CPU_LIMIT);
                Outcome o = run_case(p, s, c, mm);
                arm(0);
                uint32_t *w = (uint32_t *)m;
                size_t n = std::min(s.rec.size(), (sz / 4) / 4);
                w[0] = (uint32_t)n;
                memcpy(w + 1, s.rec.data(), n * 4);
                char *t = m + sz / 2;
                std::string d = mm;
                d += '\0';
                for (auto &x : c.desc) {
                        d += x;
                        d += '\n';
                }
                size_t dl = std::min(d.size(), sz / 2 - 1);
                memcpy(t, d.data(), dl);
                t[dl] = 0;
                _exit(o == PASS ? 40 : o == VIOL ? 41 : 42);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
        }
        Outcome o;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 40)
                o = PASS;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 41)
                o = VIOL;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 42)
                o = DISC;
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)
                o = HANG;
        else
                o = CRASH;
        if (o == VIOL || o == PASS || o == DISC) {
                uint32_t *w = (uint32_t *)m;
                if (rec_out)
                        rec_out->assign(w + 1, w + 1 + w[0]);
                char *t = m + sz / 2;
                msg = t;
                if (desc_out) {
                        std::string rest = t + strlen(t) + 1;
                        size_t a = 0, b;
                        while ((b = rest.find('\n', a)) != std::string::npos) {
                                desc_out->push_back(rest.substr(a, b - a));
                                a = b + 1;
                        }
                }
        } else {
                if (rec_out)
                        *rec_out = ch;
                msg = o == HANG ? "hang: one case used more than its CPU limit inside the library" : "crash";
                FILE *f = fopen(errfile, "r");
                if (f) {
                        char line[6000];
                        int n = 0;
                        while (n < 400 && fgets(line, sizeof line, f)) {
                                if (desc_out && strncmp(line, "vfnote: ", 8) == 0) {
                                        line[strcspn(line, "\n")] = 0;
                                        desc_out->push_back(line + 8);
                                        continue;
                                }
                                n++;
                                if (strstr(line, "ERROR: AddressSanitizer") || strstr(line, "WARNING: ThreadSanitizer") || strstr(line, "runtime error:") ||
                                    strstr(line, "USH_ASSERT") || strstr(line, "SUMMARY:") || strstr(line, "HEAP-CALL")) {
                                        line[strcspn(line, "\n")] = 0;
                                        msg += std::string("; ") + line;
                                }
                        }
                        fclose(f);
                }
        }
        munmap(m, sz);
        return o;
}

static bool bad(Outcome o) { return o == VIOL || o == CRASH || o == HANG; }

// Shrink: delete chunks, then minimise values; keep any failing sequence.
static std::vector<uint32_t> shrink(const Prop &p, std::vector<uint32_t> best, double limit, const char *errfile,
                                    std::string &msg, Outcome &oc, unsigned &tries) {
        double end = now() + limit;
        auto attempt = [&](const std::vector<uint32_t> &c) -> bool {
                if (now() > end)
                        return false;
                std::string m;
                std::vector<uint32_t> rec;
                tries++;
                Outcome o = forked(p, c, errfile, m, &rec);
                if (!bad(o))
                        return false;
                if (o == HANG && oc != HANG)
                        return false;
                // prefer the normalised recording when it is not longer
                const std::vector<uint32_t> &nv = (rec.size() <= c.size()) ? rec : c;
                if (nv.size() > best.size() || (nv.size() == best.size() && !(nv < best)))
                        return false;
                best = nv;
                msg = m;
                oc = o;
                return true;
        };
        bool progress = true;
        while (progress && now() < end) {
                progress = false;
                for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1 && now() < end; k = k > 16 ? k / 2 : k - 1) {
                        for (size_t i = 0; i + k <= best.size() && now() < end;) {
                                std::vector<uint32_t> c = best;
                                c.erase(c.begin() + i, c.begin() + i + k);
                                if (attempt(c))
                                        progress = true;
                                else
                                        i += (k > 8 ? k / 2 : 1);
                        }
                        if (k == 1)
                                break;
                }
                for (size_t i = 0; i < best.size() && now() < end; i++) {
                        if (best[i] == 0)
                                continue;
                        std::vector<uint32_t> c = best;
                        c[i] = 0;
                        if (attempt(c)) {
                                progress = true;
                                continue;
                        }
                        uint32_t lo = 0, hi = i < best.size() ? best[i] : 0;
                        while (hi - lo > 1 && now() < end) {
                                uint32_t mid = lo + (hi - lo) / 2;
                                c = best;
                                if (i >= c.size())
                                        break;
                                c[i] = mid;
                                if (attempt(c)) {
                                        progress = true;
                                        hi = mid;
                                        if (i < best.size() && best[i] < hi)
                                                hi = best[i];
                                } else
                                        lo = mid;
                        }
                        // decrement this and delete the next (list lengths)
                        if (i + 1 < best.size() && best[i] > 0) {
                                c = best;
                                c[i]--;
                                c.erase(c.begin() + i + 1);
                                if (attempt(c))
                                        progress = true;
                        }
                }
        }
        return best;
}

static std::string jesc(const std::string &s) {
        std::string o = "\"";
        for (unsigned char c : s) {
                char t[8];
                if (c == '"' || c == '\\') {
                        o += '\\';
                        o += (char)c;
                } else if (c < 0x20 || c >= 0x7f) {
                        snprintf(t, sizeof t, "\\u%04x", c);
                        o += t;
                } else
                        o += (char)c;
        }
        return o + "\"";
}

static const char *outname(Outcome o) {
        return o == VIOL ? "violation" : o == CRASH ? "crash" : o == HANG ? "hang" : o == PASS ? "pass" : "discard";
}

static void write_replay(const std::string &path, const Prop &p, const std::vector<uint32_t> &ch, const std::string &msg,
                         Outcome o, uint64_t seed, uint64_t idx, const std::vector<std::string> &desc, const std::string &err) {
        FILE *f = fopen(path.c_str(), "w");
        if (!f)
                return;
        fprintf(f, "# microshell property replay\nproperty %s\nseed %llu\ncase %llu\noutcome %s\n", p.id, (unsigned long long)seed,
                (unsigned long long)idx, outname(o));
        fprintf(f, "choices");
        for (uint32_t v : ch)
                fprintf(f, " %u", v);
        fprintf(f, "\nmessage %s\n", vf_printable(msg, 6000).c_str());
        for (auto &d : desc)
                fprintf(f, "step %s\n", d.c_str());
        FILE *e = fopen(err.c_str(), "r");
        if (e) {
                char line[800];
                int n = 0;
                while (n++ < 60 && fgets(line, sizeof line, e))
                        fprintf(f, "stderr %s", line);
                fclose(e);
        }
        fclose(f);
}

int vf_main(int argc, char **argv, const std::vector<Prop> &props) {
        std::string id, replay, outdir = ".", mode = "run", result;
        uint64_t seed = 1, cases = 0;
        double tlimit = 200;
        int workers = 8;
        bool thorough = false;
        for (int i = 1; i < argc; i++) {
                std::string a = argv[i];
                auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
                if (a == "--prop") id = nx();
                else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
                else if (a == "--tier") thorough = nx() == "thorough";
                else if (a == "--cases") cases = strtoull(nx().c_str(), 0, 10);
                else if (a == "--time") tlimit = atof(nx().c_str());
                else if (a == "--workers") workers = atoi(nx().c_str());
                else if (a == "--out") outdir = nx();
                else if (a == "--replay") { replay = nx(); mode = "replay"; }
                else if (a == "--list") { for (auto &p : props) printf("%s\n", p.id); return 0; }
        }
        const Prop *pp = nullptr;
        for (auto &p : props)
                if (id == p.id)
                        pp = &p;
        if (!pp) {
                fprintf(stderr, "unknown property %s\n", id.c_str());
                return 2;
        }
        const Prop &p = *pp;
        std::string err = outdir + "/" + id + ".stderr";

        if (mode == "replay") {
                std::vector<uint32_t> ch;
                FILE *f = fopen(replay.c_str(), "r");
                if (!f) {
                        fprintf(stderr, "cannot open %s\n", replay.c_str());
                        return 2;
                }
                char *line = nullptr;
                size_t cap = 0;
                while (getline(&line, &cap, f) > 0) {
                        if (strncmp(line, "choices", 7) == 0) {
                                char *q = line + 7;
                                while (*q) {
                                        char *e;
                                        unsigned long v = strtoul(q, &e, 10);
                                        if (e == q)
                                                break;
                                        ch.push_back((uint32_t)v);
                                        q = e;
                                }
                        }
                }
                fclose(f);
                std::string msg;
                std::vector<std::string> desc;
                Outcome o = forked(p, ch, err.c_str(), msg, nullptr, &desc);
                for (auto &d : desc)
                        printf("  %s\n", d.c_str());
                printf("outcome: %s %s\n", outname(o), vf_printable(msg, 6000).c_str());
                if (bad(o)) {
                        printf("VIOLATION property=%s replay=%s\n", p.id, replay.c_str());
                        return 1;
                }
                return 0;
        }

        uint64_t N = cases ? cases : (thorough ? p.thorough : p.quick);
        N += p.enum_count;
        if (workers > 60)
                workers = 60;
        Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset((void *)sh, 0, sizeof *sh);
        double t0 = now();
        fflush(stdout);
        std::vector<pid_t> pids(workers);
        auto statfile = [&](int w) { return outdir + "/" + id + ".w" + std::to_string(w); };
        auto spawn = [&](int w, uint64_t start) {
                fflush(stdout);
                pid_t pid = fork();
                if (pid)
                        return pid;
                std::string ef = statfile(w) + ".err";
                int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                dup2(fd, 2);
                std::unordered_set<uint64_t> seen;
                std::map<std::string, uint64_t> labels;
                uint64_t ev = 0, disc = 0, nt = 0;
                for (uint64_t i = start; i < N; i += workers) {
                        if (sh->stop || (sh->minfound && i + 1 > sh->minfound))
                                break;
                        if (now() - t0 > tlimit)
                                break;
                        sh->cur[w] = i + 1;
                        std::vector<uint32_t> store;
                        Src s = make_src(seed, p, i, store);
                        s.replay = s.replay ? &store : nullptr;
                        Ctx c;
                        std::string msg;
                        arm(CASE_CPU_LIMIT);
                        Outcome o = run_case(p, s, c, msg);
                        if (o == VIOL) {
                                sh->found[w] = i + 1;
                                break;
                        }
                        ev++;
                        if (o == DISC)
                                disc++;
                        else if (c.nontrivial) {
                                nt++;
                                seen.insert(c.hash);
                        }
                        for (auto &l : c.labels)
                                labels[l.first] += l.second;
                        sh->done[w]++;
                }
                arm(0);
                sh->cur[w] = 0;
                FILE *f = fopen(statfile(w).c_str(), "w");
                fprintf(f, "%llu %llu %llu\n", (unsigned long long)ev, (unsigned long long)disc, (unsigned long long)nt);
                fprintf(f, "%zu\n", labels.size());
                for (auto &l : labels)
                        fprintf(f, "%llu %s\n", (unsigned long long)l.second, l.first.c_str());
                for (uint64_t h : seen)
                        fprintf(f, "%llx\n", (unsigned long long)h);
                fclose(f);
                _exit(0);
        };
        for (int w = 0; w < workers; w++) {
                unlink(statfile(w).c_str());
                pids[w] = spawn(w, w);
        }
        int live = workers;
        std::vector<uint64_t> cand;
        int extra_err = 0;
        while (live > 0) {
                int st;
                pid_t r = waitpid(-1, &st, 0);
                if (r < 0) {
                        if (errno == EINTR)
                                continue;
                        break;
                }
                for (int w = 0; w < workers; w++) {
                        if (pids[w] != r)
                                continue;
                        live--;
                        uint64_t f = 0;
                        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
                                f = sh->found[w];
                        else
                                f = sh->cur[w];
                        if (!f && !(WIFEXITED(st) && WEXITSTATUS(st) == 0))
                                extra_err++;
                        if (f) {
                                cand.push_back(f);
                                if (!sh->minfound || f < sh->minfound)
                                        sh->minfound = f;
                        }
                }
        }
        double wall_run = now() - t0;
        if (extra_err) {
                fprintf(stderr, "internal error: %d workers died outside a case\n", extra_err);
                return 2;
        }
        // merge statistics
        uint64_t ev = 0, disc = 0, nt = 0;
        std::unordered_set<uint64_t> seen;
        std::map<std::string, uint64_t> labels;
        for (int w = 0; w < workers; w++) {
                FILE *f = fopen(statfile(w).c_str(), "r");
                if (f) {
                        unsigned long long a, b, c;
                        size_t n = 0;
                        if (fscanf(f, "%llu %llu %llu\n%zu\n", &a, &b, &c, &n) == 4) {
                                ev += a;
                                disc += b;
                                nt += c;
                                for (size_t i = 0; i < n; i++) {
                                        char nm[300];
                                        if (fscanf(f, "%llu %299[^\n]\n", &a, nm) == 2)
                                                labels[nm] += a;
                                }
                                while (fscanf(f, "%llx\n", &a) == 1)
                                        seen.insert(a);
                        }
                        fclose(f);
                        unlink(statfile(w).c_str());
                }
                if (cand.empty())
                        unlink((statfile(w) + ".err").c_str());
        }
        int rc = 0;
        std::string vmsg;
        std::sort(cand.begin(), cand.end());
        if (!cand.empty()) {
                bool reported = false;
                for (uint64_t f : cand) {
                        uint64_t idx = f - 1;
                        // regenerate the choices of the failing case (in a child: it may crash)
                        std::vector<uint32_t> store;
                        std::vector<uint32_t> ch;
                        {
                                // choices are mirrored into shared memory, so a crash keeps them
                                size_t cap = 1u << 18;
                                uint32_t *m = (uint32_t *)mmap(nullptr, cap * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                                fflush(stdout);
                                pid_t pid = fork();
                                if (pid == 0) {
                                        int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                                        dup2(fd, 2);
                                        dup2(fd, 1);
                                        Src s = make_src(seed, p, idx, store);
                                        s.replay = s.replay ? &store : nullptr;
                                        s.mirror = m;
                                        s.mirror_cap = (uint32_t)cap - 1;
                                        Ctx c;
                                        std::string mm;
                                        arm(CASE_CPU_LIMIT);
                                        run_case(p, s, c, mm);
                                        _exit(0);
                                }
                                int st;
                                waitpid(pid, &st, 0);
                                ch.assign(m + 1, m + 1 + m[0]);
                                munmap(m, cap * 4);
                        }
                        std::string msg;
                        std::vector<uint32_t> rec;
                        Outcome o = forked(p, ch, err.c_str(), msg, &rec);
                        if (!bad(o)) {
                                printf("note: case %llu of %s failed once and did not fail again on replay (%s)\n", (unsigned long long)idx, p.id,
                                       outname(o));
                                continue;
                        }
                        unsigned tries = 0;
                        std::vector<uint32_t> best = shrink(p, ch, 25, err.c_str(), msg, o, tries);
                        std::vector<std::string> desc;
                        int hits = 0;
                        for (int k = 0; k < 3; k++) {
                                desc.clear();
                                std::string m2;
                                Outcome o2 = forked(p, best, err.c_str(), m2, nullptr, &desc);
                                if (bad(o2)) {
                                        hits++;
                                        msg = m2;
                                        o = o2;
                                }
                        }
                        if (!hits)
                                continue;
                        mkdir((outdir + "/replays").c_str(), 0755);
                        uint64_t h = 1469598103934665603ull;
                        for (uint32_t v : best)
                                h = (h ^ v) * 1099511628211ull;
                        char nm[64];
                        snprintf(nm, sizeof nm, "/replays/%s-%012llx.replay", p.id, (unsigned long long)(h & 0xffffffffffffull));
                        std::string path = outdir + nm;
                        write_replay(path, p, best, msg, o, seed, idx, desc, o == VIOL ? "" : err);
                        printf("%s: case %llu (seed %llu), %s, shrunk from %zu to %zu choices in %u runs, reproduced %d/3\n", p.id,
                               (unsigned long long)idx, (unsigned long long)seed, outname(o), ch.size(), best.size(), tries, hits);
                        for (auto &d : desc)
                                printf("  %s\n", d.c_str());
                        printf("  => %s\n", vf_printable(msg, 4000).c_str());
                        printf("VIOLATION property=%s replay=%s\n", p.id, path.c_str());
                        vmsg = msg;
                        rc = 1;
                        reported = true;
                        break;
                }
                if (!reported) {
                        fprintf(stderr, "internal error: a failing case could not be reproduced\n");
                        rc = 2;
                }
        }
        // samples: re-describe a few passing cases
        std::vector<std::string> samples;
        if (rc == 0) {
                uint64_t step = N > 40 ? N / 37 : 1;
                for (uint64_t i = 0, tried = 0; samples.size() < 4 && tried < 36 && i < N; i += step, tried++) {
                        std::vector<uint32_t> store;
                        Src s = make_src(seed, p, i, store);
                        s.replay = s.replay ? &store : nullptr;
                        Ctx c;
                        c.want_desc = true;
                        std::string m;
                        if (run_case(p, s, c, m) == PASS && c.nontrivial) {
                                std::string t = "case " + std::to_string(i) + ": ";
                                size_t k = 0;
                                for (auto &d : c.desc) {
                                        if (k++)
                                                t += " | ";
                                        t += d;
                                        if (t.size() > 1500) {
                                                t += " ...";
                                                break;
                                        }
                                }
                                samples.push_back(t);
                        }
                }
        }
        // machine-readable result for check.py
        FILE *f = fopen((outdir + "/" + id + ".result.json").c_str(), "w");
        fprintf(f, "{\"property\":%s,\"seed\":%llu,\"evaluations\":%llu,\"discarded\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,",
                jesc(id).c_str(), (unsigned long long)seed, (unsigned long long)ev, (unsigned long long)disc, (unsigned long long)nt, seen.size());
        fprintf(f, "\"planned\":%llu,\"enumerated\":%llu,\"wall_run\":%.2f,\"rc\":%d,\"rule\":%s,\"message\":%s,\"labels\":{", (unsigned long long)N,
                (unsigned long long)p.enum_count, wall_run, rc, jesc(p.rule).c_str(), jesc(vmsg).c_str());
        bool first = true;
        for (auto &l : labels) {
                fprintf(f, "%s%s:%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second);
                first = false;
        }
        fprintf(f, "},\"samples\":[");
        first = true;
        for (auto &s : samples) {
                fprintf(f, "%s%s", first ? "" : ",", jesc(s).c_str());
                first = false;
        }
        fprintf(f, "]}\n");
        fclose(f);
        printf("%s: %llu cases (%llu discarded), %llu non-trivial, %zu distinct, %.1f s\n", id.c_str(), (unsigned long long)ev,
               (unsigned long long)disc, (unsigned long long)nt, seen.size(), wall_run);
        return rc;
}
