// Property-based testing engine: choice-sequence generators, integrated
// shrinking, forked parallel runner with crash/hang isolation, replay files.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

typedef std::string Bytes;

// ---------------------------------------------------------------- randomness
struct Rng {
        uint64_t s[2];
        static uint64_t mix(uint64_t &x) {
                uint64_t z = (x += 0x9E3779B97F4A7C15ull);
                z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
                z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
                return z ^ (z >> 31);
        }
        explicit Rng(uint64_t a = 1, uint64_t b = 0) {
                uint64_t x = a * 0x2545F4914F6CDD1Dull + b * 0x9E3779B97F4A7C15ull + 77;
                s[0] = mix(x);
                s[1] = mix(x);
        }
        uint64_t next() {
                uint64_t a = s[0], b = s[1], r = a + b;
                s[0] = b;
                a ^= a << 23;
                s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
                return r;
        }
};

struct Stop {};                         // generator ran past its choice budget
struct Fail {                           // the property does not hold
        std::string msg;
};
struct Discard {};                      // case outside the property's domain

// ------------------------------------------------------------ choice sequence
struct Src {
        std::vector<uint32_t> rec;
        const std::vector<uint32_t> *replay = nullptr;
        const uint8_t *fz = nullptr;    // fuzzer bytes
        size_t fzlen = 0, pos = 0;
        Rng rng;
        size_t budget = 60000;
        uint32_t *mirror = nullptr;     // shared-memory copy of rec: [0] = count
        uint32_t mirror_cap = 0;

        // uniform in [0, n); 0 is the simplest value
        uint32_t below(uint32_t n) {
                uint32_t v = 0;
                if (n == 0)
                        n = 1;
                if (rec.size() >= budget)
                        throw Stop();
                if (replay) {
                        if (pos < replay->size())
                                v = (*replay)[pos];
                        pos++;
                        if (v >= n)
                                v = v % n;
                } else if (fz) {
                        if (n > 1) {
                                size_t k = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
                                for (size_t i = 0; i < k && pos < fzlen; i++)
                                        v = (v << 8) | fz[pos++];
                                v %= n;
                        }
                } else {
                        v = (uint32_t)((rng.next() >> 16) % n);
                }
                rec.push_back(v);
                if (mirror && mirror[0] < mirror_cap) {
                        mirror[1 + mirror[0]] = v;
                        mirror[0]++;
                }
                return v;
        }
        uint32_t range(uint32_t lo, uint32_t hi) { return lo + below(hi - lo + 1); }    // inclusive
        // true with probability num/den; false is simplest
        bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
        bool flip() { return below(2) == 1; }
        // loop guard: expected about `avg` iterations, at most `max`
        bool more(size_t done, uint32_t avg, size_t max) {
                if (done >= max)
                        return false;
                return below(avg + 1) != 0;
        }
        template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
        // index chosen by integer weights; first alternative is simplest
        int weighted(const std::vector<int> &w) {
                int tot = 0;
                for (int x : w)
                        tot += x;
                int r = (int)below((uint32_t)tot);
                for (size_t i = 0; i < w.size(); i++) {
                        if (r < w[i])
                                return (int)i;
                        r -= w[i];
                }
                return 0;
        }
};

// --------------------------------------------------------------- case context
struct Ctx {
        bool want_desc = false;
        bool nontrivial = false;
        std::vector<std::string> desc;
        std::map<std::string, uint64_t> labels;
        uint64_t hash = 1469598103934665603ull;
        uint32_t variant = 0;           // target variant index requested
        void note(const std::string &s) {
                if (!want_desc)
                        return;
                desc.push_back(s);
                if (desc_file)          // survives a crash of the case
                        fprintf(stderr, "vfnote: %s\n", s.c_str());
        }
        bool desc_file = false;
        void label(const std::string &s, uint64_t n = 1) { labels[s] += n; }
        // feed a part of the generated case into its identity (distinctness)
        void id(const Bytes &b) {
                for (unsigned char c : b) {
                        hash ^= c;
                        hash *= 1099511628211ull;
                }
                hash ^= 0xFF;
                hash *= 1099511628211ull;
        }
        void id(uint64_t v) { id(Bytes((const char *)&v, sizeof v)); }
};

typedef void (*PropFn)(Src &, Ctx &);

struct Prop {
        const char *id;
        PropFn fn;
        const char *rule;               // generation and non-triviality rule
        uint64_t quick, thorough;       // number of cases
        // finite enumeration run before random cases (index -> prefilled choices); may be null
        uint64_t enum_count;
        std::vector<uint32_t> (*enum_choices)(uint64_t);
};

std::string vf_printable(const Bytes &b, size_t max = 400);
[[noreturn]] void vf_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

#define CHECK(cond, ...)                                                       \
        do {                                                                   \
                if (!(cond))                                                   \
                        vf_fail(__VA_ARGS__);                                  \
        } while (0)

int vf_main(int argc, char **argv, const std::vector<Prop> &props);
