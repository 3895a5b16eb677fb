#!/usr/bin/env python3
"""Build the library from /repo's working tree, run one property check, write its evidence.

usage: check.py PROPERTY [quick|thorough] [--replay FILE] [--cases N] [--time S]
       check.py --setup
Environment: VERIF_SEED (default 1), VERIF_TIER (default quick), VERIF_REPO (default /repo).
"""
import fcntl, glob, hashlib, json, os, random, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
FW = os.path.join(VERIF, "fw")
OUT = os.path.join(BUILD, "out")
KNOWN = os.path.join(VERIF, "known_findings.txt")
CC, CXX = "clang", "clang++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
CMDS = ["HELP", "LS", "CD", "PWD", "CAT", "XXD", "ECHO"]
TR = ["OK", "ERROR", "DIRECTORY_NOT_FOUND", "NESTED_DIRECTORIES_EXIST", "CANNOT_FIND_PARENT_NODE",
      "DIRECTORY_ALREADY_MOUNTED", "SYNTAX_ERROR", "WRONG_ARGUMENTS", "FILE_NOT_EXECUTABLE",
      "FILE_NOT_WRITABLE", "FILE_NOT_READABLE", "NO_HELP_AVAILABLE", "FILE_NOT_FOUND", "READ_ONLY_FILE"]
TR_EN = ["ok", "error", "directory not found", "nested directories exist", "cannot find parent node",
         "directory already mounted", "syntax error", "wrong arguments", "file not executable",
         "file not writable", "file not readable", "no help available", "file not found", "read only file"]
TR_PL = ["dobrze", "blad", "nie znaleziono katalogu", "katalog niepusty", "brak wezla nadrzednego",
         "katalog juz zamontowany", "blad skladni", "zle argumenty", "plik nie jest wykonywalny",
         "plik nie do zapisu", "plik nie do odczytu", "brak pomocy", "nie znaleziono pliku", "tylko do odczytu"]


class BuildError(Exception):
    pass


def config(name, styles=0, autocomplete=1, commands=1, align=16, columns=8, cmds=None, tr=None, flags=(), header="ush_config.h"):
    return dict(name=name, styles=styles, autocomplete=autocomplete, commands=commands, align=align,
                columns=columns, cmds=cmds or [1] * 7, tr=tr or TR_EN, flags=list(flags), header=header)


PATTERN = "-ftrivial-auto-var-init=pattern"
ZERO = "-ftrivial-auto-var-init=zero"
BASE = [
    config("plain", flags=[PATTERN]),
    config("zero", flags=[ZERO]),
    config("styled", styles=1, columns=16, align=10, tr=TR_PL, flags=[ZERO, "-funsigned-char"]),
]


def random_configs(seed, n):
    """The generated part of the configuration space (property on configurations)."""
    r = random.Random(seed * 7919 + 17)
    out = [config("off", autocomplete=0, commands=0, flags=[PATTERN]),
           config("noauto", autocomplete=0, styles=1, columns=1, align=1, flags=[PATTERN])]
    if n:       # the configurations that come with the library, and one named by the application
        out += [config("stock-posix", styles=1, flags=[PATTERN, "-DUSH_CONFIG_PLATFORM_POSIX"], header=None),
                config("stock-arduino", styles=1, flags=[PATTERN, "-DARDUINO"], header=None),
                config("custom-file", columns=5, align=20, tr=TR_PL, flags=[ZERO, '-DUSH_CONFIG_CUSTOM_FILE="vf_custom.h"'], header="vf_custom.h")]
    for i in range(n):
        cmds = [r.randint(0, 1) for _ in range(7)]
        if not any(cmds):
            cmds[r.randrange(7)] = 1    # an enabled but empty command table is rejected by the library
        if i < 7:                       # every built-in command once alone, then random subsets
            cmds = [int(k == i) for k in range(7)] if i % 2 else [int(k != i) for k in range(7)]
        tr = [t if r.random() < 0.5 else "".join(r.choice("abcdefgh XYZ_<>%") for _ in range(r.choice([r.randint(0, 40), r.randint(0, 40), 300])))
              for t in TR_EN]
        out.append(config("gen%d" % i, styles=r.randint(0, 1), autocomplete=r.randint(0, 1), commands=1,
                          align=r.choice([1, 2, 7, 8, 16, 24, 33]), columns=r.choice([1, 2, 3, 4, 7, 8, 9, 16, 24, 32]),
                          cmds=cmds, tr=tr, flags=[r.choice([PATTERN, ZERO]), r.choice(["-funsigned-char", "-fsigned-char"]), r.choice(["-O1", "-O2", "-Os"])]))
    return out


def config_header(c):
    o = ["#ifndef USH_CONFIG_H", "#define USH_CONFIG_H", "#ifdef __cplusplus", 'extern "C" {', "#endif",
         "void vf_assert(const char *file, int line);",
         "#define USH_CONFIG_FILENAME_ALIGN_SPACE %d" % c["align"], "#define USH_CONFIG_CMD_XXD_COLUMNS %d" % c["columns"]]
    for k, v in zip(CMDS, c["cmds"]):
        o.append("#define USH_CONFIG_ENABLE_COMMAND_%s %d" % (k, v))
    o += ["#define USH_CONFIG_ENABLE_FEATURE_COMMANDS %d" % c["commands"],
          "#define USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE %d" % c["autocomplete"],
          "#define USH_CONFIG_ENABLE_FEATURE_SHELL_STYLES %d" % c["styles"]]
    for k, v in zip(TR, c["tr"]):
        o.append('#define USH_CONFIG_TRANSLATION_%s "%s"' % (k, v))
    o += ["#define USH_ASSERT(cond) { if (!(cond)) { vf_assert(__FILE__, __LINE__); } }",
          "#ifdef __cplusplus", "}", "#endif", "#endif"]
    return "\n".join(o) + "\n"


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd)[:2000], r.stdout[-6000:]))
    return r.stdout


def hash_files(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def repo_files():
    src = sorted(glob.glob(REPO + "/src/**/*.c", recursive=True))
    hdr = sorted(glob.glob(REPO + "/src/**/*.h", recursive=True))
    return src, hdr


def write_cfg(d, c):
    os.makedirs(d, exist_ok=True)
    if c["header"]:
        with open(d + "/" + c["header"], "w") as f:
            f.write(config_header(c))
    with open(d + "/vf_config_name.h", "w") as f:
        f.write('#define VF_CONFIG_NAME "%s"\n' % c["name"])


WRAPS = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "posix_memalign", "aligned_alloc",
         "asprintf", "vasprintf", "open_memstream", "getline", "getdelim", "reallocarray", "memalign", "valloc", "mmap", "sbrk",
         "strtok", "rand", "srand", "random", "strerror", "localtime", "gmtime", "asctime", "ctime", "setlocale"]


def build_lib(c, opt="-O1", san=SAN):
    src, hdr = repo_files()
    key = hash_files(src + hdr + [FW + "/shim.c", FW + "/target.h"], json.dumps(c, sort_keys=True) + opt + " ".join(san))
    d = os.path.join(BUILD, "lib", key)
    so = d + "/libush.so"
    if os.path.exists(so):
        os.utime(d)
        return so
    write_cfg(d + "/cfg", c)
    tmp = so + ".tmp%d" % os.getpid()
    run([CC, "-std=gnu11", "-g", opt, "-fPIC", "-shared", "-w", "-fexceptions", "-fno-builtin-malloc"] + san + c["flags"] +
        ["-I" + d + "/cfg", "-I" + REPO + "/src", "-I" + FW] + src + [FW + "/shim.c", "-o", tmp, "-Wl,-Bsymbolic"] +
        ["-Wl,--wrap=" + w for w in WRAPS], "building the library (%s)" % c["name"])
    os.rename(tmp, so)
    return so


def build_runner(san=SAN):
    _, hdr = repo_files()
    fw = sorted(glob.glob(FW + "/*.cpp") + glob.glob(FW + "/*.h*"))
    fw = [f for f in fw if not os.path.basename(f).startswith("fuzz_")]
    key = hash_files(fw + hdr, "runner2" + " ".join(san))
    d = os.path.join(BUILD, "runner", key)
    exe = d + "/runner"
    if os.path.exists(exe):
        os.utime(d)
        return exe
    write_cfg(d + "/cfg", BASE[0])
    cpps = [f for f in fw if f.endswith(".cpp")]

    def one(f):
        o = d + "/" + os.path.basename(f) + ".o"
        run([CXX, "-std=c++17", "-g1", "-O1", "-w", "-c", "-I" + d + "/cfg", "-I" + REPO + "/src", "-I" + FW] + san + [f, "-o", o],
            "compiling " + os.path.basename(f))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, cpps))
    tmp = exe + ".tmp%d" % os.getpid()
    run([CXX] + san + objs + ["-o", tmp, "-ldl", "-pthread"], "linking the runner")
    os.rename(tmp, exe)
    return exe


def prune():
    """Keep the build cache small: newest entries only."""
    for sub, keep in (("lib", 60), ("runner", 4), ("fuzz", 3), ("demo", 3)):
        ds = sorted(glob.glob(os.path.join(BUILD, sub, "*")), key=lambda p: os.path.getmtime(p), reverse=True)
        for old in ds[keep:]:
            subprocess.run(["rm", "-rf", old])


def libs_for(prop, tier, seed):
    cfgs = list(BASE)
    if prop == "P21":
        cfgs += random_configs(seed, 0)
    if prop == "P18":
        cfgs += random_configs(seed, 12 if tier == "quick" else 40)
    return cfgs


def bad_config(prop, tier, seed, c, text, cfgs, t0):
    """A valid configuration that does not build or link is a violation of the configuration property."""
    name = "%s/replays/%s-config-%s.replay" % (OUT, prop, c["name"])
    os.makedirs(OUT + "/replays", exist_ok=True)
    with open(name, "w") as f:
        f.write("property %s\nseed %d\ntier %s\nconfig %s\n\n%s\n%s\n" % (prop, seed, tier, c["name"], config_header(c), text))
    print("configuration %s cannot be built:\n%s" % (c["name"], text[-2500:]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": len(cfgs), "distinct_nontrivial": len(cfgs), "rule": "generated configurations are built and loaded before sessions run in them",
                     "samples": ["violating case: configuration %s cannot be built" % c["name"]], "configurations": [x["name"] for x in cfgs]},
        "wall_s": round(time.time() - t0, 2), "violations": 1,
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    print("VIOLATION property=%s replay=%s" % (prop, name))
    return 1


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(line)
    return out


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        os.makedirs(OUT, exist_ok=True)
        with open(BUILD + "/lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            with ThreadPoolExecutor(8) as ex:
                fs = [ex.submit(build_runner)] + [ex.submit(build_lib, c) for c in BASE]
                fs += [ex.submit(build_runner, TSAN)] + [ex.submit(build_lib, c, "-O0", TSAN) for c in BASE]
                for f in fs:
                    f.result()
        print("setup done")
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    extra, replay = [], None
    i = 1
    while i < len(args):
        if args[i] in ("quick", "thorough"):
            tier = args[i]
        elif args[i] == "--replay":
            replay = args[i + 1]
            i += 1
        elif args[i] in ("--cases", "--time", "--workers"):
            extra += [args[i], args[i + 1]]
            i += 1
        i += 1
    if replay:
        for line in open(replay):
            if line.startswith("seed "):
                seed = int(line.split()[1])
            if line.startswith("tier "):
                tier = line.split()[1]
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cfgs = libs_for(prop, tier, seed)
        with ThreadPoolExecutor(8) as ex:
            san = TSAN if prop == "P24" else SAN
            fr = ex.submit(build_runner, san)
            fl = [ex.submit(build_lib, c, "-O0" if san is TSAN else "-O1", san) for c in cfgs]
            exe = fr.result()
            libs, skipped = [f.result() for f in fl[:len(BASE)]], []
            for c, f in zip(cfgs[len(BASE):], fl[len(BASE):]):
                try:
                    libs.append(f.result())
                except BuildError as e:
                    if prop != "P18":       # that configuration is judged by P18
                        skipped.append(c["name"])
                        continue
                    return bad_config(prop, tier, seed, c, str(e), cfgs, t0)
        if prop == "P18":       # every function a configuration uses must exist in it
            for c, l in zip(cfgs, libs):
                p = subprocess.run([exe, "--lib", l, "--list"], capture_output=True, text=True)
                if p.returncode == 3:
                    return bad_config(prop, tier, seed, c, p.stderr, cfgs, t0)
        prune()
    tb = time.time() - t0
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--tier", tier, "--out", OUT,
           "--time", "300" if tier == "quick" else "3000"] + extra
    for l in libs:
        cmd += ["--lib", l]
    if replay:
        return subprocess.run(cmd + ["--replay", replay]).returncode
    res = OUT + "/%s.result.json" % prop
    if os.path.exists(res):
        os.unlink(res)
    rc = subprocess.run(cmd).returncode
    r = json.load(open(res)) if os.path.exists(res) else None
    if r is None:
        return rc if rc == 1 else 2
    for k in known_findings(prop):
        print(k)
    labels = r["labels"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": r["rule"],
            "samples": r["samples"] or (["violating case: " + r["message"]] if r["message"] else []),
            "discarded": r["discarded"], "planned": r["planned"], "enumerated_cases": r["enumerated"], "labels": labels,
            "configurations": [c["name"] for c in cfgs if c["name"] not in skipped],
        },
        "assumptions": [
            "clang -fsanitize=address,undefined detects the memory errors it reports; exact-size heap objects",
            "the reference model in fw/world.cpp states the intended behaviour",
        ],
        "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2), "violations": 1 if rc == 1 else 0,
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print(str(e))
        sys.exit(2)
