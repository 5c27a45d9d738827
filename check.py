#!/usr/bin/env python3
"""check.py <property> : build the simulator for one property from /repo's
working tree, search seeded simulated runs, write evidence/<property>.json.

Exit 0 held, 1 violation (with VIOLATION line), 2/3 harness error.
VERIF_SEED, VERIF_TIER select seed and depth; extra args are passed to the
simulator (e.g. --runs N, --secs S); 'check.py C07 replay FILE' replays.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
API_H = """#ifndef VERIF_ALMATH_API_H
#define VERIF_ALMATH_API_H
#define ALMATH_API
#define ALMATH_LOCAL
#define ALMATH_DEPRECATED
#endif
"""
FLAVOURS = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    # instrumented for the simulated scheduler: the hooks are those of sim/sched.cpp, no sanitizer runtime
    "sched": ["-O1", "-g0", "-D_GLIBCXX_ASSERTIONS"],
}
LINK = {
    "asan": ["-fsanitize=address,undefined"],
    "sched": ["-rdynamic", "-pthread", "-ldl", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=strlen"],
}
# scenario -> flavour, source dirs of /repo needed first (all are used when linking fails)
LIGHT = ["src/dsp", "src/types", "src/tools", "src/geometrics"]
CONF = {}
for c in ("C01", "C02", "C11", "C15", "C16", "C17"):
    CONF[c] = ("asan", "light")
CONF["C14"] = ("sched", "all")
SKIP = ("qigeometry",)


def sh(cmd, log):
    # the output appears at once and complete, whoever else builds it
    if "-o" in cmd:
        i = cmd.index("-o") + 1
        final, cmd = cmd[i], list(cmd)
        cmd[i] = "%s.%d.tmp" % (final, os.getpid())
        ok = sh_(cmd, log)
        if ok:
            os.replace(cmd[i], final)
        elif os.path.exists(cmd[i]):
            os.remove(cmd[i])
        return ok
    return sh_(cmd, log)


def sh_(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        log.append(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])
    return r.returncode == 0


def tree_hash(dirs, extra, headers_only=False):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                # objects are named after their own source: headers are anything else
                if not (headers_only and f.endswith((".cpp", ".md", ".txt"))):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def lib_sources(which):
    srcs = sorted(p for p in glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)
                  if not any(s in os.path.basename(p) for s in SKIP))
    if which == "light":
        dirs = [os.path.join(REPO, d) + os.sep for d in LIGHT]
        srcs = [s for s in srcs if any(s.startswith(d) for d in dirs)]
    return srcs


def build(prop):
    flavour, which = CONF.get(prop, ("asan", "all"))
    base = os.path.join(BUILD, "v" + hashlib.sha256(REPO.encode()).hexdigest()[:6])
    os.makedirs(os.path.join(base, "inc", "almath"), exist_ok=True)
    api = os.path.join(base, "inc", "almath", "api.h")
    if not os.path.exists(api) or open(api).read() != API_H:
        open(api, "w").write(API_H)
    cflags = (["-std=gnu++17", "-w", "-pipe"] + FLAVOURS[flavour] +
              ["-I" + os.path.join(base, "inc"), "-I" + REPO, "-I/usr/include/eigen3",
               "-DBOOST_CB_DISABLE_DEBUG"])
    # header content decides whether objects can be reused between checks
    hdr = tree_hash([os.path.join(REPO, "almath"), os.path.join(REPO, "qi"), os.path.join(REPO, "src")], cflags, True)
    module = tree_hash([os.path.join(REPO, "geometry_module", "src")], [])  # included by a scenario
    odir = os.path.join(base, flavour + "-" + hdr)
    if not os.path.isdir(odir):
        for old in glob.glob(os.path.join(base, flavour + "-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(odir)
    simh = tree_hash([os.path.join(HERE, "sim"), os.path.join(HERE, "stubs")], cflags)
    srcs = lib_sources(which)
    mine = [os.path.join(HERE, "scenarios", prop + ".cpp"), os.path.join(HERE, "sim", "core.cpp")]
    if prop == "C14":  # runs the scenarios of all other properties inside its callers
        mine[1:1] = [p for p in sorted(glob.glob(os.path.join(HERE, "scenarios", "C*.cpp"))) if not p.endswith("C14.cpp")]
        mine.append(os.path.join(HERE, "sim", "sched.cpp"))
    jobs = []

    def objname(s):
        mine_too = not s.startswith(REPO + os.sep)
        with open(s, "rb") as fh:
            own = hashlib.sha256(fh.read() + (simh + (module if s.endswith("C23.cpp") else "") if mine_too else s).encode()).hexdigest()[:16]
        return os.path.join(odir, own + "_" + os.path.basename(s) + ".o")

    def plan(srcs):
        out = []
        for s in srcs:
            o = objname(s)
            if not os.path.exists(o):
                fl = list(cflags)
                if flavour == "sched":
                    if s.startswith(REPO + os.sep) or s.endswith("C14.cpp"):
                        fl.append("-fsanitize=thread")
                    elif os.sep + "scenarios" + os.sep in s:
                        fl.append("-Dmake_scenario=make_scenario_" + os.path.basename(s)[:-4])
                if not s.startswith(REPO + os.sep):
                    fl += ["-I" + HERE, "-I" + os.path.join(HERE, "stubs")]
                out.append(["g++"] + fl + ["-c", s, "-o", o])
        # heaviest translation units first
        out.sort(key=lambda c: -(1000000 if "scenarios" in c[-3] else 0) - os.path.getsize(c[-3])
                 - (500000 if "urdf" in c[-3] else 0))
        return out

    log = []

    def compile_all(cmds):
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return all(list(ex.map(lambda c: sh(c, log), cmds)))

    exe = os.path.join(odir, prop + "-sim")

    def link(ss):
        return sh(["g++"] + [objname(s) for s in (ss + mine if flavour != "sched" else mine[:1] + ss + mine[1:])] + LINK[flavour] +
                  ["-lboost_filesystem", "-lboost_system", "-o", exe], log)

    ok = compile_all(plan(mine + srcs))
    if ok:
        ok = link(srcs)
        if not ok and which == "light":
            srcs = lib_sources("all")
            ok = compile_all(plan(srcs)) and link(srcs)
    if not ok:
        print("BUILD-ERROR")
        print("\n".join(log)[-12000:])
        sys.exit(3)
    return exe


def main():
    prop = sys.argv[1]
    rest = sys.argv[2:]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        exe = build(prop)
    t1 = time.time()
    if rest[:1] in (["replay"], ["show"]):
        sys.exit(subprocess.call([exe] + rest))
    if rest[:1] == ["build"]:
        print(exe)
        return
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in rest:
        i = rest.index("--tier")
        tier = rest[i + 1]
        del rest[i:i + 2]
    evdir = os.path.join(HERE, "evidence")
    if "--evidence-dir" in rest:
        i = rest.index("--evidence-dir")
        evdir = rest[i + 1]
        del rest[i:i + 2]
    ev = os.path.join(evdir, prop + ".json")
    rd = os.path.join(BUILD, "replays")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    os.makedirs(rd, exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    rc = subprocess.call([exe, "run", "--seed", seed, "--tier", tier, "--evidence", ev,
                          "--replaydir", rd] + rest)
    known(prop, exe)
    if os.path.exists(ev):
        d = json.load(open(ev))
        d["coverage"]["build_s"] = round(t1 - t0, 2)
        d["wall_s"] = round(time.time() - t0, 2)
        json.dump(d, open(ev, "w"), indent=1)
    print("total %.1fs (build %.1fs)" % (time.time() - t0, t1 - t0))
    sys.exit(rc if rc in (0, 1) else 2)


def known(prop, exe):
    """Announce the recorded findings of this property whose replay still fails."""
    path = os.path.join(HERE, "known-findings.txt")
    if not os.path.exists(path):
        return
    for line in open(path):
        line = line.strip()
        if line.startswith("known: property=" + prop + " "):
            what = line.split(" ", 2)[2]
            w = dict(x.split("=", 1) for x in what.split(" ") if x.startswith("replay="))
            r = w.get("replay")
            if r:
                rc = subprocess.call([exe, "replay", os.path.join(HERE, r)],
                                     stdout=subprocess.DEVNULL)
                if rc != 1:
                    continue
            print("KNOWN-FINDING: property=%s %s" % (prop, what))


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    main()
