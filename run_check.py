#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's current working tree, runs the
generated-case search, writes evidence/<id>.json.

  run_check.py ID            exit 0: held on everything explored; exit 1 + VIOLATION line: broken
  run_check.py ID --replay F rebuild, then replay one file
  run_check.py ID --build    only build (used by setup and during development)

Environment: VERIF_SEED, VERIF_TIER (quick|thorough), VERIF_REPO (default /repo; development only)."""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = 8
INC = ["", "core", "aspects", "ms-utils", "gunns-ts-models"]
OMIT = ("/cuda/", "/test/", "/no_trick/", "/trick/", "/trick_if/", "/_build/", "/draw/", "/sims/")

_text = {}
def text(path):
    if path not in _text:
        try:
            _text[path] = open(path, "rb").read()
        except OSError:
            _text[path] = None
    return _text[path]

_incl = {}
def includes(path):
    """Files in the repository or the harness folder that this file includes directly."""
    if path not in _incl:
        found, data = [], text(path)
        if data is not None:
            for name in re.findall(rb'^[ \t]*#[ \t]*include[ \t]*["<]([^">]+)[">]', data, re.M):
                name = name.decode("latin1")
                for d in [os.path.dirname(path)] + [os.path.join(REPO, i) for i in INC] + [os.path.join(VERIF, "harness")]:
                    q = os.path.normpath(os.path.join(d, name))
                    if os.path.isfile(q):
                        found.append(q)
                        break
        _incl[path] = found
    return _incl[path]

def closure(path):
    seen, todo = set(), [path]
    while todo:
        p = todo.pop()
        if p not in seen:
            seen.add(p)
            todo += includes(p)
    return seen

def library_sources():
    """All run-time sources less the ones the project's own lists leave out of the Trick-less library."""
    out, omit = [], set()
    for mk in ("sources_omit.mk", "sources_omit_trickless.mk"):
        omit |= set(re.findall(rb"filter-out %/(\S+?),", text(os.path.join(REPO, "lib", mk)) or b""))
    for top in ("core", "aspects", "ms-utils", "gunns-ts-models"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                if f.endswith(".cpp") and f.encode() not in omit and not any(o in p[len(REPO):] for o in OMIT):
                    out.append(p)
    return out

def wanted_sources(roots, lib):
    """Library sources reachable from the headers the roots include (X.hh pulls in X.cpp)."""
    by_stem = {}
    for p in lib:
        by_stem.setdefault(os.path.splitext(p)[0], p)
    need, todo, headers = set(), list(roots), set()
    while todo:
        for h in closure(todo.pop()):
            if h in headers:
                continue
            headers.add(h)
            src = by_stem.get(os.path.splitext(h)[0])
            if src and src not in need:
                need.add(src)
                todo.append(src)
    return sorted(need)

class BuildError(Exception):
    pass

def compile_one(src, flags, optional):
    h = hashlib.sha256(" ".join(flags).encode())
    for p in sorted(closure(src)):
        h.update(p.encode())
        h.update(text(p) or b"")
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + h.hexdigest()[:24] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d" % os.getpid()
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            if optional:
                return None
            raise BuildError("%s\n%s" % (src, r.stdout.decode("utf8", "replace")[-6000:]))
        os.rename(tmp, obj)
    return obj

def build(pid):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    harness = os.path.join(VERIF, "harness", pid + ".cc")
    head = open(harness).read(4000)
    opts = dict(m.split("=", 1) if "=" in m else (m, "1") for m in " ".join(re.findall(r"^// vpt: (.*)$", head, re.M)).split())
    flags = ["-std=c++11", "-O1", "-w", "-Dno_TRICK_ENV=1", "-DSIM_FRIEND_CLASS=VptFriend"] + ["-I" + os.path.normpath(os.path.join(REPO, i)) for i in INC] + ["-I" + os.path.join(VERIF, "harness")]
    libflags = list(flags)
    if opts.get("san"):
        s = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=float-divide-by-zero,float-cast-overflow,vptr", "-fno-omit-frame-pointer", "-g1", "-D_GLIBCXX_ASSERTIONS"]
        flags, libflags = flags + s, libflags + s
    flags[0] = "-std=c++14"
    lib = library_sources() + [os.path.join(REPO, x) for x in opts.get("extra", "").split(",") if x]
    exe = os.path.join(BUILD, pid + ".exe")
    link = ["g++"] + ([f for f in flags if f.startswith("-fsan") or f.startswith("-fno-san")])
    roots = [harness] + [os.path.join(VERIF, "harness", x) for x in opts.get("with", "").split(",") if x]
    def attempt(sources, optional):
        jobs = [(s, flags, False) for s in roots + [os.path.join(VERIF, "harness", "vpt.cc")]] + [(s, libflags, optional) for s in sources]
        # longest first
        jobs.sort(key=lambda j: -(len(text(j[0]) or b"") + (10**7 if j[1] is flags else 0)))
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            objs = [o for o in ex.map(lambda j: compile_one(*j), jobs) if o]
        if optional:   # the linker picks what is needed, so that sources for Trick alone do no harm
            own = [o for o, j in zip(objs, jobs) if j[1] is flags] if len(objs) == len(jobs) else [o for o in objs if any(os.path.basename(o).startswith(os.path.basename(r) + ".") for r in roots + ["vpt.cc"])]
            arc = exe + ".%d.a" % os.getpid()
            if subprocess.run(["ar", "rcs", arc] + sorted(set(objs) - set(own))).returncode == 0:
                objs = own + [arc]
        r = subprocess.run(link + sorted(objs, key=lambda o: (o.endswith(".a"), o)) + ["-o", exe + ".%d" % os.getpid(), "-lpthread"] + opts.get("libs", "").replace(",", " ").split(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if optional and os.path.exists(exe + ".%d.a" % os.getpid()):
            os.remove(exe + ".%d.a" % os.getpid())
        if r.returncode == 0:
            os.rename(exe + ".%d" % os.getpid(), exe)
        return r
    need = wanted_sources(roots, lib)
    try:
        r = attempt(need, False)
    except BuildError as e:
        raise
    if r.returncode:
        # something moved to a file the header search does not see: use the whole library
        sys.stderr.write("link of the header closure failed, building the whole library\n%s\n" % r.stdout.decode()[-1500:])
        r = attempt(lib, True)
        if r.returncode:
            raise BuildError("link: " + r.stdout.decode("utf8", "replace")[-6000:])
    return exe, opts, len(need)

def main():
    pid, rest = sys.argv[1], sys.argv[2:]
    if pid == "--setup":   # nothing to install: every check builds what it needs from the current tree
        for d in (BUILD, os.path.join(VERIF, "evidence"), os.path.join(VERIF, "replays")):
            os.makedirs(d, exist_ok=True)
        return subprocess.run(["g++", "--version"], stdout=subprocess.DEVNULL).returncode
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" or "--thorough" in rest else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    known = []
    kf = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(kf):
        for line in open(kf):
            if line.strip():
                e = json.loads(line)
                if e["property"] == pid and e["status"] == "known":
                    known.append(e)
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, VPT_PROPERTY=pid, VPT_REPLAYDIR=replays,
               VPT_KNOWN=" ".join(e["id"] for e in known), VERIF_REPO=REPO,
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=0")
    py = os.path.join(VERIF, "harness", pid + ".py")
    result = os.path.join(BUILD, pid + ".json")
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(result):
        os.remove(result)
    if os.path.exists(py):
        cmd, opts, nsrc = ["/opt/veriftools/pyvenv/bin/python3", py], {}, 0
        if "--build" in rest:
            return 0
    else:
        try:
            exe, opts, nsrc = build(pid)
        except BuildError as e:
            sys.stderr.write("BUILD FAILED: %s\n" % e)
            return 2
        cmd = [exe]
        if "--build" in rest:
            return 0
    tb = time.time() - t0
    if "--replay" in rest:
        return subprocess.run(cmd + ["replay", rest[rest.index("--replay") + 1]], env=env).returncode
    r = subprocess.run(cmd + ["run", result], env=env, cwd=BUILD)
    if r.returncode not in (0, 1) or not os.path.exists(result):
        sys.stderr.write("harness ended with status %d\n" % r.returncode)
        return 2
    res = json.load(open(result))
    f = res["facets"]
    evals = sum(x["evaluations"] for x in f)
    dist = sum(x["distinct_nontrivial"] for x in f)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": dist,
                       "rule": " | ".join("%s: %s" % (x["name"], x["rule"]) for x in f),
                       "samples": [{"facet": x["name"], "case": s} for x in f for s in x["samples"][:1]] or ["no passing non-trivial case in this run"],
                       "facets": [{k: x[k] for k in ("name", "planned", "evaluations", "discarded", "nontrivial", "distinct_nontrivial", "labels", "wall_s")} for x in f],
                       "known_finding_hits": res.get("known", {}), "library_sources_built": nsrc, "build_s": round(tb, 1)},
          "assumptions": res.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(res["violations"])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    for e in known:
        if res.get("known", {}).get(e["id"], 0) or e.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    for v in res["violations"]:
        print(v)
    print("property %s tier %s seed %d: %d cases, %d distinct non-trivial, %d violations, build %.1fs, total %.1fs" % (pid, tier, seed, evals, dist, len(res["violations"]), tb, time.time() - t0))
    return 1 if res["violations"] else 0

if __name__ == "__main__":
    sys.exit(main())
