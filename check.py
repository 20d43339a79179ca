#!/usr/bin/env python3
"""Builds the library from the repository's working tree together with the
harness of one property, explores, and writes the evidence.

usage: check.py <property id>      (tier from VERIF_TIER, seed from VERIF_SEED)

exit 0: the property held on everything explored
exit 1: it is broken; a line VIOLATION property=<id> replay=<path> is printed
other : no answer (the tree does not build, ...)
"""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIBS = ("-labsl_status -labsl_statusor -labsl_str_format_internal -labsl_strings "
        "-labsl_strings_internal -labsl_raw_logging_internal -labsl_cord -labsl_base "
        "-labsl_throw_delegate -lpthread").split()
SANITIZED = {"C17"}

def flags(prop, tsan=False):
    f = ["-std=c++20", "-g0", "-I" + os.path.join(HERE, "shim"), "-I" + REPO,
         "-I" + os.path.join(HERE, "harness"), "-Wno-everything"]
    if tsan:
        f += ["-O1", "-fsanitize=thread"]
    elif prop in SANITIZED:
        f += ["-O1", "-fsanitize=address,undefined,float-cast-overflow",
              "-ftrivial-auto-var-init=pattern",
              "-fno-sanitize-recover=all", "-fno-sanitize=float-divide-by-zero",
              "-D_GLIBCXX_ASSERTIONS"]
    else:
        f += ["-O2"]
    return f

def library_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "ink_stroke_modeler")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cc") and not f.endswith("_test.cc") and f != "type_matchers.cc":
                out.append(os.path.join(root, f))
    return out

def build(prop, scratch, tsan=False):
    if tsan:
        scratch = os.path.join(scratch, "tsan")
        os.mkdir(scratch)
    harness = os.path.join(HERE, "harness")
    srcs = [os.path.join(harness, prop.lower() + ".cc"), os.path.join(harness, "explore.cc")]
    srcs += library_sources()
    fl = flags(prop, tsan)
    def compile(ix_src):
        ix, src = ix_src
        obj = os.path.join(scratch, "%d.o" % ix)
        # VERIF_FLAGS: for trying out other roundings of the library by hand.
        more = os.environ.get("VERIF_FLAGS", "").split() if src.startswith(REPO) else []
        r = subprocess.run(["clang++-18"] + fl + more + ["-c", src, "-o", obj],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return src, obj, r.returncode, r.stdout
    objs = []
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for src, obj, rc, out in ex.map(compile, list(enumerate(srcs))):
            if rc != 0:
                print("cannot compile", src)
                print(out[:4000])
                sys.exit(2)
            objs.append(obj)
    exe = os.path.join(scratch, "check")
    san = ["-fsanitize=address,undefined"] if prop in SANITIZED else []
    if tsan:
        san = ["-fsanitize=thread"]
    r = subprocess.run(["clang++-18"] + san + ["-o", exe] + objs + LIBS,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("cannot link")
        print(r.stdout[:4000])
        sys.exit(2)
    return exe

def threads(exe, replay):
    """C06: pairs of modelers on two threads under ThreadSanitizer."""
    env = dict(os.environ)
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
    r = subprocess.run([exe, "--threads"], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    m = re.search(r"threads: (\d+) pairs", r.stdout)
    if r.returncode == 0 and m:
        print(m.group(0), "without a conflicting access")
        return int(m.group(1)), False
    if "WARNING: ThreadSanitizer: data race" in r.stdout:
        with open(replay, "w") as f:
            f.write("two modelers used by two threads touch the same memory\n\n" + r.stdout)
        print(r.stdout[:3000])
        return 0, True
    print("ThreadSanitizer does not run here; pairs of threads not explored\n" + r.stdout[:500])
    return 0, False

def known_findings(prop):
    """Lines 'open: property=<id> match=<regex> :: <what fails>' of KNOWN_FINDINGS."""
    out = []
    try:
        for line in open(os.path.join(HERE, "KNOWN_FINDINGS")):
            m = re.match(r"open: property=(\S+) match=(\S+) :: (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out

def main():
    prop = sys.argv[1]
    extra = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in manifest["checks"] if c["property"] == prop), "model_checking")
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    replay = os.path.join(HERE, "replays", prop + ".txt")
    if os.path.exists(replay):
        os.remove(replay)
    scratch = tempfile.mkdtemp(prefix="vx_" + prop + "_")
    try:
        exe = build(prop, scratch)
        tb = time.time() - t0
        stats_path = os.path.join(scratch, "stats.json")
        cmd = [exe, "--stats", stats_path, "--replay-out", replay,
               "--workers", str(min(16, os.cpu_count() or 8))]
        if tier == "thorough":
            cmd.append("--thorough")
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "allocator_may_return_null=0:max_malloc_fill_size=1073741824:malloc_fill_byte=255:max_allocation_size_mb=2048:detect_leaks=0:abort_on_error=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=0"
        if extra:
            sys.exit(subprocess.run([exe] + extra, env=env).returncode)
        r = subprocess.run(cmd, env=env)
        rc = r.returncode
        stats = json.load(open(stats_path)) if os.path.exists(stats_path) else {}
        if prop == "C06" and rc == 0:
            pairs, race = threads(build(prop, scratch, tsan=True), replay)
            stats["thread_pairs_without_conflicting_access"] = pairs
            if race:
                rc = 1
                stats["violations"] = 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    assumptions = stats.pop("assumptions", [])
    violations = stats.pop("violations", 0)
    message = stats.pop("message", "")
    assumptions += [
        "the library is compiled from the working tree with clang 18 (-O2, or -O1 with sanitizers for C17) against the installed abseil, with /verif/shim standing in for the newer AbslStringify support that the formatting code needs",
        "outside the enumerated bounds (see spaces) nothing is claimed"]
    stats["build_s"] = round(tb, 1)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=stats,
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=violations)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if rc == 1 and violations:
        text = open(replay).read() if os.path.exists(replay) else message
        for pattern, what in known_findings(prop):
            if re.search(pattern, text):
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
                sys.exit(0)
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.exit(1)
    if rc != 0:
        print("the exploration gave no answer (status %d)" % rc)
        sys.exit(2)
    sys.exit(0)

main()
