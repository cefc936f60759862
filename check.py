#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the harness of one property from /repo's current working tree (an
optimised build for volume and a sanitizer build for depth) and runs both.
Exit 0: held on everything explored. Exit 1: VIOLATION printed.
"""
import glob, hashlib, json, os, subprocess, sys, threading, shutil, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LEXERTL_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
FAST = ["g++", "-std=c++17", "-O1", "-g0", "-D_GLIBCXX_ASSERTIONS", "-w"]
SAN = ["clang++", "-std=c++17", "-O0", "-g1", "-w", "-fsanitize=address,undefined",
       "-fno-sanitize-recover=all", "-DSAN_BUILD"]
# coverage-guided: libFuzzer makes the choices of the same harness
COV = ["clang++", "-std=c++17", "-O1", "-g1", "-w",
       "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all",
       "-DSAN_BUILD", "-DPBT_FUZZ"]
ENV = dict(os.environ, LC_ALL="C.UTF-8",
           ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=0:"
                        "handle_abort=0:symbolize=0:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=0:symbolize=0")

# property -> per-build share of the cases
SHARES = {"P10": {"cov": 0.06}, "P11": {"san": 0.05}, "P13": {"san": 0.08}, "P14": {"san": 0.1}}


def fuzzer_lib():
    d = subprocess.run(["clang++", "-print-runtime-dir"], stdout=subprocess.PIPE, text=True).stdout.strip()
    for n in ("libclang_rt.fuzzer_no_main.a", "libclang_rt.fuzzer_no_main-x86_64.a"):
        if os.path.exists(os.path.join(d, n)):
            return os.path.join(d, n)
    return None


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        for root, dirs, files in os.walk(p) if os.path.isdir(p) else [(os.path.dirname(p), [], [os.path.basename(p)])]:
            dirs.sort()
            for f in sorted(files):
                fp = os.path.join(root, f)
                h.update(fp.encode())
                with open(fp, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build(prop, kind, out):
    """Compile; cached on the contents of everything that goes in."""
    cmd = {"fast": FAST, "san": SAN, "cov": COV}[kind]
    src = os.path.join(VERIF, "src", prop + ".cpp")
    key = hashlib.sha256((tree_hash([os.path.join(REPO, "include"), os.path.join(VERIF, "src")])
                          + " ".join(cmd)).encode()).hexdigest()
    exe = os.path.join(BUILD, "%s-%s" % (prop, kind))
    stamp = exe + ".key"
    try:
        if open(stamp).read() == key and os.path.exists(exe):
            out[kind] = (exe, "")
            return
    except OSError:
        pass
    tmp = exe + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-I", os.path.join(REPO, "include"),
                              '-DREPO_INCLUDE="%s"' % os.path.join(REPO, "include"),
                              '-DSCRATCH="%s"' % BUILD, src, "-o", tmp, "-lpthread"]
                       + ([fuzzer_lib()] if kind == "cov" else []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        out[kind] = (None, r.stdout)
        return
    os.replace(tmp, exe)
    with open(stamp, "w") as f:
        f.write(key)
    out[kind] = (exe, "")


def unusable(prop, log):
    """The harness does not compile.  If that is so because part of the public interface, used as documented in
    src/<id>.use.cpp, does not compile although all headers do, the property is violated.  Returns the exit code."""
    use = os.path.join(VERIF, "src", prop + ".use.cpp")
    if not os.path.exists(use):
        return 2
    heads = os.path.join(BUILD, prop + "-heads.cpp")
    with open(heads, "w") as f:
        for n in sorted(os.listdir(os.path.join(REPO, "include", "lexertl"))):
            if n.endswith(".hpp"):
                f.write("#include <lexertl/%s>\n" % n)
        f.write("int main() {}\n")

    def ok(src):
        return subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-w", "-I", os.path.join(REPO, "include"), src],
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    if not ok(heads) or ok(use):
        return 2
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", prop + "-uncompilable.txt")
    with open(path, "w") as f:
        f.write("The calls in src/%s.use.cpp, of the public interface, do not compile.\n\n%s" % (prop, log[-4000:]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    replay = None
    scale = 1.0
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
        elif args[i] == "--seed":
            seed = args[i + 1]
        elif args[i] == "--replay":
            replay = os.path.abspath(args[i + 1])
        elif args[i] == "--scale":
            scale = float(args[i + 1])
        i += 2
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    t0 = time.time()
    kinds = ["fast", "san"]
    if not replay and fuzzer_lib() and (tier == "thorough" or "cov" in SHARES.get(prop, {})):
        kinds.append("cov")
    built = {}
    th = [threading.Thread(target=build, args=(prop, k, built)) for k in kinds]
    [t.start() for t in th]
    [t.join() for t in th]
    for k in kinds:
        if built[k][0] is None:
            print("check.py: the %s harness of %s does not compile against %s" % (k, prop, REPO))
            print(built[k][1][-4000:])
            return unusable(prop, built[k][1])
    compile_s = time.time() - t0
    if replay:
        rc = 0
        for k in kinds:
            print("== %s build" % k)
            sys.stdout.flush()
            rc |= subprocess.run([built[k][0], "--replay", replay], env=ENV).returncode
        return rc
    for d in glob.glob(os.path.join(BUILD, "scratch-*")):  # left by processes that died
        shutil.rmtree(d, ignore_errors=True)
    parts = []
    rc = 0
    budget = 330 if tier == "quick" else 5000
    for k in kinds:
        share = SHARES.get(prop, {}).get(k, {"fast": 1.0, "san": 0.15, "cov": 0.05}[k]) * scale
        out = os.path.join(BUILD, "%s-%s.json" % (prop, k))
        if os.path.exists(out):
            os.unlink(out)
        cmd = [built[k][0], "--seed", str(int(seed) + {"fast": 0, "san": 1000003, "cov": 2000003}[k]), "--out", out,
               "--known", os.path.join(VERIF, "known_findings.txt"),
               "--replays", os.path.join(VERIF, "replays"), "--scale", str(share), "--max-s", str(budget)]
        if tier == "thorough":
            cmd.append("--thorough")
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        text = r.stdout
        if k != "fast":  # known findings were printed by the first build
            text = "\n".join(l for l in text.split("\n") if not l.startswith("KNOWN-FINDING"))
        print("[%s] %s" % (k, text.rstrip("\n")) if not text.startswith(("VIOLATION", "KNOWN", "----")) else text.rstrip("\n"))
        sys.stdout.flush()
        if r.returncode not in (0, 1):
            print("check.py: harness ended with %s\n%s" % (r.returncode, r.stderr[-2000:]))
            return 2
        if os.path.exists(out):
            parts.append((k, json.load(open(out))))
        if r.returncode == 1:
            rc = 1
            break
    ev = parts[0][1]
    if len(parts) > 1:
        for k, p in parts[1:]:
            c, d = ev["coverage"], p["coverage"]
            for key in ("evaluations", "distinct_nontrivial", "discarded"):
                c[key] += d[key]
            c["truncated_by_time"] = c["truncated_by_time"] or d["truncated_by_time"]
            for m in ("per_subcheck", "classes"):
                for n, v in d[m].items():
                    c[m][n] = c[m].get(n, 0) + v
            c["samples"] = c["samples"] + d["samples"][:2]
            ev["violations"] += p["violations"]
    ev["coverage"]["builds"] = {k: {"evaluations": p["coverage"]["evaluations"] if k != parts[0][0] else None,
                                    "wall_s": p["wall_s"]} for k, p in parts}
    for k in ev["coverage"]["builds"]:
        ev["coverage"]["builds"][k].pop("evaluations")
    ev["seed"] = int(seed)
    ev["tier"] = "thorough" if tier == "thorough" else "quick"
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["coverage"]["compile_s"] = round(compile_s, 2)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    return rc


if __name__ == "__main__":
    sys.exit(main())
