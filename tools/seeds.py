#!/usr/bin/env python3
"""Planted bugs: seeds/*.py definitions -> /verif/seeded/<id>/ and their verification.

  seeds.py write [id...]     write seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json}
  seeds.py verify [id...]    scratch copy: applies, builds, stable tests, demo, property check
"""
import glob, json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SCRATCH = os.environ.get("SEED_SCRATCH", "/tmp/seed")
PRE = r'''#include <lexertl/generator.hpp>
#include <lexertl/iterator.hpp>
#include <lexertl/lookup.hpp>
#include <cstdio>
#include <string>

// Tokens as "id:user_id:text " with npos as "-".
template<typename SM, typename Results>
std::string run(const SM& sm, Results r, std::size_t limit = 1000)
{
    std::string out;
    for (std::size_t i = 0; i < limit; ++i)
    {
        lexertl::lookup(sm, r);
        if (r.id == sm.eoi()) return out;
        out += r.id == r.npos() ? "-" : std::to_string(r.id);
        out += ':';
        out += r.user_id == r.npos() ? "-" : std::to_string(r.user_id);
        out += ':' + std::string(r.first, r.second) + ' ';
    }
    return out + "...";
}

inline int same(const std::string& got, const std::string& want)
{
    if (got == want) return 0;
    std::printf("got  %s\nwant %s\n", got.c_str(), want.c_str());
    return 1;
}

'''
DEMO_SH = '''#!/bin/bash
# Compiles and runs demo.cpp against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -w -I "$PWD/include" %s "$here/demo.cpp" -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 120 ./demo
'''


def load():
    seeds = {}
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for s in ns["SEEDS"]:
            assert s["id"] not in seeds, s["id"]
            seeds[s["id"]] = s
    return seeds


def edit(root, s):
    for f, old, new in s["edits"]:
        p = os.path.join(root, f)
        t = open(p, newline="").read()
        crlf = "\r\n" in t
        t = t.replace("\r\n", "\n")
        old, new = old.strip("\n"), new.strip("\n")
        if t.count(old) != 1:
            raise SystemExit("%s: %d matches in %s" % (s["id"], t.count(old), f))
        t = t.replace(old, new)
        if crlf:
            t = t.replace("\n", "\r\n")
        open(p, "w", newline="").write(t)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def refresh():
    if not os.path.isdir(SCRATCH):
        sh("cp -a %s %s" % (REPO, SCRATCH))
        shutil.rmtree(os.path.join(SCRATCH, "_build"), ignore_errors=True)
    head = sh("git -C %s rev-parse HEAD" % REPO).stdout.strip()
    r = sh("git -C {0} fetch -q {1} && git -C {0} checkout -qf {2} && git -C {0} checkout -q -- . ".format(
        SCRATCH, REPO, head))
    assert r.returncode == 0, r.stdout


def write(s):
    refresh()
    edit(SCRATCH, s)
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", SCRATCH, "diff"], stdout=subprocess.PIPE).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    sh("git -C %s checkout -q -- ." % SCRATCH)
    open(os.path.join(d, "demo.cpp"), "w").write((PRE if s.get("pre", True) else "") + s["demo"].lstrip("\n"))
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(DEMO_SH % s.get("flags", ""))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), f, indent=1)
        f.write("\n")


def verify(s):
    d = os.path.join(V, "seeded", s["id"])
    refresh()
    res = {}
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd=SCRATCH)
    res["demo clean"] = "ok" if r.returncode == 0 else "FAILS:" + r.stdout[-500:]
    r = sh("git -C %s apply %s/patch.diff" % (SCRATCH, d))
    assert r.returncode == 0, r.stdout
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd=SCRATCH)
    res["demo patched"] = "fails(%d)" % r.returncode if r.returncode not in (0, 2, 3) else "BAD %d %s" % (
        r.returncode, r.stdout[-500:])
    for n in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + n).read().replace("/repo", SCRATCH).replace("/opt/vp/build.sh", "/tmp/seed_build.sh")
        open("/tmp/seed_" + n, "w").write(t)
    r = sh("bash /tmp/seed_build.sh && bash /tmp/seed_test.sh /tmp/seed_out.json")
    if r.returncode and not os.path.exists("/tmp/seed_out.json"):
        res["tests"] = "BUILD FAILED " + r.stdout[-800:]
    else:
        out = json.load(open("/tmp/seed_out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base.get("tests")
        missing = [t for t in stable if t not in out["passed"]]
        res["tests"] = "%d/%d" % (len(stable) - len(missing), len(stable)) if not missing else "MISSING %r" % missing[:5]
    env = dict(os.environ, LEXERTL_REPO=SCRATCH, VERIF_SEED="1")
    r = sh(["./check.py", s["property"], "--tier", "quick"], cwd=V, env=env)
    vl = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    res["check"] = "caught" if r.returncode == 1 and vl else "MISSED rc=%d" % r.returncode
    sh("git -C %s checkout -q -- ." % SCRATCH)
    print(s["id"], s["property"], res, flush=True)
    return res


def main():
    seeds = load()
    ids = sys.argv[2:] or list(seeds)
    for i in ids:
        if sys.argv[1] in ("write", "all"):
            write(seeds[i])
        if sys.argv[1] in ("verify", "all"):
            verify(seeds[i])


main()
