"""Helper for planting bugs: seed(id, property, [(file, old, new)...], needs, breaks, includes, body) writes seeded/<id>/, confirms it and runs the check."""
import json, os, re, subprocess, sys
if not os.environ.get("SEED_NS"):
    # work on a copy of the repository, mounted at /repo in a mount namespace of our own
    c = "/tmp/seedrepo.%d" % os.getpid()
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", 'cp -a /repo "$0" && mount --bind "$0" /repo && shift 0 && exec env SEED_NS=1 python3 "$@"', c] + sys.argv)
    subprocess.run(["rm", "-rf", c])
    sys.exit(r.returncode)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = '''#!/bin/bash
# Builds demo.cpp against the library in /repo/_build and runs it in a scratch directory.
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -O1 -w -DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS -DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER -DTAG_PARSER_STATIC \\
    -I"$r/_build/shim" -I"$r/.." -I"$r" -I"$r/_build" -isystem /usr/include/martchus-c++utilities \\
    "$d/demo.cpp" "$r/_build/libtagparser.a" /usr/lib/x86_64-linux-gnu/libmartchus-c++utilities.so.5.24.5 -lz -lcrypto -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
'''
def sh(c, timeout=1200):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
def build_test():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: return "BUILD FAILED\n" + b.stdout[-3000:]
    sh("bash /opt/vp/test.sh /tmp/seed-o.json")
    n = set(json.load(open("/tmp/seed-o.json"))["passed"]); want = json.load(open("/opt/vp/BASELINE.json"))
    want = set(want["stable"])
    return "" if n >= want and len(n) >= 28 else "TESTS FAILED %d %s" % (len(n), want - n)
def seed(id, prop, edits, needs, breaks, includes, body, check=True, only="", tests=True):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    cpp = "".join("#include <%s>\n" % i for i in includes.split()) + "#include <iostream>\n#include <sstream>\n#include <string>\n#include <vector>\n#include <cstring>\n" \
        "namespace CppUtilities {}\nnamespace TagParser {}\nusing namespace std;\nusing namespace TagParser;\nusing namespace CppUtilities;\n" \
        "static int fails = 0;\n#define CHECK(x) do { if (!(x)) { ++fails; std::cerr << \"failed: \" #x << std::endl; } } while (0)\n" + \
        "struct Mem : public stringstream { Mem(const string &s = string()) : stringstream(s, ios_base::in | ios_base::out | ios_base::binary) { exceptions(ios_base::failbit | ios_base::badbit); } };\n" + body
    cpp = cpp.replace("return fails;", "return fails ? 1 : 0;")
    if "int main" not in body: raise SystemExit("no main")
    open(d + "/demo.cpp", "w").write(cpp); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    if tests:
        e = build_test()
        if e: print(id, "unchanged:", e); return False
        r = sh("cd /repo && bash %s/demo.sh" % d)
        if r.returncode: print(id, "DEMO FAILS UNCHANGED", r.returncode, r.stdout[-2500:]); return False
    try:
        for f, old, new in edits:
            p = os.path.join(R, f); s = open(p).read()
            if s.count(old) != 1: print(id, "edit does not match once:", f, s.count(old), repr(old)); return False
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        if tests:
            e = build_test()
            if e: print(id, "patched:", e); return False
            r = sh("cd /repo && bash %s/demo.sh" % d)
            if r.returncode in (0, 2): print(id, "DEMO DOES NOT FAIL WITH THE PATCH", r.returncode, r.stdout[-2500:]); return False
        if check:
            r = sh("cd /verif && timeout 900 python3 check.py %s --tier quick %s" % (prop, "--only " + only if only else ""))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(id, prop, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, v[:1])
            if not (r.returncode == 1 and v): print(r.stdout[-1500:])
        else: print(id, prop, "confirmed")
    finally:
        sh("git -C /repo checkout -- .")
    return ok
