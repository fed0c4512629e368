#!/usr/bin/env python3
"""mkbug.py SPEC.py: writes seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json} from a spec with ID, EDITS, PROPERTY, NEEDS, BREAKS, DEMO."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = {}
exec(open(sys.argv[1]).read(), s)
d = os.path.join(V, "seeded", s["ID"])
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"], text=True).strip()
try:
    for f, a, b in s["EDITS"]:
        p = os.path.join("/repo/cpp/include/gatl", f)
        t = open(p, newline="").read()
        if "\r\n" in t:
            a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
        assert t.count(a) == 1, (f, t.count(a), a)
        open(p, "w", newline="").write(t.replace(a, b))
    open(os.path.join(d, "patch.diff"), "wb").write(subprocess.check_output(["git", "-C", "/repo", "diff"]))
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
open(os.path.join(d, "demo.cpp"), "w").write("""// Exits 0 when the library gives the values that the algebra defines.
%s
#include <cmath>
#include <cstdio>
#include <iostream>
template<typename X> double coeff(X const &x, unsigned long blade) {
    double r = 0;
    ga::for_each_component(x, [&](auto b, auto v, auto, auto, bool &) { if (static_cast<unsigned long>(b) == blade) r += double(v); });
    return r;
}
static int bad = 0;
static void expect(char const *what, double got, double want) {
    if (!(std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)))) { std::printf("%%s: got %%.12g, expected %%.12g\\n", what, got, want); bad = 1; }
}
int main() {
%s
    return bad;
}
""" % (s.get("INCLUDES", "#include <gatl/ga3e.hpp>\n#include <gatl/ga3c.hpp>"), s["DEMO"].strip("\n")))
open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# Run with cwd /repo. Compiles demo.cpp against the library and runs it.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
/usr/bin/g++-11 -std=c++17 -O0 -w -I cpp/include "$here/demo.cpp" -o "$out/demo" || exit 3
"$out/demo"
""")
