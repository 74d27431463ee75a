"""mkseed(id, property, file, old, new, needs, breaks, demo): writes seeded/<id>/ from a textual edit of /repo's HEAD."""
import json, os, shutil, subprocess, tempfile
DEMO_SH = r'''#!/bin/bash
# exit 0: the property holds in this tree's demonstration; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "${t:?}"' EXIT
P=$PWD/packages
g++ -std=@STD@ -w -DDRAFTER_BUILD_STATIC=1 @FLAGS@ \
  @SHIM@-I$P/boost -I$P/apib/include -I$P/apib/src -I$P/apib-parser/include -I$P/apib-parser/src \
  -I$P/apib-parser/src/snowcrash -I$P/apib-parser/src/markdown-parser -I$P/drafter/src \
  "$d/demo.cc" @SRCS@-Wl,--start-group _build/libdrafter.a _build/libapib-parser.a _build/libapib.a -Wl,--end-group \
  -lpthread -o "$t/demo" || exit 2
(cd "$t" && timeout 60 ./demo)
'''
FULL_SH = r'''#!/bin/bash
# exit 0: the property holds in this tree's demonstration; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "${t:?}"' EXIT
P=$PWD/packages
n=0
for s in @SRCS@; do
  n=$((n+1)); echo "$s $t/$n.o"
done | xargs -P 8 -L 1 sh -c 'g++ -std=c++17 -O0 -w -DDRAFTER_BUILD_STATIC=1 @FLAGS@ \
  -I'"$d"'/shim -I'"$d"'/shim/tao -I'"$d"'/shim/sundown -I'"$P"'/boost -I'"$P"'/apib/include -I'"$P"'/apib/src -I'"$P"'/apib-parser/include -I'"$P"'/apib-parser/src \
  -I'"$P"'/apib-parser/src/snowcrash -I'"$P"'/apib-parser/src/markdown-parser -I'"$P"'/drafter/src -c "$0" -o "$1"' || exit 2
g++ "$t"/*.o -Wl,--start-group _build/libdrafter.a _build/libapib-parser.a _build/libapib.a -Wl,--end-group -lpthread -o "$t/demo" || exit 2
(cd "$t" && timeout 60 ./demo)
'''
def full_sources():
    """the sources of the repository that the build here leaves out, for want of the submodules"""
    import sys
    sys.path.insert(0, "/verif")
    import check
    src = check.sources()
    return [s.replace("/repo/packages", "$P") for s in src["so"] + src["full"] if s.startswith("/repo")] + ["$d/shim/sundown/sundown.cc", "$d/demo.cc"]
def mkseed(id, prop, edits, needs, breaks, demo, flags="", shim=False, srcs=(), full=False):
    """shim: the demo brings the stand-ins for the absent submodules; srcs: sources it compiles besides the libraries"""
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="seedmk") as t:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w", "HEAD"])
        try:
            for path, old, new in edits:
                f = f"{t}/w/{path}"
                s = open(f).read()
                assert s.count(old) == 1, (id, path, s.count(old))
                open(f, "w").write(s.replace(old, new))
            diff = subprocess.check_output(["git", "-C", t + "/w", "diff"]).decode()
        finally:
            subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"])
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cc", "w").write(demo.lstrip())
    if shim or full:
        shutil.copytree("/verif/shim", d + "/shim", dirs_exist_ok=True)
        srcs = list(srcs) + ["@V/sundown/sundown.cc"] * any("MarkdownParser.cc" in x for x in srcs)
    if full:
        srcs = []
    text = FULL_SH.replace("@SRCS@", " ".join(full_sources())).replace("@FLAGS@", flags) if full else DEMO_SH.replace("@FLAGS@", flags).replace("@STD@", "c++17" if shim else "c++14")
    text = text.replace("@SHIM@", '-I$d/shim -I$d/shim/tao -I$d/shim/sundown ' if shim else "")
    text = text.replace("@SRCS@", "".join((x.replace("@V", "$d/shim") if x[0] == "@" else "$P/" + x) + " " for x in srcs))
    open(d + "/demo.sh", "w").write(text)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("made", id)
