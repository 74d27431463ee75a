#!/usr/bin/env python3
"""check.py ID [--thorough] | --setup | --replay FILE

Builds the drivers of property ID from /repo's working tree, runs every scenario of them to completion,
confirms each violation by replaying the single case in a fresh process, and writes evidence/ID.json.
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: an error of the check.
"""
import array, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PK = REPO + "/packages"
sys.path.insert(0, HERE)
from registry import CHECKS  # noqa: E402
from props import PROPS  # noqa: E402

TAG = "default" if REPO == "/repo" else hashlib.sha1(REPO.encode()).hexdigest()[:8]
BUILD = os.path.join(HERE, "build", TAG)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

# Sources that need sundown, PEGTL or MPark.Variant: built against the stand-ins under shim/
NOT_CORE = re.compile(
    r"(MediaTypeParser|MarkdownParser|Blueprint|BlueprintSourcemap|HTTP|HeadersParser|Signature|UriTemplateParser|"
    r"snowcrash|MSON\w*|ConversionContext|Mson\w*ToApie|NamedTypesRegistry|Render|RefractAPI|RefractDataStructure|"
    r"RefractElementFactory|RefractSourceMap|Serialize|SerializeResult|drafter|ElementUtils|JsonSchema|JsonUtils|"
    r"JsonValue|SerializeSo|JsonIo|Value|YamlIo)\.cc$"
)
# needs only MPark.Variant
SO = re.compile(r"/(JsonIo|Value|YamlIo|SerializeSo|ElementUtils|JsonSchema|JsonUtils|JsonValue)\.cc$")
SKIP = re.compile(r"/src/(main|config)\.cc$")

INCLUDES = [
    HERE + "/lib", BUILD + "/gen",
    PK + "/boost", PK + "/apib/include", PK + "/apib/src", PK + "/apib-parser/include", PK + "/apib-parser/src",
    PK + "/apib-parser/src/snowcrash", PK + "/apib-parser/src/markdown-parser", PK + "/drafter/src",
]
SHIM = [os.path.join(HERE, "shim/cmdline"), HERE + "/shim", HERE + "/shim/tao", HERE + "/shim/sundown"]
FLAVOURS = {
    "asan": "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer",
    "ubsan": "-O1 -g1 -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -fno-omit-frame-pointer",
    "plain": "-O2 -g1",
    "tsan": "-O1 -g1 -fsanitize=thread",
}
BASE = "-std=c++17 -w -DNDEBUG -D_GLIBCXX_ASSERTIONS -DDRAFTER_BUILD_STATIC=1 -DCMAKE_BUILD_TYPE=RelWithDebInfo"


def sources():
    core, so, full = [], [], []
    for pkg in ("apib", "apib-parser", "drafter"):
        with open(f"{PK}/{pkg}/CMakeLists.txt") as f:
            for line in f:
                m = re.match(r"^ +([A-Za-z0-9_./-]+\.cc) *$", line)
                if not m:
                    continue
                path = f"{PK}/{pkg}/{m.group(1)}"
                if SKIP.search(path) or path in core + so + full or not os.path.exists(path):
                    continue
                (so if SO.search(path) else full if NOT_CORE.search(path) else core).append(path)
    core.append(f"{PK}/apib-parser/src/snowcrash/posix/RegexMatch.cc")
    full.append(f"{PK}/drafter/src/drafter.cc")
    full.append(f"{HERE}/shim/sundown/sundown.cc")
    return {"core": core, "so": so, "full": full}


def version_h():
    text = open(PK + "/drafter/CMakeLists.txt").read()
    m = re.search(r"project\(Drafter VERSION ((\d+)\.(\d+)\.(\d+))", text)
    v = dict(PROJECT_VERSION=m.group(1), PROJECT_VERSION_MAJOR=m.group(2), PROJECT_VERSION_MINOR=m.group(3),
             PROJECT_VERSION_PATCH=m.group(4), DRAFTER_VERSION_IS_RELEASE="1")
    t = open(PK + "/drafter/src/Version.h.in").read()
    t = re.sub(r"@(\w+)@", lambda k: v.get(k.group(1), ""), t)
    t = re.sub(r"^#cmakedefine.*$", "", t, flags=re.M)
    out = BUILD + "/gen/Version.h"
    os.makedirs(BUILD + "/gen", exist_ok=True)
    if not os.path.exists(out) or open(out).read() != t:
        open(out, "w").write(t)


def obj(flavour, src):
    rel = "R" + src[len(REPO):] if src.startswith(REPO + "/") else "V" + src[len(HERE):]
    return f"{BUILD}/{flavour}/" + rel.replace("/", "_") + ".o"


def write_ninja():
    src = sources()
    o = ["ninja_required_version = 1.5", f"builddir = {BUILD}"]
    for f, flags in FLAVOURS.items():
        inc = " ".join("-I" + i for i in INCLUDES)
        shim = " ".join("-I" + i for i in SHIM)
        for kind, i in (("core", inc), ("shim", shim + " " + inc)):
            o.append(f"rule {kind}_{f}\n  command = g++ {BASE} {flags} {i} $extra -MMD -MF $out.d -c $in -o $out\n"
                     "  depfile = $out.d\n  deps = gcc\n  description = $in")
        o.append(f"rule link_{f}\n  command = g++ {flags} $objs -Wl,--start-group $libs -Wl,--end-group -o $out "
                 "-lpthread -ldl")
    o.append("rule ar\n  command = rm -f $out && ar rcs $out $in")
    libs, done = {}, set()

    def need(flavour, part):
        objs = []
        for s in src[part]:
            t = obj(flavour, s)
            objs.append(t)
            if t not in done:
                done.add(t)
                o.append(f"build {t}: {'core' if part == 'core' else 'shim'}_{flavour} {s}")
        lib = f"{BUILD}/{flavour}/lib{part}.a"
        if lib not in done:
            done.add(lib)
            o.append(f"build {lib}: ar {' '.join(objs)}")
        return [lib]

    targets = {}
    for pid, chk in CHECKS.items():
        for d in chk["drivers"]:
            f = d.get("flavour", "asan")
            parts = {"none": [], "core": ["core"], "so": ["core", "so"], "full": ["core", "so", "full"]}[d["lib"]]
            arch = []
            for p in parts:
                arch += need(f, p)
            dsrcs = [f"{HERE}/drivers/{x}" for x in [d["src"]] + d.get("extra_src", [])]
            name = f"{BUILD}/bin/{os.path.splitext(d['src'])[0]}_{f}"
            dobjs = []
            for ds in dsrcs:
                t = obj(f, ds)
                dobjs.append(t)
                if t not in done:
                    done.add(t)
                    o.append(f"build {t}: {'shim' if d['lib'] in ('so', 'full') else 'core'}_{f} {ds}\n"
                             f"  extra = {d.get('flags', '').replace('@REPO@', REPO)}")
            if name not in done:
                done.add(name)
                o.append(f"build {name}: link_{f} {' '.join(dobjs + arch)}\n  objs = {' '.join(dobjs)}\n"
                         f"  libs = {' '.join(arch)}")
            targets.setdefault(pid, []).append(name)
            d["bin"] = name
    os.makedirs(BUILD, exist_ok=True)
    text = "\n".join(o) + "\n"
    path = BUILD + "/build.ninja"
    if not os.path.exists(path) or open(path).read() != text:
        tmp = f"{path}.{os.getpid()}"
        open(tmp, "w").write(text)
        os.replace(tmp, path)
    return targets


def guard_stale():
    """ninja goes by time stamps: forget the objects when a source changed behind an older time stamp"""
    cur = {}
    for pkg in ("apib", "apib-parser", "drafter"):
        for sub in ("src", "include"):
            for root, _, files in os.walk(f"{PK}/{pkg}/{sub}"):
                for f in files:
                    q = os.path.join(root, f)
                    with open(q, "rb") as fh:
                        cur[q] = [hashlib.sha1(fh.read()).hexdigest(), os.stat(q).st_mtime]
    path = BUILD + "/sources.json"
    old = {}
    if os.path.exists(path):
        old = json.load(open(path))
        if any(q in old and old[q][0] != v[0] and v[1] <= old[q][1] for q, v in cur.items()):
            for f in FLAVOURS:
                shutil.rmtree(f"{BUILD}/{f}", ignore_errors=True)
    os.makedirs(BUILD, exist_ok=True)
    tmp = f"{path}.{os.getpid()}"
    json.dump(cur, open(tmp, "w"))
    os.replace(tmp, path)


def build(ids):
    guard_stale()
    version_h()
    targets = write_ninja()
    want = []
    for i in ids:
        want += [t for t in targets[i] if t not in want]
    import fcntl
    with open(BUILD + "/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(["ninja", "-C", BUILD, "-f", "build.ninja", f"-j{JOBS}"] + want, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        errs = [l for l in r.stdout.splitlines() if 'error' in l or 'undefined' in l or 'required from here' in l]
        print('\n'.join(errs[:25]) or r.stdout[-4000:])
        print("ERROR: the build failed")
        sys.exit(2)


class Status:
    SIZE = 8 + 4 + 4096 * 4 - 16

    def __init__(self, path):
        self.path = path

    def read(self):
        try:
            with open(self.path, "rb") as f:
                b = f.read()
        except OSError:
            return 0, ""
        if len(b) < 12:
            return 0, ""
        n, ln = struct.unpack("<QI", b[:12])
        return n, b[12:12 + ln].decode("latin-1")


def env_for():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=6000:allocator_may_return_null=0:" \
                        "detect_stack_use_after_return=0:handle_abort=1:symbolize=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    e["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1"
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    return e


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_one(d, scenario, shard, thorough, rundir, flt=None, stall=40, total=None):
    """-> dict: kind ok|crash|hang, plus result or case"""
    base = f"{rundir}/{os.path.basename(d['bin'])}.{scenario}.{shard}" + (".replay" if flt is not None else "")
    for f in (base, base + ".status", base + ".err"):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [d["bin"], "--scenario", scenario, "--shard", str(shard), "--out", base, "--status", base + ".status"]
    if thorough:
        cmd.append("--thorough")
    if flt is not None:
        open(base + ".filter", "wb").write(flt.encode("latin-1"))
        cmd += ["--filter-file", base + ".filter"]
    st = Status(base + ".status")
    with open(base + ".err", "wb") as err:
        p = subprocess.Popen(cmd, stdout=err, stderr=err, env=env_for(), preexec_fn=limits, cwd=rundir)
        last, since, start = -1, time.time(), time.time()
        while True:
            try:
                rc = p.wait(timeout=0.25)
                break
            except subprocess.TimeoutExpired:
                n, _ = st.read()
                now = time.time()
                if n != last:
                    last, since = n, now
                if now - since > stall or (total and now - start > total):
                    p.kill()
                    p.wait()
                    return dict(kind="hang" if now - since > stall else "timeout", case=st.read()[1], base=base)
    if rc == 0 and os.path.exists(base):
        return dict(kind="ok", result=json.load(open(base)), base=base)
    if rc == 3:
        return dict(kind="error", base=base, rc=rc)
    tail = open(base + ".err", errors="replace").read()
    return dict(kind="crash", case=st.read()[1], base=base, rc=rc, err=tail[:6000])


def crash_summary(r):
    if r["kind"] == "hang":
        return "does not terminate"
    for line in r["err"].splitlines():
        if "ERROR: AddressSanitizer" in line or "runtime error" in line or "terminate called" in line \
                or "WARNING: ThreadSanitizer" in line:
            return line.strip()[:300]
    return f"the process ended with status {r['rc']}"


def known():
    out = []
    path = HERE + "/known_findings.jsonl"
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


def bad(result, listed):
    return result["violations"] + [v for k, v in result["findings"].items() if k not in listed]


def check(pid, thorough):
    t0 = time.time()
    chk = CHECKS[pid]
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    build([pid])
    rundir = f"{BUILD}/run/{pid}.{os.getpid()}"
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    jobs = []
    for d in chk["drivers"]:
        if d.get("tier") == "thorough" and not thorough:
            continue
        lst = subprocess.run([d["bin"], "--list"], stdout=subprocess.PIPE, text=True, env=env_for(), check=True).stdout
        for line in lst.splitlines():
            name, shards = line.split()
            for s in range(int(shards)):
                jobs.append((d, name, s))
    results, lock = {}, threading.Lock()
    queue = list(range(len(jobs)))

    def worker():
        while True:
            with lock:
                if not queue:
                    return
                i = queue.pop(0)
            d, name, s = jobs[i]
            r = run_one(d, name, s, thorough, rundir)
            with lock:
                results[i] = r

    ts = [threading.Thread(target=worker) for _ in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]

    cov = dict(cases=0, steps=0, traces=0, nontrivial=0)
    states, outcomes, samples, counts, per, notes = set(), set(), [], {}, {}, []
    listed = {k["id"]: k for k in known() if k["property"] == pid and k["status"] == "known"}
    hit = {}
    viols = []  # (driver, scenario, shard, key, text, detail)
    for i, (d, name, s) in enumerate(jobs):
        r = results[i]
        if r["kind"] == "error":
            print(open(r["base"] + ".err", errors="replace").read()[-2000:])
            print("ERROR: driver error in", name)
            sys.exit(2)
        if r["kind"] != "ok":
            viols.append((d, name, s, r["case"], r["case"], crash_summary(r)))
            continue
        x = r["result"]
        for k in cov:
            cov[k] += x[k]
        p = per.setdefault(name, dict(cases=0, steps=0, states=0, outcomes=0))
        p["cases"] += x["cases"]
        p["steps"] += x["steps"]
        for k, v in x["counts"].items():
            counts[k] = counts.get(k, 0) + v
        notes += [n for n in x["notes"] if n not in notes]
        samples += [f"{name}: {t}" for t in x["samples"][:5 if s == 0 else 0]]
        for kind, acc in (("states", states), ("outcomes", outcomes)):
            a = array.array("Q")
            with open(r["base"] + "." + kind, "rb") as f:
                a.frombytes(f.read())
            # different scenarios explore different things: keep their states apart
            h = hash(name) & 0xffffffffffff
            acc.update((v ^ h) for v in a)
            p[kind] += len(a)
        for v in x["violations"]:
            viols.append((d, name, s, v["key"], v["text"], v["detail"]))
        # a driver names a finding only for a case that fails exactly as the finding says
        for fid, v in x["findings"].items():
            if fid in listed:
                hit[fid] = listed[fid]
            else:
                viols.append((d, name, s, v["key"], v["text"], v["detail"]))
    real = viols

    # one report per scenario: the first (simplest) case, replayed alone in a fresh process before it is believed
    reported, lost, rc = [], [], 0
    seen = {}
    for v in real:
        seen.setdefault((v[0]["bin"], v[1]), []).append(v)
    for (b, name), vs in seen.items():
        confirmed = None
        # failing that, after the cases before it: what a case does may depend on them where it should not
        for v, history in [(v, False) for v in vs[:3]] + [(vs[0], True)]:
            d, _, s, key, text, detail = v
            r = run_one(d, name, s, thorough, rundir, flt=None if history else key, stall=40 if history else 80)
            if r["kind"] in ("crash", "hang"):
                text = r["case"] or text
                detail = crash_summary(r)
            elif r["kind"] == "ok" and bad(r["result"], listed):
                detail = bad(r["result"], listed)[0]["detail"]
                text = bad(r["result"], listed)[0]["text"]
            else:
                continue
            if history:
                detail += " (after the cases before it)"
            confirmed = (v, text, detail, r, history)
            break
        if confirmed is None:
            lost.append(f"ERROR: {name}: case {vs[0][3]!r} ({vs[0][5]}) did not reproduce when replayed")
            continue
        v, text, detail, r, history = confirmed
        os.makedirs(f"{HERE}/replays", exist_ok=True)
        safe = re.sub(r"[^A-Za-z0-9_.-]", "_", name)
        path = f"replays/{pid}.{safe}.json"
        json.dump(dict(property=pid, driver=v[0]["src"], scenario=name, shard=v[2], key=v[3], case=text, detail=detail,
                       violating_cases=len(vs), thorough=thorough, history=history, log=r.get("err", "")[:3000]),
                  open(f"{HERE}/{path}", "w"), indent=1)
        reported.append((path, name, text, detail))
        rc = 1
    if lost:
        print("\n".join(lost))
        rc = rc or 2

    ev = dict(property=pid, tier=tier, seed=seed, level=chk["level"], wall_s=round(time.time() - t0, 2),
              violations=len(real), assumptions=chk.get("assumptions", []))
    c = dict(samples=[t if len(t) <= 600 else t[:600] + " ..." for t in samples[:40]], scenarios=per, distinct_outcomes=len(outcomes), **{("n_" + k): v for k, v in counts.items()})
    if chk["level"] == "model_checking":
        c.update(states=len(states), transitions=cov["steps"], traces_validated_against_impl=cov["traces"],
                 cases=cov["cases"])
    else:
        c.update(evaluations=cov["cases"], distinct_nontrivial=len(states), rule=chk["rule"], steps=cov["steps"])
    c["bounds"] = next((p["text"] for p in PROPS if p["id"] == pid), "")
    c["exhaustive"] = not any("cap" in n for n in notes)
    if notes:
        c["notes"] = notes
    ev["coverage"] = c
    os.makedirs(HERE + "/evidence", exist_ok=True)
    tmp = f"{HERE}/evidence/{pid}.json.{os.getpid()}"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, f"{HERE}/evidence/{pid}.json")

    for k in hit.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid} {tier}: cases={cov['cases']} steps={cov['steps']} states={len(states)} outcomes={len(outcomes)} "
          f"traces={cov['traces']} wall={ev['wall_s']}s")
    for path, name, text, detail in reported:
        print(f"  {name}: {text!r}: {detail}")
        print(f"VIOLATION property={pid} replay={path}")
    shutil.rmtree(rundir, ignore_errors=True)
    sys.stdout.flush()
    return rc


def replay(path):
    r = json.load(open(path))
    pid = r["property"]
    build([pid])
    d = next(x for x in CHECKS[pid]["drivers"] if x["src"] == r["driver"])
    rundir = f"{BUILD}/run/replay.{os.getpid()}"
    os.makedirs(rundir)
    x = run_one(d, r["scenario"], r["shard"], r["thorough"], rundir, flt=None if r.get("history") else r["key"], stall=80)
    listed = [k["id"] for k in known() if k["property"] == pid and k["status"] == "known"]
    wrong = x["kind"] in ("crash", "hang") or bool(bad(x["result"], listed))
    print(r["case"])
    if x["kind"] == "ok":
        print(bad(x["result"], listed) or "holds")
    else:
        print(crash_summary(x))
        print(x.get("err", "")[:3000])
    shutil.rmtree(rundir, ignore_errors=True)
    return 1 if wrong else 0


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    if "--setup" in sys.argv:
        build(list(CHECKS))
        return 0
    if "--replay" in sys.argv:
        return replay(a[0])
    thorough = "--thorough" in sys.argv or (os.environ.get("VERIF_TIER") == "thorough")
    rc = 0
    for pid in a:
        rc = max(rc, check(pid, thorough))
    return rc


if __name__ == "__main__":
    sys.exit(main())
