#!/usr/bin/env python3
"""Driver: builds the real wrench sources from /repo's working tree (per variant), links the
property's exhaustive explorer against them, runs it, and maps the result to exit 0 / exit 1.

  run.py <PROPERTY> <quick|thorough> [--replay FILE]
"""
import sys, os, re, json, hashlib, subprocess, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WR_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
FALLBACK = ["cc/cc","cc/expression","cc/link","cc/optimizer","cc/token","vm/operations","vm/operations_compact",
 "vm/operations_non_compact","vm/index","vm/gc","vm/gc_object","vm/vm","vm/scheduler","utils/utils","utils/serializer",
 "utils/linux_comm","debug/debug","debug/disassemble","debug/server_debug","debug/packet","debug/client_debug",
 "debug/server_interface_private","debug/client_interface_private","debug/tcp_debug_comm","debug/serial_debug_comm",
 "lib/std","lib/std_tcp","lib/std_io","lib/std_string","lib/std_math","lib/std_msg","lib/std_sys","lib/std_serialize",
 "lib/std_container","lib/debug_lib","lib/fastled_lib"]

def sources():
    out = []
    try:
        mk = open(os.path.join(REPO, "GNUmakefile")).read()
        for m in re.finditer(r"^\$\(OBJDIR\)/(\w+)\.o:\s*(\S+\.cpp)", mk, re.M):
            if os.path.exists(os.path.join(REPO, m.group(2))): out.append(m.group(2))
    except OSError:
        pass
    if not out:
        out = ["discrete_src/%s.cpp" % f for f in FALLBACK]
    seen = []
    for f in out:
        if f not in seen: seen.append(f)
    return seen

def tree_hash():
    h = hashlib.sha256()
    for base in ("discrete_src", "src"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cpp", ".h", ".hpp", ".c", ".inc", ".inl")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read()); h.update(b"\0")
    h.update(open(os.path.join(REPO, "GNUmakefile"), "rb").read())
    return h.hexdigest()

BASE = ["-iquote", "discrete_src", "-I.", "-w", "-g1", "-DWRENCH_LINUX_FILE_IO"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
# the feature sets of the three builds the project itself is tested in, plus documented build flags
VARIANTS = {
  "default":  [],
  "compact":  ["-DWRENCH_COMPACT"],
  "really":   ["-DWRENCH_COMPACT", "-DWRENCH_REALLY_COMPACT"],
  "slices":   ["-DWRENCH_TIME_SLICES", "-DWRENCH_PROTECT_STACK_FROM_OVERFLOW", "-DWRENCH_LINUX_TCP", "-DWRENCH_LINUX_SERIAL"],
  "ctcp":     ["-DWRENCH_COMPACT", "-DWRENCH_LINUX_TCP"],
  "cslices":  ["-DWRENCH_COMPACT", "-DWRENCH_TIME_SLICES", "-DWRENCH_PROTECT_STACK_FROM_OVERFLOW"],
  "unaligned":["-DWRENCH_UNALIGNED_READS"],
  "mfail":    ["-DWRENCH_HANDLE_MALLOC_FAIL"],
  "cmfail":   ["-DWRENCH_COMPACT", "-DWRENCH_HANDLE_MALLOC_FAIL"],
  "trapdiv":  ["-DWRENCH_TRAP_DIVISION_BY_ZERO"],
  "fsprintf": ["-DWRENCH_FLOAT_SPRINTF"],
}

def cfg_flags(spec):
    """spec: variant[+asan][+amal]"""
    parts = spec.split("+")
    fl = list(VARIANTS[parts[0]])
    san = "asan" in parts
    opt = ["-O1"]
    if san: fl += ASAN
    return fl, opt, ("amal" in parts)

class BuildError(Exception): pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return p.returncode, p.stdout

def build(prop, specs, log):
    """returns {spec: executable}"""
    th = tree_hash()
    hh = hashlib.sha256()
    for d in ("mc", "checks"):
        for f in sorted(os.listdir(os.path.join(HERE, d))):
            if d == "checks" and not (f.endswith(".h") or f == prop.lower() + ".cpp"): continue
            hh.update(open(os.path.join(HERE, d, f), "rb").read())
    out = {}
    jobs = []
    links = []
    for spec in specs:
        fl, opt, amal = cfg_flags(spec)
        key = hashlib.sha256((th + " ".join(fl + opt + BASE) + str(amal)).encode()).hexdigest()[:20]
        od = os.path.join(BUILD, "lib-" + key)
        os.makedirs(od, exist_ok=True)
        srcs = ["src/wrench.cpp"] if amal else sources()
        objs = []
        for s in srcs:
            o = os.path.join(od, s.replace("/", "_") + ".o")
            objs.append(o)
            if not os.path.exists(o):
                base = BASE if not amal else ["-Isrc", "-w", "-g1", "-DWRENCH_LINUX_FILE_IO"]
                jobs.append((["g++", "-std=c++98"] + opt + base + fl + ["-c", s, "-o"], o, REPO))
        ek = hashlib.sha256((key + hh.hexdigest() + prop).encode()).hexdigest()[:20]
        ho = os.path.join(BUILD, "h-%s.o" % ek)
        exe = os.path.join(BUILD, "x-%s" % ek)
        out[spec] = exe
        if not os.path.exists(exe):
            inc = ["-iquote", os.path.join(REPO, "src" if amal else "discrete_src")]
            jobs.append((["g++", "-std=c++17"] + opt + ["-w", "-g1", "-I" + os.path.join(HERE, "mc"), "-I" + os.path.join(HERE, "checks")] + inc +
                         ["-DWRENCH_LINUX_FILE_IO", '-DMC_VARIANT="%s"' % spec] + fl + ["-c", os.path.join(HERE, "checks", prop.lower() + ".cpp"), "-o"], ho, REPO))
            links.append((["g++"] + fl + [ho] + objs + ["-o"], exe, REPO))
    def run1(j):
        cmd, o, cwd = j
        tmp = o + ".%d.tmp" % os.getpid()
        rc, txt = sh(cmd + [tmp], cwd=cwd)
        if rc: raise BuildError(" ".join(cmd) + "\n" + txt[:3000])
        os.rename(tmp, o)
    order = {"vm_vm": 0, "cc": 1}
    jobs.sort(key=lambda j: 0 if ("h-" in j[1] or "vm_vm" in j[1] or "wrench.cpp" in j[1]) else 1)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        list(ex.map(run1, jobs))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        list(ex.map(run1, links))
    return out

def prune():
    """keep .build bounded"""
    try:
        ents = [os.path.join(BUILD, e) for e in os.listdir(BUILD)]
        ents.sort(key=os.path.getmtime, reverse=True)
        lim = time.time() - 3 * 3600
        for e in ents[160:]:
            if os.path.getmtime(e) < lim or len(ents) > 400:
                shutil.rmtree(e, ignore_errors=True) if os.path.isdir(e) else os.unlink(e)
    except OSError:
        pass

def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"): continue
            d = json.loads(l)
            if d.get("status") == "known" and d["property"] == prop: out.append(d)
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    replay = None
    if "--replay" in sys.argv: replay = sys.argv[sys.argv.index("--replay") + 1]
    os.makedirs(BUILD, exist_ok=True); prune()
    t0 = time.time()
    conf = json.load(open(os.path.join(HERE, "checks", "config.json")))[prop]
    specs = conf["variants"][tier] if isinstance(conf["variants"], dict) else conf["variants"]
    only = os.environ.get("MC_ONLY")
    if only: specs = [s for s in specs if s in only.split(",")]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    evdir = os.path.join(HERE, "evidence"); os.makedirs(evdir, exist_ok=True)
    rpdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rpdir, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": conf["level"], "coverage": {}, "wall_s": 0, "violations": 0,
          "assumptions": conf.get("assumptions", [])}
    def emit():
        ev["wall_s"] = round(time.time() - t0, 2)
        json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    if replay:
        r = json.load(open(replay)); specs = [r["variant"]]
    try:
        exes = build(prop, specs, None)
    except BuildError as e:
        print("build failed:\n" + str(e)[:4000]); emit(); sys.exit(3)
    tb = time.time() - t0
    if replay:
        rc, txt = sh([exes[specs[0]], "--tier", tier, "--replay-scenario", r["scenario"], "--replay-path", r["path"]], timeout=600, env=menv(specs[0]))
        print(txt); sys.exit(1 if rc else 0)
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    results = {}
    digests = {}
    viol = []
    timeup = False
    try:
        for spec in specs:
            outj = os.path.join(scratch, "out.json")
            if os.path.exists(outj): os.unlink(outj)
            left = (810 if tier == "quick" else 4 * 3600) - (time.time() - t0)
            if left < 5:
                print("time is up before variant " + spec); timeup = True; break
            env = menv(spec); env["MC_BUDGET"] = "%d" % left
            p = subprocess.run([exes[spec], "--tier", tier, "--out", outj, "--scratch", scratch, "--jobs", str(os.cpu_count() or 8)], cwd=scratch, env=env)
            if p.returncode != 0 or not os.path.exists(outj):
                print("explorer for %s failed to complete (rc %s)" % (spec, p.returncode)); emit(); sys.exit(3)
            r = json.load(open(outj)); results[spec] = r
            for v in r["violations"]:
                v["variant"] = spec; viol.append(v)
            if os.environ.get("MC_V"): print(spec, {k: r[k] for k in r if k not in ("violations", "samples")})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # cross-variant agreement of the per-scenario outcome digests (same alphabet, same bounds)
    if conf.get("cross") and not timeup and all(r["complete"] for r in results.values()):
        ref = results[specs[0]]["digests"]
        for spec in specs[1:]:
            for sc, d in results[spec]["digests"].items():
                if sc in ref and ref[sc] != d and int(d, 16) and int(ref[sc], 16) and not any(v["variant"] in (spec, specs[0]) and not v["key"].startswith("cross:") for v in viol):
                    viol += differences(exes, specs[0], spec, sc, tier)
    kf = known(prop)
    seen = set(); real = []
    for v in viol:
        k = next((d for d in kf if re.fullmatch(d["key"], v["key"]) and ("variant" not in d or re.fullmatch(d["variant"], v["variant"]))), None)
        if k:
            if k["what"] not in seen:
                seen.add(k["what"]); print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else: real.append(v)
    cov = {"evaluations": sum(r["evals"] for r in results.values()),
           "distinct_nontrivial": sum(r["distinct"] for r in results.values()),
           "states": sum(r["states"] for r in results.values()),
           "transitions": sum(r["transitions"] for r in results.values()),
           "traces_validated_against_impl": sum(r["traces"] for r in results.values()),
           "rule": conf["rule"], "exhaustive": all(r["complete"] for r in results.values()) and not timeup,
           "variants": {s: {"evaluations": r["evals"], "states": r["states"], "transitions": r["transitions"], "distinct_outcomes": r["distinct"],
                            "scenarios": r["scenarios"], "wall_s": r["wall"]} for s, r in results.items()},
           "bounds": conf["bounds"].get(tier, "") if isinstance(conf.get("bounds"), dict) else conf.get("bounds", ""),
           "build_s": round(tb, 1),
           "samples": [s for r in results.values() for s in r["samples"]][:12]}
    ev["coverage"] = cov; ev["violations"] = len(real)
    emit()
    print("property=%s tier=%s evaluations=%d states=%d transitions=%d distinct_outcomes=%d exhaustive=%s build=%.1fs wall=%.1fs" % (
        prop, tier, cov["evaluations"], cov["states"], cov["transitions"], cov["distinct_nontrivial"], cov["exhaustive"], tb, time.time() - t0))
    if real:
        for i, v in enumerate(real[:int(os.environ.get("MC_SHOW", "20"))]):
            rp = os.path.join(rpdir, "%s-%d.json" % (prop, i))
            json.dump(v, open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  [%s] %s path=%s key=%s: %s" % (v["variant"], v["scenario"], v["path"], v["key"], v["msg"][:600]))
        sys.exit(1)
    sys.exit(0)

def differences(exes, a, b, sc, tier):
    """the executions whose outcome differs between two variants (digests disagreed)"""
    d = tempfile.mkdtemp(prefix="mc-diff-"); got = []
    try:
        for s in (a, b):
            f = os.path.join(d, "dump-" + s)
            subprocess.run([exes[s], "--tier", tier, "--out", os.path.join(d, "o.json"), "--scratch", d, "--jobs", str(os.cpu_count() or 8), "--dump", f, "--dump-scenario", sc], cwd=d, env=menv(s))
            t = {}
            for n in os.listdir(d):
                if n.startswith("dump-" + s + "."):
                    for l in open(os.path.join(d, n), errors="replace"):
                        p, _, o = l.rstrip("\n").partition("\t"); t[p] = o
            got.append(t)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = []
    for p in sorted(set(got[0]) | set(got[1])):
        if got[0].get(p) != got[1].get(p) and len(out) < 40:
            out.append({"variant": b, "scenario": sc, "path": p, "key": "cross:%s:%s" % (sc, p), "msg": "%s gives <%s>, %s gives <%s>" % (a, str(got[0].get(p))[:250], b, str(got[1].get(p))[:250]), "detail": ""})
    return out or [{"variant": b, "scenario": sc, "path": "", "key": "cross:" + sc, "msg": "outcome digest differs between %s and %s" % (a, b), "detail": ""}]

def menv(spec=""):
    e = dict(os.environ); e["MC_VARIANT"] = spec
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:symbolize=%s:fast_unwind_on_malloc=1:malloc_context_size=4:quarantine_size_mb=8" % ("1" if os.environ.get("MC_SYM") else "0")
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=98:halt_on_error=1"
    return e

if __name__ == "__main__":
    main()
