#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property: model-checks its TLA+ specification with TLC, builds the
driver of the property from /repo's working tree, runs it on inputs that are
enumerated, drawn from VERIF_SEED, and generated by TLC from the specification,
and has TLC validate the recorded behaviour against the specification.

exit 0: everything explored is a behaviour of the specification
exit 1: VIOLATION (found twice: driver and TLC were re-run)
exit 2: the check itself failed (does not say anything about the property)
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from registry import REG

TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 4))

class CheckError(Exception): pass

def say(*a):
    print(*a, flush=True)

# ---------------------------------------------------------------- build
def main_sources():
    t = open(f"{REPO}/CMakeLists_files.cmake").read()
    m = re.search(r"MAIN_SOURCE_FILES\s(.*?)\)", t, re.S)
    return [w for w in m.group(1).split() if re.search(r"\.(c|cpp)$", w) and "xmltest" not in w]

INC = [f"-I{VERIF}/harness", f"-I{REPO}", "-I/usr/include/suitesparse"]
LIBS = ["-lboost_filesystem", "-lboost_system", "-lboost_date_time", "-lumfpack", "-lcholmod", "-lamd", "-lcolamd",
        "-lsuitesparseconfig", "-llapack", "-lblas", "-lm"]

def flags(conf):
    f = ["-DHAVE_CONFIG_H=1", "-w", "-g1", conf.get("opt", "-O1"), "-fno-omit-frame-pointer", "-pipe"]
    if conf.get("asan", True):
        f.append("-fsanitize=address")
    return f + conf.get("defs", [])

def compile_one(src, obj, conf):
    c = src.endswith(".c")
    cmd = (["gcc", "-std=c99", "-DUF_long=long"] if c else ["g++", "-std=c++11"]) + flags(conf) + INC + ["-c", src, "-o", obj]
    cachedir = os.environ.get("VERIF_OBJCACHE")
    key = None
    if cachedir:      # development only: never set in registered commands
        os.makedirs(cachedir, exist_ok=True)
        pre = subprocess.run(cmd[:-3] + ["-E", "-o", "-"], capture_output=True)
        # cmd[:-3] drops "SRC -o OBJ"; re-add the source
        pre = subprocess.run([x for x in cmd if x not in ("-c", "-o", obj)] + ["-E"], capture_output=True)
        if pre.returncode == 0:
            key = os.path.join(cachedir, hashlib.sha256(pre.stdout + " ".join(flags(conf)).encode()).hexdigest() + ".o")
            if os.path.exists(key):
                shutil.copy(key, obj); return src, 0, ""
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode == 0 and key:
        shutil.copy(obj, key + ".tmp%d" % os.getpid()); os.rename(key + ".tmp%d" % os.getpid(), key)
    return src, r.returncode, r.stderr

def build(pid, conf, work):
    """Compiles the driver and the sources it needs; returns the executable."""
    od = os.path.join(work, "obj"); os.makedirs(od, exist_ok=True)
    allsrc = main_sources()
    hint = [s for s in conf["sources"] if s in allsrc]
    drv = [os.path.join(VERIF, "harness", d) for d in conf["drivers"]]
    objs, dobjs, failed = {}, [], {}
    def obj(s): return os.path.join(od, s.replace("/", "_") + ".o")
    def comp(srcs):
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for s, rc, err in ex.map(lambda p: compile_one(p[0], p[1], conf), srcs):
                if rc == 0: objs[s] = obj(s)
                else: failed[s] = err
    comp([(f"{REPO}/{s}", obj(f"{REPO}/{s}")) for s in hint] + [(d, obj(d)) for d in drv])
    for d in drv:
        if d in failed: raise CheckError("driver does not compile:\n" + failed[d][-4000:])
    if failed: raise CheckError("sources do not compile: " + "\n".join(f"{k}: {v[-1500:]}" for k, v in failed.items()))
    exe = os.path.join(work, "driver")
    san = ["-fsanitize=address"] if conf.get("asan", True) else []
    def link():
        r = subprocess.run(["g++"] + san + list(objs.values()) + ["-o", exe] + LIBS, capture_output=True, text=True)
        return r.returncode, r.stderr
    rc, err = link()
    if rc != 0:
        # a refactoring moved code between files: take the whole library
        rest = [s for s in allsrc if s not in hint]
        comp([(f"{REPO}/{s}", obj(f"{REPO}/{s}")) for s in rest])
        lib = os.path.join(od, "librest.a")
        ro = [objs.pop(f"{REPO}/{s}") for s in rest if f"{REPO}/{s}" in objs]
        subprocess.run(["ar", "rcs", lib] + ro, check=True)
        objs["_lib"] = lib
        rc, err = link()
        if rc != 0: raise CheckError("driver does not link:\n" + err[-3000:])
    return exe

# ---------------------------------------------------------------- TLC
def tlc(module, cfg, cwd, meta, workers="1", extra=(), env=None, timeout=800, heap="3g", jvm=()):
    e = dict(os.environ); e.pop("JAVA_TOOL_OPTIONS", None)
    if env: e.update(env)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC",
           f"-Djava.io.tmpdir={meta}", f"-DTLA-Library={VERIF}/spec/lib:{VERIF}/spec/groups", *jvm, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", workers, "-config", cfg, *extra, module]
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC timed out on {module}")
    return r.returncode, r.stdout + r.stderr

def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        m2 = re.findall(r"([\d,]+) states checked", out)
        if m2: return int(m2[-1].replace(",", "")), 0
        return 0, 0
    a, b = m[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))

def run_mc(pid, mc, work, tier):
    spec = os.path.join(VERIF, "spec", mc["dir"])
    meta = os.path.join(work, "mc_" + mc["cfg"].replace(".", "_"))
    rc, out = tlc(mc["module"] + ".tla", mc["cfg"], spec, meta, workers=str(mc.get("workers", 2)), extra=mc.get("extra", ["-coverage", "1"]),
                  timeout=mc.get("timeout", 700))
    if rc != 0:
        raise CheckError(f"model checking of {mc['module']}/{mc['cfg']} failed (exit {rc}):\n" + out[-3000:])
    g, d = stats(out)
    # vacuity: every action the configuration names must have been taken
    cov = {}
    for m in re.finditer(r"<(\w+) line \d+[^>]*>: (\d+):(\d+)", out):
        cov[m.group(1)] = max(cov.get(m.group(1), 0), int(m.group(3)))
    for a in mc.get("actions", []):
        if cov.get(a, 0) == 0: raise CheckError(f"action {a} never taken in {mc['cfg']}")
    return {"cfg": mc["cfg"], "generated": g, "distinct": d, "actions": {a: cov[a] for a in mc.get("actions", [])}}

def run_gen(pid, gen, work, tier, seed):
    """Behaviours out of the specification: lines @@{json} printed by TLC."""
    spec = os.path.join(VERIF, "spec", gen["dir"])
    meta = os.path.join(work, "gen_" + gen["cfg"].replace(".", "_"))
    extra = list(gen.get("extra", []))
    n = gen.get("sim_thorough" if tier == "thorough" else "sim", 0)
    if n: extra += ["-simulate", f"num={n}", "-depth", str(gen["depth"]), "-seed", str(seed)]
    rc, out = tlc(gen["module"] + ".tla", gen["cfg"], spec, meta, workers="1", extra=extra, timeout=gen.get("timeout", 700))
    if rc != 0: raise CheckError(f"generating behaviours with {gen['module']} failed (exit {rc}):\n" + out[-3000:])
    lines = []
    for ln in out.splitlines():
        ln = ln.strip()
        if ln.startswith('"@@'):
            lines.append(json.loads(ln)[2:])
    seen = list(dict.fromkeys(lines))
    if not seen: raise CheckError(f"no behaviours generated by {gen['module']}")
    import random
    cap = gen.get("cap_thorough" if tier == "thorough" else "cap", 400)
    if len(seen) > cap: seen = random.Random(seed).sample(seen, cap)
    path = os.path.join(work, "script.ndjson")
    open(path, "a").write("\n".join(seen) + "\n")
    g, d = stats(out)
    return {"behaviours": len(seen), "generated": g, "distinct": d}

# ---------------------------------------------------------------- traces
def run_driver(exe, conf, work, tag, seed, tier, script):
    out = os.path.join(work, f"trace_{tag}.ndjson")
    cmd = [exe, str(seed), tier, out] + ([script] if script else [])
    wd = os.path.join(work, "cwd_" + tag); os.makedirs(wd, exist_ok=True)
    try:
        r = subprocess.run(cmd, cwd=wd, capture_output=True, text=True, timeout=conf.get("driver_timeout", 600))
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = -99
    lines = [l for l in open(out, errors="replace").read().split("\n") if l.strip()] if os.path.exists(out) else []
    if rc == 2 or rc == 78: raise CheckError(f"driver failed to run (exit {rc})")
    if lines and lines[-1] == '{"e":"eof"}':
        lines.pop()
    else:
        if not (lines and '"e":"crash"' in lines[-1]):
            if lines:
                try: json.loads(lines[-1])
                except ValueError: lines.pop()
            lines.append(json.dumps({"e": "crash", "what": f"driver ended with {rc}", "op": ""}))
    return lines

def shard(lines, n):
    """Splits at run boundaries: a line with a "run" field starts a run."""
    runs, cur = [], []
    for l in lines:
        if '"run":' in l and cur:
            runs.append(cur); cur = []
        cur.append(l)
    if cur: runs.append(cur)
    tot = sum(sum(len(x) + 200 for x in r) for r in runs); per = tot / max(1, n) + 1
    shards, acc, size = [], [], 0
    for r in runs:
        acc += r; size += sum(len(x) + 200 for x in r)
        if size >= per: shards.append(acc); acc, size = [], 0
    if acc: shards.append(acc)
    return shards, len(runs)

def validate_shard(conf, lines, work, tag):
    tr = os.path.join(work, f"shard_{tag}.ndjson")
    open(tr, "w").write("\n".join(lines) + "\n")
    t = conf["trace"]
    spec = os.path.join(VERIF, "spec", t["dir"])
    rc, out = tlc(t["module"] + ".tla", t["cfg"], spec, os.path.join(work, "tlc_" + tag), env={"TRACE": tr},
                  timeout=conf.get("trace_timeout", 840), heap=conf.get("heap", "3g"))
    g, d = stats(out)
    res = {"rc": rc, "states": d, "generated": g, "at": None, "why": ""}
    if rc == 0: return res
    m = re.search(r"REJECTED_AT\D+(\d+)", out)
    if m:
        res["at"] = int(m.group(1)); res["why"] = "no specified step explains this event"
        return res
    m = re.search(r"Invariant (\w+) is violated", out)
    if m:
        ls = re.findall(r"/\\ l = (\d+)", out)
        res["at"] = int(ls[-1]) - 1 if ls else 0
        res["why"] = f"invariant {m.group(1)} is violated by the observed state"
        return res
    # evaluation error: the observed data lies outside every value the specification can compare with
    m = re.search(r"Error: (?:TLC threw|Evaluating|The error occurred|Attempted|In applying|The \w+ argument).*", out)
    if m and "Parsing" not in out[-400:] and rc in (12, 75, 76, 77, 78, 79, 255, 150 - 0) and "@@PARSE" not in out and "Semantic processing" in out:
        ls = re.findall(r"/\\ l = (\d+)", out)
        if ls or "is:" in out or "The behavior up to this point" in out:
            res["at"] = int(ls[-1]) if ls else 1
            res["why"] = "observed data outside the specified types: " + re.sub(r"\s+", " ", out[m.start():m.start() + 400])
            return res
    raise CheckError(f"TLC failed on a trace (exit {rc}):\n" + out[-3000:])

def validate(conf, lines, work, tag):
    shards, nruns = shard(lines, conf.get("shards", NCPU))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(lambda p: validate_shard(conf, p[1], work, f"{tag}_{p[0]}"), enumerate(shards)))
    bad = []
    for s, r in zip(shards, rs):
        if r["at"] is not None:
            i = max(1, min(r["at"], len(s))) - 1
            b = i
            while b > 0 and '"run":' not in s[b]: b -= 1
            bad.append({"why": r["why"], "event": s[i], "run": s[b:i + 1]})
    return {"bad": bad, "runs": nruns, "states": sum(r["states"] for r in rs), "events": len(lines), "shards": len(shards)}

# ---------------------------------------------------------------- main
def main():
    if sys.argv[1] == "--selftest":
        for p, c in REG.items():
            for d in c["drivers"]: assert os.path.exists(os.path.join(VERIF, "harness", d)), d
            assert os.path.exists(os.path.join(VERIF, "spec", c["trace"]["dir"], c["trace"]["cfg"])), p
        say("setup ok:", len(REG), "checks"); return
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = REG[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    rc = 2
    try:
        rc = check(pid, tier, seed, conf, work, t0)
    except CheckError as e:
        say(f"CHECK-ERROR property={pid}: {e}")
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"): say("kept " + work)
        else: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(pid, tier, seed, conf, work, t0):
    mcs = [m for m in conf.get("mc", []) if tier in m.get("tiers", ("quick", "thorough"))]
    gens = [g for g in conf.get("gen", []) if tier in g.get("tiers", ("quick", "thorough"))]
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build, pid, conf, work)
        fm = [ex.submit(run_mc, pid, m, work, tier) for m in mcs]
        fg = [ex.submit(run_gen, pid, g, work, tier, seed) for g in gens]
        exe = fb.result(); tb = time.time() - t0
        gen = [f.result() for f in fg]
        mc = [f.result() for f in fm]
    script = os.path.join(work, "script.ndjson") if gens else None
    tm = time.time() - t0
    lines = run_driver(exe, conf, work, "a", seed, tier, script)
    td = time.time() - t0
    v = validate(conf, lines, work, "a")
    if os.environ.get("VERIF_TIMES"): say(f"build {tb:.1f} model {tm:.1f} driver {td:.1f} validated {time.time()-t0:.1f}")
    kinds = {}
    for l in lines:
        k = re.match(r'\{"e":"(\w+)"', l)
        if k: kinds[k.group(1)] = kinds.get(k.group(1), 0) + 1
    known = load_known(pid)
    new, old = split_known(known, v["bad"])
    for k in old: say(f"KNOWN-FINDING: property={pid} {k}")
    violations = 0
    if new:
        lines2 = run_driver(exe, conf, work, "b", seed, tier, script)
        v2 = validate(conf, lines2, work, "b")
        new2, _ = split_known(known, v2["bad"])
        if not new2:
            raise CheckError("a rejection was not repeated: " + json.dumps(new[0])[:1500])
        violations = len(new2)
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"{pid}-{tier}-{seed}.json")
        b = new2[0]
        json.dump({"property": pid, "tier": tier, "seed": seed, "why": b["why"], "rejected_event": b["event"], "run": b["run"],
                   "rerun": f"VERIF_SEED={seed} python3 bin/check.py {pid} {tier}"}, open(rp, "w"), indent=1)
        say(f"rejected: {b['why']}\n  event: {b['event'][:1500]}")
        if len(b["run"]) > 1: say(f"  previous: {b['run'][-2][:800]}")
        say(f"VIOLATION property={pid} replay={rp}")
    else:
        # vacuity: the kinds of events this check is about must have been seen
        for k in conf.get("expect", []):
            if kinds.get(k, 0) == 0: raise CheckError(f"no event of kind {k} was recorded")
    samples = []
    seenk = set()
    for l in lines:
        k = re.match(r'\{"e":"(\w+)"', l)
        if k and k.group(1) not in seenk and len(samples) < 6:
            seenk.add(k.group(1)); samples.append(l[:600])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": sum(m["distinct"] for m in mc) + sum(g["distinct"] for g in gen) + v["states"],
              "transitions": sum(m["generated"] for m in mc) + sum(g["generated"] for g in gen) + v["events"],
              "traces_validated_against_impl": v["runs"],
              "samples": samples,
              "model_checking": mc, "generated_behaviours": gen, "trace_events": v["events"], "events_by_kind": kinds,
              "trace_states": v["states"], "build_s": round(tb, 1),
              "rule": conf.get("rule", "")},
          "assumptions": conf.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    if violations: return 1
    say(f"OK property={pid} tier={tier} runs={v['runs']} events={v['events']} mc_states={sum(m['distinct'] for m in mc)} wall={time.time()-t0:.1f}s (build {tb:.1f}s)")
    return 0

def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]

def split_known(known, bad):
    new, old = [], []
    for b in bad:
        hit = None
        for k in known:
            if re.search(k["event_regex"], b["event"]): hit = k
        if hit: old.append(hit["what"])
        else: new.append(b)
    return new, old

if __name__ == "__main__":
    main()
