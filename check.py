#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of /repo's current source.

usage: check.py <property> [quick|thorough]

Exit 0: property held on everything explored. Exit 1 and a VIOLATION line: broken.
"""
import sys, os, json, time, re, resource, shutil, subprocess, tempfile, signal, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VV_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # noqa

MOD = "github.com/Vivino/rankdb"


def sh(cmd, env, cwd, timeout, address_space=None):
    pre = (lambda: resource.setrlimit(resource.RLIMIT_AS, (address_space, address_space))) if address_space else None
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o.decode("utf8", "replace"), e.decode("utf8", "replace")


def base_env(scratch):
    env = dict(os.environ)
    env["HOME"] = env.get("HOME", "/root")
    goroot = "/opt/veriftools/go1.26.10/bin"
    if os.path.isdir(goroot):
        env["PATH"] = goroot + ":" + env["PATH"]
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off", GO111MODULE="on", CGO_ENABLED=env.get("CGO_ENABLED", "1"))
    env.setdefault("GOPATH", "/root/go")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env["GOFLAGS"] = "-mod=mod"
    shutil.copy(os.path.join(REPO, "go.mod"), os.path.join(scratch, "m.mod"))
    if os.path.exists(os.path.join(REPO, "go.sum")):
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "m.sum"))
    renv = dict(env)
    renv["GOFLAGS"] = "-mod=mod -modfile=" + os.path.join(scratch, "m.mod")
    return env, renv


def entries_of(group):
    """name -> doc comment of every harness entry."""
    d = os.path.join(VERIF, "harness", group)
    r = {}
    for f in sorted(os.listdir(d)):
        if not f.endswith(".go"):
            continue
        doc = []
        for line in open(os.path.join(d, f)):
            if line.startswith("//"):
                doc.append(line[2:].strip())
                continue
            m = re.match(r"func (VH_\w+)\(\)", line)
            if m:
                r[m.group(1)] = " ".join(doc)
            doc = []
    return r


def substitute(subst, scratch, key):
    """copies of repository files with smaller constants: {file: copy}. None if a constant is not there (any more)."""
    r = {}
    for f, rx, new in subst:
        p = os.path.join(REPO, f)
        try:
            text = open(r.get(p, p)).read()
        except OSError:
            return None
        text, n = re.subn(rx, new, text)
        if n != 1:
            return None
        dst = os.path.join(scratch, "subst_%s_%s" % (key, f.replace("/", "_")))
        open(dst, "w").write(text)
        r[p] = dst
    return r


def stand_env(renv, scratch, key, stands):
    """environment in which modules (storage engines, clients of services) are replaced by those in stands/."""
    if not stands:
        return renv
    mod, sums = os.path.join(scratch, "m_%s.mod" % key), os.path.join(scratch, "m_%s.sum" % key)
    text = open(os.path.join(scratch, "m.mod")).read()
    for s in stands:
        d = os.path.join(VERIF, "stands", s)
        text += "\nreplace %s => %s\n" % (re.match(r"module (\S+)", open(os.path.join(d, "go.mod")).read()).group(1), d)
    open(mod, "w").write(text)
    if os.path.exists(os.path.join(scratch, "m.sum")):
        shutil.copy(os.path.join(scratch, "m.sum"), sums)
    return dict(renv, GOFLAGS="-mod=mod -modfile=" + mod)


def build_native(group, scratch, renv, replace=None, key=None, race=False):
    group_key = key or group
    key = group_key + "_race" if race else group_key
    names = entries_of(group)
    main = ["package main", 'import ("fmt"; "os"; "%s/vv"; g "%s/vvh/%s")' % (MOD, MOD, group), "var m = map[string]func(){"]
    main += ['"%s": g.%s,' % (n, n) for n in sorted(names)]
    main += ["}", "func main() { f := m[os.Args[1]]; if f == nil { fmt.Println(\"no entry\"); os.Exit(79) }",
             "if err := vv.Load(os.Args[2]); err != nil { fmt.Println(err); os.Exit(79) }",
             "f(); if len(os.Args) > 3 { vv.Dump(os.Args[3]) }; fmt.Println(\"VVDONE\") }"]
    mf = os.path.join(scratch, "main_%s.go" % key)
    open(mf, "w").write("\n".join(main) + "\n")
    rep = dict(replace or {})

    def add(src, dst):
        for f in os.listdir(src):
            if f.endswith(".go"):
                rep[os.path.join(dst, f)] = os.path.join(src, f)
    add(os.path.join(VERIF, "harness", "vv"), os.path.join(REPO, "vv"))
    add(os.path.join(VERIF, "harness", "vvlib"), os.path.join(REPO, "vvlib"))
    add(os.path.join(VERIF, "harness", group), os.path.join(REPO, "vvh", group))
    ind = os.path.join(VERIF, "harness", group, "in")
    for d, _, fs in os.walk(ind):
        for f in fs:
            if f.endswith(".go"):
                rep[os.path.join(REPO, os.path.relpath(os.path.join(d, f), ind))] = os.path.join(d, f)
    rep[os.path.join(REPO, "vvmain_" + group, "main.go")] = mf
    ov = os.path.join(scratch, "ov_%s.json" % key)
    json.dump({"Replace": rep}, open(ov, "w"))
    out = os.path.join(scratch, "vvmain_" + key)
    rc, o, e = sh(["go", "build"] + (["-race"] if race else []) + ["-overlay", ov, "-o", out, "./vvmain_" + group], renv, REPO, 400)
    if rc != 0:
        return None, (o + e)[-2000:]
    return out, ""


def run_native(binary, entry, inputs, scratch, tier, tag, timeout=20, seed=0, stress=0, race=False):
    inp = os.path.join(scratch, "in_%s.json" % tag)
    out = os.path.join(scratch, "out_%s.json" % tag)
    json.dump(inputs, open(inp, "w"))
    if os.path.exists(out):
        os.unlink(out)
    env = {"PATH": "/usr/bin:/bin", "VV_TIER": tier, "HOME": scratch, "TMPDIR": scratch, "GOTRACEBACK": "single", "GOMEMLIMIT": "3GiB",
           "VV_STRESS": str(stress), "VV_SEED": str(seed), "GORACE": "exitcode=66 halt_on_error=1"}
    # the race detector's shadow memory needs address space without a limit
    rc, o, e = sh([binary, entry, inp, out], env, scratch, timeout, None if race else 10 << 30)
    obs = None
    if os.path.exists(out):
        try:
            obs = json.load(open(out))
        except ValueError:
            pass
    return rc, o, e, obs


def classify(rc, o, e):
    """what a native run showed: None = nothing wrong."""
    if rc is None:
        return "hang", "did not finish"
    if rc == 78:
        m = re.search(r"VVFAIL (.*)", o)
        return "assert", m.group(1) if m else ""
    if rc == 77 or rc == 79 or rc == 0:
        return None, o[-200:]
    t = e
    if rc == 66 and "DATA RACE" in t:
        at = re.findall(r"^  (\S+)\(.*\)\n      \S+/(\S+:\d+)", t, re.M)
        return "race", "DATA RACE " + ", ".join("%s %s" % (f.split("/")[-1], w) for f, w in at[:2])
    m = re.search(r"^fatal error: concurrent map.*$", t, re.M)
    if m:
        return "race", m.group(0)
    m = re.search(r"^(panic:.*|fatal error:.*)$", t, re.M)
    if m:
        s = m.group(1)
        return ("deadlock" if "deadlock" in s else "crash"), s
    if rc < 0:
        return None, "killed by signal %d" % -rc
    return None, "exit %d %s" % (rc, e[-200:])


def load_known():
    """known-findings.txt: 'known: property=<id> entry=<entry> match=<regex> :: text' and 'fixed: ...' lines."""
    r = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) entry=(\S+) match=/(.*?)/ :: (.*)", l.strip())
            if m:
                r.append(dict(prop=m.group(1), entry=m.group(2), match=m.group(3), text=m.group(4)))
    return r


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vv_%s_" % pid)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        rc = run(pid, tier, seed, cfg, scratch, evdir, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(pid, tier, seed, cfg, scratch, evdir, t0):
    problems = []
    env, renv = base_env(scratch)
    engine = os.path.join(scratch, "vengine")
    pool = ThreadPoolExecutor(8)
    groups = sorted({r["group"] for r in cfg["runs"]})
    runs, notes = [], []
    for i, r in enumerate(cfg["runs"]):
        if tier not in r.get("tiers", (tier,)):
            continue
        r = dict(r, key=r["group"], replace={})
        if r.get("stands"):
            r["key"] = "%s_t%d" % (r["group"], i)
        if r.get("subst"):
            r["key"] = "%s_s%d" % (r["group"], i)
            r["replace"] = substitute(r["subst"], scratch, r["key"])
            if r["replace"] is None and r.get("plain"):
                r["replace"], r["subst"] = {}, None
                notes.append("run %s of group %s: unchanged constants, as those it makes smaller were not found" % (r["entries"], r["group"]))
            if r["replace"] is None:
                notes.append("run %s of group %s skipped: the constants it makes smaller were not found: %s" % (r["entries"], r["group"], r["subst"]))
                continue
        r["env"] = stand_env(renv, scratch, r["key"], r.get("stands"))
        runs.append(r)
    rc, o, e = sh(["go", "build", "-o", engine, "."], env, os.path.join(VERIF, "engine"), 300)
    if rc != 0:
        problems.append("engine build failed: " + (o + e)[-1500:])
    natives = {r["key"]: pool.submit(build_native, r["group"], scratch, r["env"], r["replace"], r["key"]) for r in runs}
    budget_total = 560 if tier == "thorough" else 300
    entries, loaderr = [], None
    nruns = len(runs)
    for i, r in enumerate(runs):
        if problems:
            break
        out = os.path.join(scratch, "rep_%d.json" % i)
        b = r.get("budget", {}).get(tier, 60 if tier == "quick" else 600 // nruns)
        b = min(b, max(10, budget_total - int(time.time() - t0)))
        cmd = [engine, "-verif", VERIF, "-repo", REPO, "-group", r["group"], "-entries", r["entries"], "-out", out, "-budget", "%ds" % b, "-tier", tier]
        if r.get("models"):
            cmd += ["-models", ",".join(r["models"])]
        for dst, src in r["replace"].items():
            cmd += ["-replace", dst + "=" + src]
        if r.get("races"):
            cmd += ["-races"]
        cmd += r.get("args", [])
        rc, o, e = sh(cmd, r["env"], REPO, b + 120)
        try:
            rep = json.load(open(out))
        except Exception:
            rep = {"entries": [], "error": "no report (rc=%s): %s" % (rc, e[-1500:])}
        if rep.get("error"):
            problems.append("%s: %s" % (r["group"], rep["error"]))
        if rc != 0 and not rep.get("error"):
            problems.append("engine ended with %s: %s" % (rc, e[-600:]))
        for en in rep.get("entries") or []:
            en["group"], en["key"] = r["group"], r["key"]
            en["subst"], en["stands"] = r.get("subst"), r.get("stands")
            if r.get("races"):
                # what the same paths assert is decided by the checks of those properties
                en["violations"] = [v for v in en.get("violations") or [] if v["kind"] == "race"]
            entries.append(en)
    # native side
    natbin = {}
    for g, f in natives.items():
        b, err = f.result()
        if b is None:
            problems.append("native build of %s failed: %s" % (g, err))
        natbin[g] = b
    docs = {}
    for g in groups:
        docs.update(entries_of(g))
    known = [k for k in load_known() if k["prop"] == pid]
    confirmed, unrepro, knownhits = [], [], {}
    jobs = []
    tag = 0
    for en in entries:
        per_msg = {}
        for v in en.get("violations") or []:
            key = (v["kind"], v["msg"])
            per_msg[key] = per_msg.get(key, 0) + 1
            if per_msg[key] > 4:
                continue
            tag += 1
            # cheap and distinct counterexamples first: a deadlock or hang costs its full time limit natively
            jobs.append((per_msg[key], v["kind"] in ("deadlock", "hang"), tag, en, v))
    jobs = [(en, v, t) for _, _, t, en, v in sorted(jobs, key=lambda j: j[:3])]
    rkeys = {en["key"] for en, v, _ in jobs if v["kind"] == "race"}
    racebin = {}
    for r in runs:
        if r["key"] in rkeys and r["key"] not in racebin:
            racebin[r["key"]], err = build_native(r["group"], scratch, r["env"], r["replace"], r["key"], True)
            if err:
                problems.append("native build of %s with the race detector failed: %s" % (r["key"], err))
    rstart, found = time.time(), {}

    def replay(job):
        en, v, tag = job
        race = v["kind"] == "race"
        b = (racebin if race else natbin).get(en["key"])
        if not b:
            return en, v, None, "no native binary"
        tries = 60 if race or v.get("schedule_dependent") else 12
        last = ""
        tmo = 20 if v["kind"] in ("deadlock", "hang") else 60
        tstart = time.time()
        for k in range(tries):
            dup = not known and found.get((en["entry"], v["msg"]))
            if (time.time() - rstart > 180) or (dup or (found and not known and time.time() - rstart > 60)):
                return en, v, None, last or ("same violation already reproduced" if dup else "not replayed: time")
            rc, o, e, obs = run_native(b, en["entry"], v["inputs"] or {}, scratch, tier, "v%d_%d" % (tag, k), timeout=tmo, seed=seed * 1000 + k, stress=k, race=race)
            kind, msg = classify(rc, o, e)
            last = msg
            if race and kind != "race":
                kind = None
            if kind and not (kind == "hang" and v["kind"] not in ("hang", "deadlock", "fatal", "panic")):
                found[(en["entry"], v["msg"])] = True
                return en, v, kind, msg
            if time.time() - tstart > 90:
                break
        return en, v, None, last

    results = list(pool.map(replay, jobs))
    vdir = os.path.join(evdir, "replay")
    n = 0
    for en, v, kind, msg in results:
        if kind is None and msg == "same violation already reproduced":
            continue
        if kind is None:
            unrepro.append({"entry": en["entry"], "kind": v["kind"], "msg": v["msg"], "where": v.get("where"), "inputs": v["inputs"], "native": msg,
                            "schedule_dependent": v.get("schedule_dependent")})
            continue
        k = next((k for k in known if k["entry"] == en["entry"] and re.search(k["match"], v["msg"] + " @ " + (v.get("where") or "") + " :: " + msg)), None)
        if k:
            knownhits[k["text"]] = knownhits.get(k["text"], 0) + 1
            continue
        n += 1
        os.makedirs(vdir, exist_ok=True)
        path = os.path.join(vdir, "%s_%d.json" % (pid, n))
        json.dump({"property": pid, "tier": tier, "group": en["group"], "subst": en["subst"], "stands": en["stands"], "entry": en["entry"], "kind": v["kind"], "message": v["msg"], "where": v.get("where"),
                   "stack": v.get("stack"), "inputs": v["inputs"], "notes": v.get("notes"), "native_kind": kind, "native_message": msg,
                   "how": "python3 %s/tools/replay.py %s" % (VERIF, path)}, open(path, "w"), indent=1)
        confirmed.append((path, en["entry"], v, kind, msg))

    # cross validation of passing paths
    sjobs, validated, mismatches, skipped = [], 0, [], 0
    for en in entries:
        for s in (en.get("samples") or []):
            tag += 1
            sjobs.append((en, s, tag))

    def valid(job):
        en, s, tag = job
        b = natbin.get(en["key"])
        if not b:
            return en, s, "nobin", ""
        rc, o, e, obs = run_native(b, en["entry"], s["inputs"] or {}, scratch, tier, "s%d" % tag, timeout=60)
        if rc != 0:
            return en, s, "bad", "rc=%s %s" % (rc, (o + e)[-300:])
        want = {k: x for k, x in (s["observed"] or {}).items() if x}
        got = {k: x for k, x in (obs or {}).items() if x}
        if want != got:
            return en, s, "bad", "observed %s, native %s" % (json.dumps(want)[:400], json.dumps(got)[:400])
        return en, s, "ok", ""
    for en, s, st, why in pool.map(valid, sjobs):
        if st == "ok":
            validated += 1
        elif st == "bad":
            mismatches.append({"entry": en["entry"], "inputs": s["inputs"], "why": why})
        else:
            skipped += 1

    paths = sum(e["paths"] for e in entries)
    trans = sum(e["branch_queries"] + e["schedule_choice_points"] for e in entries)
    funcs = {}
    for e in entries:
        for f, c in (e.get("functions") or {}).items():
            funcs[f] = funcs.get(f, 0) + c
    samples = []
    for e in entries:
        for s in (e.get("samples") or [])[:1]:
            samples.append({"entry": e["entry"], "inputs": s["inputs"], "observed": s["observed"]})
    bounded = [e["entry"] for e in entries if e["timed_out"] or e["pending_nodes"]]
    uncovered = []
    for e in entries:
        if not e.get("covers"):
            uncovered.append(e["entry"])
    cov = {
        "states": paths,
        "transitions": trans,
        "traces_validated_against_impl": validated,
        "samples": samples[:12],
        "exhaustive_within_bounds": not (bounded or problems or any(e["unknowns"] or e.get("unsupported") or e.get("cuts") for e in entries)),
        "meaning": "states = symbolic paths explored (each stands for all inputs satisfying its path condition); transitions = solver-decided branches plus scheduling choices; traces_validated = paths whose concrete witness was run through the compiled code with identical observations",
        "functions_encoded": len(funcs),
        "functions_of_repo": sorted(f for f in funcs if "Vivino/rankdb" in f and "/vv" not in f)[:400],
        "assertions_decided": sum(e["asserts"] for e in entries),
        "solver_queries": sum(e["solver_queries"] for e in entries),
        "solver_seconds": round(sum(e["solver_ms"] for e in entries) / 1000, 2),
        "solver_unknown": sum(e["unknowns"] for e in entries),
        "instructions_executed": sum(e["instructions"] for e in entries),
        "entries": [{"entry": e["entry"], "bounds": docs.get(e["entry"], ""), "constants": e["subst"], "paths": e["paths"], "complete_paths": e["complete"], "asserts": e["asserts"],
                     "queries": e["solver_queries"], "solver_ms": e["solver_ms"], "wall_ms": e["wall_ms"], "timed_out": e["timed_out"], "pending_nodes": e["pending_nodes"],
                     "unknowns": e["unknowns"], "cuts": e.get("cuts"), "unsupported": e.get("unsupported"), "covers": e.get("covers"),
                     "violations": len(e.get("violations") or [])} for e in entries],
        "not_exhausted_entries": bounded,
        "entries_without_reached_cover": uncovered,
        "unreproduced_counterexamples": unrepro[:10],
        "validation_mismatches": mismatches[:10],
        "known_findings_seen": knownhits,
        "problems": problems,
        "notes": notes,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "model_checking"), "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + COMMON, "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    for t in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    for p in problems:
        print("INCONCLUSIVE: " + p[:600].replace("\n", " | "))
    for u in unrepro[:5]:
        print("UNREPRODUCED: %s %s: %s @ %s (native: %s)" % (u["entry"], u["kind"], u["msg"], u["where"], str(u["native"]).strip()[:200]))
    for m in mismatches[:3]:
        print("MISMATCH: %s %s" % (m["entry"], m["why"]))
    print("%s %s: %d entries, %d paths, %d assertions decided, %d queries, %.1fs solver, %d validated natively, %d mismatches, %d not exhausted, %d unsupported kinds; %.1fs" % (
        pid, tier, len(entries), paths, cov["assertions_decided"], cov["solver_queries"], cov["solver_seconds"], validated, len(mismatches), len(bounded),
        sum(len(e.get("unsupported") or {}) for e in entries), time.time() - t0))
    if os.environ.get("VV_VERBOSE"):
        for e in entries:
            print("  %-36s paths=%d complete=%d asserts=%d q=%d wall=%dms timeout=%s pend=%d unk=%d unsup=%s cuts=%s covers=%s viol=%d" % (
                e["entry"], e["paths"], e["complete"], e["asserts"], e["solver_queries"], e["wall_ms"], e["timed_out"], e["pending_nodes"], e["unknowns"],
                e.get("unsupported"), e.get("cuts"), e.get("covers"), len(e.get("violations") or [])))
    if confirmed:
        seen = set()
        for path, entry, v, kind, msg in confirmed:
            print("  %s: %s: %s @ %s; native replay: %s %s" % (entry, v["kind"], v["msg"], v.get("where"), kind, msg))
            if entry not in seen:
                print("VIOLATION property=%s replay=%s" % (pid, path))
                seen.add(entry)
        return 1
    if problems and not paths:
        print("NO ANSWER: nothing was explored")
        return 2
    return 0


COMMON = [
    "The Go SSA form of the current source (golang.org/x/tools/go/ssa, GOOS=linux GOARCH=amd64) represents the compiled program; every reported violation is replayed in the compiled code and witnesses of passing paths are compared with it.",
    "time.Now, RandString, log output, fmt verbs other than those interpreted and crypto randomness are stand-ins with unconstrained or fixed results (DESIGN.md, section Engine).",
    "Nothing is claimed outside the stated sizes, draws and schedule bounds.",
]

if __name__ == "__main__":
    main()
