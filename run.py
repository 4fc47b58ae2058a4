#!/usr/bin/env python3
"""Entry point of every check:  run.py <PROPERTY> [quick|thorough]   |   run.py --replay <file>

Builds the library from /repo's working tree together with the property's harness(es), runs the generated-input
search on all cores, confirms and shrinks any failure, writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check itself could not run.
"""
import json, os, shutil, subprocess, sys, time, re
from concurrent.futures import ThreadPoolExecutor
import threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SLIDE_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS, VARIANTS

NCPU = min(8, os.cpu_count() or 1)


def log(*a):
    print(*a, flush=True)


def build(variant, targets):
    v = VARIANTS[variant]
    tag = variant if REPO == "/repo" else variant + "-" + re.sub(r"\W", "_", REPO)
    bdir = os.path.join(VERIF, "build", tag)
    os.makedirs(bdir, exist_ok=True)
    env = dict(os.environ, CC=v.get("cc", "/usr/bin/gcc"), CXX=v.get("cxx", "/usr/bin/g++"))
    cfg = ["cmake", "-S", os.path.join(VERIF, "harness"), "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
           "-DCMAKE_CXX_FLAGS_DEBUG=" + v.get("opt", "-O2 -g1"), "-DCMAKE_CXX_FLAGS=-w " + v.get("flags", ""), "-DREPO=" + REPO]
    r = subprocess.run(cfg, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        r = subprocess.run(["ninja", "-C", bdir] + targets, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-4000:])
        log("BUILD FAILED for variant", variant)
        sys.exit(2)
    return bdir


def load_known():
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.setdefault(m[1], {})[m[2]] = m[3]
    return known


def child_env(known_keys, mem=False, fill=0xbe, slow=False):
    e = dict(os.environ)
    if slow:
        e["PBT_SLOW"] = "1"
    e["PBT_KNOWN"] = ",".join(known_keys)
    if mem:
        e["PBT_MEM"] = "1"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=%d:detect_stack_use_after_return=1:strict_init_order=1:quarantine_size_mb=32" % fill
    e["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:report_signal_unsafe=0"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1"
    return e


def make_scratch(base, name):
    d = os.path.join(base, name)
    os.makedirs(os.path.join(d, "results"), exist_ok=True)
    link = os.path.join(d, "data")
    if not os.path.islink(link):
        os.symlink(os.path.join(REPO, "data"), link)
    return d


def pin(k):
    def f():
        try:
            cpus = sorted(os.sched_getaffinity(0))
            os.sched_setaffinity(0, {cpus[k % len(cpus)]})
        except OSError:
            pass
    return f


def main():
    t0 = time.time()
    if sys.argv[1] == "--replay":
        path = os.path.abspath(sys.argv[2])
        head = dict(l.rstrip("\n").split(" ", 1) for l in open(path).read().split("\nmsg")[0].splitlines() if " " in l)
        prop, variant, exe = head["property"], head["variant"], head["exe"]
        bdir = build(variant, [exe])
        base = os.path.join(VERIF, "build", "scratch", "replay-%d" % os.getpid())
        d = make_scratch(base, "r")
        env = child_env([], bool(CHECKS[prop].get("memory")))
        if not re.search(r"\.(crash-|hang|leak)", head["key"]):
            env["PBT_MEM_FAILS"] = "1"
        r = subprocess.run([os.path.join(bdir, exe), "--replay", path, "--tier", head.get("tier", "quick")], cwd=d, env=env)
        shutil.rmtree(base, ignore_errors=True)
        sys.exit(1 if r.returncode in (1, 3) else r.returncode)

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scale = float(os.environ.get("PBT_SCALE", "1"))
    only = os.environ.get("PBT_ONLY")
    chk = CHECKS[prop]
    known = load_known().get(prop, {})
    budget = 420.0 if tier == "quick" else 12000.0  # hard cap only; counts decide in practice
    base = os.path.join(VERIF, "build", "scratch", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)

    byvar = {}
    mem = bool(chk.get("memory"))  # every property's generated cases, judged by the sanitizers only
    pscale = {}
    for part in chk["parts"]:
        exe, variant = part[:2]
        byvar.setdefault(variant, []).append(exe)
        pscale[exe, variant] = part[2] if len(part) > 2 else 1.0
    jobs = []
    seen = []
    for variant, exes in byvar.items():
        bdir = build(variant, exes)
        for exe in exes:
            path = os.path.join(bdir, exe)
            lst = json.loads(subprocess.run([path, "--list"], stdout=subprocess.PIPE, text=True, check=True).stdout)
            for s in lst:
                own = s["name"].split(".")[0] == prop
                if not own and not mem:
                    continue
                if only and not re.search(only, s["name"]):
                    continue
                f = pscale[exe, variant]
                if callable(f):
                    f = f(s["name"], tier)
                n = int(s[tier if tier == "thorough" else "quick"] * scale * f)
                if n <= 0:
                    continue
                seen.append((exe, variant, s, n))
    tbuild = time.time() - t0
    for exe, variant, s, n in seen:
        bdir = os.path.join(VERIF, "build", variant if REPO == "/repo" else variant + "-" + re.sub(r"\W", "_", REPO))
        shards = 1 if s["unpinned"] else max(1, min(NCPU, n // 4 if n < 32 else NCPU))
        for k in range(shards):
            jobs.append(dict(exe=os.path.join(bdir, exe), exename=exe, variant=variant, sub=s, n=n, shard=k, shards=shards))
    slots = list(range(NCPU))
    lock = threading.Lock()
    results = []

    def runjob(j):
        with lock:
            slot = slots.pop()
        try:
            name = "%s_%s_%d" % (j["sub"]["name"], j["variant"], j["shard"])
            d = make_scratch(base, name)
            out = os.path.join(d, "out.json")
            left = max(5.0, budget - (time.time() - t0))
            cmd = [j["exe"], "--run", j["sub"]["name"], "--seed", str(seed), "--shard", str(j["shard"]), "--shards", str(j["shards"]),
                   "--cases", str(j["n"]), "--out", out, "--tier", tier, "--time", str(left), "--shrink", "40" if tier == "quick" else "120"]
            ts = time.time()
            r = subprocess.run(cmd, cwd=d, env=child_env(list(known), mem, slow="san" in VARIANTS[j["variant"]].get("flags", "")), preexec_fn=None if j["sub"]["unpinned"] else pin(slot),
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            j["wall"] = time.time() - ts
            try:
                j["res"] = json.load(open(out))
            except Exception as e:
                j["res"] = None
                j["err"] = "rc=%s %s %s" % (r.returncode, e, r.stderr[-500:])
            try:
                j["child"] = json.load(open(out + ".child"))
            except Exception:
                j["child"] = {"labels": {}, "samples": []}
            j["other"] = []
            for k in (1, 2, 3):
                if mem and os.path.exists("%s.fail%d" % (out, k)):
                    j["other"].append("%s.fail%d" % (out, k))
        finally:
            with lock:
                slots.append(slot)
        return j

    pinned = [j for j in jobs if not j["sub"]["unpinned"]]
    unp = [j for j in jobs if j["sub"]["unpinned"]]
    with ThreadPoolExecutor(NCPU) as ex:
        results += list(ex.map(runjob, pinned))
    with ThreadPoolExecutor(2) as ex:
        results += list(ex.map(runjob, unp))

    # Cases whose property did not hold in the memory build (stack and heap filled with a pattern): does the outcome hang
    # on uninitialised data?  The same build with zeroed variables and zeroed heap blocks decides.
    differs = []
    for j in results:
        for f in j.get("other", []) if mem else []:
            key = re.search(r"^key (.*)$", open(f).read(), re.M)[1]
            if any(key in k for k in load_known().values()):
                continue
            zdir = build(j["variant"] + "0", [j["exename"]])
            rcs = []
            for exe, fill in ((j["exe"], 0xbe), (os.path.join(zdir, j["exename"]), 0), (j["exe"], 0xbe)):
                d = make_scratch(base, "cmp")
                env = dict(child_env([], True, fill), PBT_MEM_FAILS="1")
                rcs.append(subprocess.run([exe, "--replay", f, "--tier", tier], cwd=d, env=env, stdout=subprocess.PIPE, text=True))
            if rcs[0].returncode in (1, 3) and rcs[2].returncode in (1, 3) and rcs[1].returncode == 0:
                differs.append((j, dict(confirmed=True, key=key, replay=f, msg="fails when variables start with a pattern, passes when they start as zero (uninitialised data is used)\n" + rcs[0].stdout[:1500], case="")))
            if len(differs) >= 3:
                break

    # aggregate
    agg, rules, samples, fails, broken = {}, [], [], [], []
    khits_total = 0
    for j in results:
        key = (j["sub"]["name"], j["variant"])
        a = agg.setdefault(key, dict(evals=0, distinct=0, nontrivial=0, discards=0, steps=0, known=0, labels={}, wall=0.0))
        if j["res"] is None:
            broken.append((key, j.get("err")))
            continue
        r = j["res"]
        for x in ("evals", "distinct", "nontrivial", "discards", "steps", "known"):
            a[x] += r[x]
        a["wall"] = round(a["wall"] + j["wall"], 2)
        a["slowest"] = max(a.get("slowest", 0), round(j["child"].get("slowest", 0), 3))
        for l, v in j["child"]["labels"].items():
            a["labels"][l] = a["labels"].get(l, 0) + v
        for s in j["child"]["samples"]:
            if sum(1 for x in samples if x["check"] == key[0]) < 2:
                samples.append({"check": key[0], "case": s})
        if r["failed"]:
            fails.append((j, r))

    # replay of the listed witnesses of known findings is part of the ordinary subs: they are tallied by key
    viol = 0
    witnesses = 0
    for key, what in known.items():
        wit = os.path.join(VERIF, "witness", key + ".replay")
        rep = False
        if os.path.exists(wit):
            head = dict(l.split(" ", 1) for l in open(wit).read().split("\nmsg")[0].splitlines() if " " in l)
            b = os.path.join(VERIF, "build", head["variant"] if REPO == "/repo" else head["variant"] + "-" + re.sub(r"\W", "_", REPO))
            d = make_scratch(base, "wit_" + key)
            exe = os.path.join(b, head["exe"])
            if os.path.exists(exe):
                r = subprocess.run([exe, "--replay", wit, "--tier", tier], cwd=d, env=child_env([]), stdout=subprocess.PIPE, text=True)
                witnesses += 1
                rep = r.returncode == 1
        if rep:
            log("KNOWN-FINDING: property=%s %s [%s]" % (prop, what, key))
        else:
            log("note: listed finding %s did not reproduce on this tree" % key)

    fails += differs
    rdir = os.path.join(VERIF, "replays")
    seen_keys = set()
    for j, r in fails:
        if not r["confirmed"]:
            broken.append((j["sub"]["name"], "failure did not reproduce: " + r["key"] + " " + r["msg"]))
            continue
        if r["key"] in known or r["key"] in seen_keys:
            continue
        seen_keys.add(r["key"])
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, re.sub(r"[^\w.-]", "_", "%s-%s.replay" % (prop, r["key"])))
        body = open(r["replay"]).read()
        open(rp, "w").write("property %s\nvariant %s\nexe %s\ntier %s\n" % (prop, j["variant"], j["exename"], tier) + body)
        viol += 1
        log("VIOLATION property=%s replay=%s" % (prop, rp))
        log("  key: %s" % r["key"])
        log("  %s" % r["msg"].replace("\n", "\n  "))
        log("  case: %s" % r["case"][:2500].replace("\n", "\n  "))

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(a["evals"] for a in agg.values()),
            "distinct_nontrivial": sum(a["distinct"] for a in agg.values()),
            "rule": chk["rule"],
            "samples": samples[:24],
            "per_check": {"%s [%s]" % k: {"cases": a["evals"], "distinct_nontrivial": a["distinct"], "nontrivial": a["nontrivial"], "discarded": a["discards"],
                                          "inner_steps": a["steps"], ("judged_by_their_own_check" if mem else "ended_at_a_listed_known_finding"): a["known"], "classes": a["labels"], "cpu_s": a["wall"]} for k, a in agg.items()},
            "sub_rules": {s["name"]: s["rule"] for _, _, s, _ in seen},
            "known_findings_replayed": witnesses,
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": viol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    shutil.rmtree(base, ignore_errors=True)
    log("%s %s seed=%d: %d cases, %d distinct non-trivial, %d inner steps, build %.1fs, total %.1fs" % (
        prop, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], sum(a["steps"] for a in agg.values()), tbuild, time.time() - t0))
    if os.environ.get("PBT_STATS"):
        for k, a in agg.items():
            log("   ", k, {x: a[x] for x in ("evals", "distinct", "discards", "steps", "known", "wall", "slowest") if x in a}, a["labels"])
    if viol:
        sys.exit(1)
    if broken:
        for b in broken:
            log("CHECK ERROR", b)
        sys.exit(2)
    if not seen or ev["coverage"]["distinct_nontrivial"] < 2:
        log("CHECK ERROR: nothing was explored")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
