#!/usr/bin/env python3
"""Decides one property of /repo: check.py ID   (environment: VERIF_SEED, VERIF_TIER)

1. TLC explores the design model of the property's part of the system (spec/MC_*).
2. TLC generates a plan, sessions of calls, from the plan specification (spec/G_*).
3. The driver (harness/drv, built against /repo's working tree) executes the plan and records what happened.
4. TLC validates the recorded sessions against the specification (spec/T_*), enforcing this property's obligations;
   and, as a guard against vacuity, the same with results falsified on purpose, which must be rejected.

check.py --replay FILE executes the session of a replay file again and validates it.
"""
import json, os, random, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, ".build")
REPO = os.environ.get("VERIF_REPO", "/repo")         # development only: another tree than /repo
TAG = os.environ.get("VERIF_TAG", "")                # development only: keeps parallel runs apart
SPEC = os.path.join(ROOT, "spec")
TLA = "/opt/veriftools/tla/"
GOENV = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ.get("PATH", ""), GOTOOLCHAIN="local",
             GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="1", HOME=os.environ.get("HOME") or "/root")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from suites import SUITES, PROPS            # noqa: E402


class Broken(Exception):
    """The machinery failed; nothing is concluded."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ tools
def build_classes():
    out = os.path.join(BUILD, "classes")
    src = os.path.join(ROOT, "java", "Prims.java")
    stamp = os.path.join(out, "stamp")
    text = open(src).read()
    if os.path.exists(stamp) and open(stamp).read() == text:
        return out
    tmp = out + ".%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    r = sh(["javac", "-nowarn", "-cp", TLA + "tla2tools.jar", "-d", tmp, src])
    if r.returncode:
        raise Broken("javac: " + r.stdout)
    open(os.path.join(tmp, "stamp"), "w").write(text)
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    return out


def build_driver(work, race):
    src = os.path.join(ROOT, "harness")
    shutil.copy(os.path.join(src, "go.sum"), work)
    mod = open(os.path.join(src, "go.mod")).read()
    open(os.path.join(work, "go.mod"), "w").write(mod.replace("=> /repo", "=> " + REPO))
    out = os.path.join(work, "drv")
    cmd = ["go", "build", "-modfile", os.path.join(work, "go.mod"), "-o", out] + (["-race"] if race else []) + ["./drv"]
    r = sh(cmd, cwd=src, env=GOENV)
    if r.returncode:
        raise Broken("go build: " + r.stdout)
    return out


def build_tool(work, race):
    """The graphical tool, with harness/gioapp in place of gioui.org/app."""
    mod = open(os.path.join(REPO, "go.mod")).read()
    ver = re.search(r"gioui\.org (v\S+)", mod).group(1)
    r = sh(["go", "env", "GOMODCACHE"], cwd=work, env=GOENV)
    gio = os.path.join(work, "gio")
    shutil.copytree(os.path.join(r.stdout.strip(), "gioui.org@" + ver), gio, ignore=shutil.ignore_patterns("app", "*_test.go"))
    sh(["chmod", "-R", "u+w", gio])
    shutil.copytree(os.path.join(ROOT, "harness", "gioapp"), os.path.join(gio, "app"))
    shutil.copy(os.path.join(REPO, "go.sum"), work)
    if re.search(r"^replace\s*\(", mod, re.M):
        mod = re.sub(r"^replace\s*\(", "replace (\n gioui.org => %s\n" % gio, mod, flags=re.M)
    else:
        mod += "\nreplace gioui.org => %s\n" % gio
    open(os.path.join(work, "go.mod"), "w").write(mod)
    out = os.path.join(work, "tool")
    r = sh(["go", "build", "-modfile", os.path.join(work, "go.mod"), "-o", out, "./examples/ui/one"], cwd=REPO, env=GOENV)
    if r.returncode:
        raise Broken("go build: " + r.stdout)
    return out


def tlc(work, name, module, env, args=(), workers=8, timeout=600):
    meta = os.path.join(work, "meta-" + name)
    tmp = os.path.join(work, "tmp-" + name)
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx6g", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + tmp,
           "-DTLA-Library=" + SPEC, "-cp", ":".join([os.path.join(BUILD, "classes"), TLA + "tla2tools.jar", TLA + "CommunityModules-deps.jar"]),
           "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
           "-config", os.path.join(SPEC, module + ".cfg"), *args, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    try:
        r = sh(cmd, env=e, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        raise Broken("TLC %s: no answer in %d s" % (module, timeout))
    open(os.path.join(work, name + ".log"), "w").write(r.stdout)
    return r


def tail(s, n=30):
    return "\n".join([x for x in s.splitlines() if not re.match(r"(Loading|Parsing|Semantic|Linting)", x)][-n:])


def counts(out):
    m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    return (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)


# ------------------------------------------------------------------ the driver
def drive(drv, plan, trace, work, env=None):
    """Executes the sessions of plan; the recorded sessions go to trace.  Survives crashes and hangs of the code under test."""
    todo = open(plan).read().splitlines()
    done, notes, tries = [], [], 0
    e = dict(os.environ, GOMAXPROCS="8", **(env or {}))

    def once(lines, tag):
        p, t, g = (os.path.join(work, "%s.%s" % (tag, x)) for x in ("plan", "trace", "progress"))
        open(p, "w").write("".join(x + "\n" for x in lines))
        try:
            r = sh([drv, p, t, g], env=e, timeout=1200)
            code, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            raise Broken("the driver gave no answer")
        got = [x for x in open(t).read().splitlines() if x] if os.path.exists(t) else []
        pos = open(g).read().split() if os.path.exists(g) else []
        return code, out, got, pos

    while todo:
        code, out, got, pos = once(todo, "run")
        if code == 4 or (code and not pos):
            raise Broken("driver: " + out[-2000:])
        if code == 0:
            if len(got) != len(todo):
                raise Broken("driver: sessions are missing")
            done += got
            break
        tries += 1
        done += got
        if code == 3:                                   # a call hung; its session is recorded
            notes.append("hang")
            todo = todo[len(got):]
        else:                                           # the process died in a call: record the session up to that call
            k = int(pos[1])
            s = json.loads(todo[len(got)])
            notes.append("crash: " + out.strip().splitlines()[0] if out.strip() else "crash")
            if k > 0:
                c2, out2, g2, _ = once([json.dumps({"id": s["id"], "ev": s["ev"][:k]})], "crash")
                if c2 != 0:
                    raise Broken("driver: " + out2[-2000:])
                rec = json.loads(g2[0])
            else:
                rec = {"id": s["id"], "ev": []}
            bad = dict(s["ev"][k], o="crash", msg=out[:400], d={})
            rec["ev"].append(bad)
            done.append(json.dumps(rec, ensure_ascii=False))
            todo = todo[len(got) + 1:]
        if tries >= 4:
            notes.append("gave up after %d crashes or hangs; %d sessions were not executed" % (tries, len(todo)))
            break
    open(trace, "w").write("".join(x + "\n" for x in done))
    return [json.loads(x) for x in done], notes


def drive_together(drv, plan, trace, work, env=None):
    """Executes concurrent sessions in several processes, twice: with goroutines, and the same calls one after another
    (ref); the calls' records are put together."""
    todo = open(plan).read().splitlines()
    pieces = 24
    notes, lock, result = [], threading.Lock(), {}

    def once(lines, tag, more):
        p, t, g = (os.path.join(work, "%s.%s" % (tag, x)) for x in ("plan", "trace", "progress"))
        open(p, "w").write("".join(x + "\n" for x in lines))
        race = os.path.join(work, tag + ".race")
        e = dict(os.environ, GOMAXPROCS="8", VERIF_RACELOG=race, GORACE="log_path=%s halt_on_error=0 exitcode=0" % race, **(env or {}), **more)
        try:
            r = sh([drv, p, t, g], env=e, timeout=2400)
        except subprocess.TimeoutExpired:
            raise Broken("the driver gave no answer")
        got = [json.loads(x) for x in open(t).read().splitlines() if x] if os.path.exists(t) else []
        return r.returncode, r.stdout, got

    def all(lines, tag, more):
        out, tries = [], 0
        while lines:
            code, text, got = once(lines, tag, more)
            if code == 4:
                raise Broken("driver: " + text[-2000:])
            out += got
            lines = lines[len(got):]
            if code == 0 and lines:
                raise Broken("driver: sessions are missing")
            if code == 3:
                notes.append("hang")
            elif code:
                notes.append("crash: " + (text.strip().splitlines() or ["?"])[0])
                out.append({"id": json.loads(lines[0])["id"], "ev": [{"op": "crash", "o": "crash", "msg": text[:1500], "d": {}}]})
                lines = lines[1:]
            if code:
                tries += 1
            if tries >= 3:
                break
        return out

    def job(k):
        lines = todo[k::pieces]
        try:
            par = all(lines, "par%d" % k, {})
            seq = {s["id"]: s for s in all(lines, "seq%d" % k, {"VERIF_SEQ": "1"})}
        except Exception as x:
            with lock:
                result[-1] = x
            return
        for s in par:
            ref = seq.get(s["id"])
            if ref and len(ref["ev"]) == len(s["ev"]):
                for e, f in zip(s["ev"], ref["ev"]):
                    if "w" in e:
                        e["ref"] = {n: v for n, v in f.items() if n not in ("d", "alts", "at", "end")}
        with lock:
            for s in par:
                result[s["id"]] = s
    jobs = list(range(pieces))

    def worker():
        while True:
            with lock:
                if not jobs or -1 in result:
                    return
                k = jobs.pop(0)
            job(k)
    ts = [threading.Thread(target=worker) for _ in range(3)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if -1 in result:
        raise result[-1]
    out = [result[json.loads(x)["id"]] for x in todo if json.loads(x)["id"] in result]
    if len(out) < len(todo):
        notes.append("%d sessions were not executed" % (len(todo) - len(out)))
    open(trace, "w").write("".join(json.dumps(s, ensure_ascii=False) + "\n" for s in out))
    return out, notes


def drive_tool(tool, plan, trace, work, env=None):
    """Executes every session in a process of its own."""
    todo = [json.loads(x) for x in open(plan).read().splitlines()]
    notes, lock, result, jobs = [], threading.Lock(), {}, list(range(len(todo)))

    def job(k):
        p, t = (os.path.join(work, "%d.%s" % (k, x)) for x in ("plan", "trace"))
        json.dump(todo[k], open(p, "w"))
        open(t, "w").close()
        try:
            r = sh([tool], env=dict(os.environ, GOMAXPROCS="2", VERIF_UI_PLAN=p, VERIF_UI_TRACE=t, **(env or {})), timeout=300)
            code, text = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            code, text = 3, "no answer"
        if code == 4:
            raise Broken("the tool: " + text[-2000:])
        ev = [json.loads(x) for x in open(t).read().splitlines() if x.endswith("}")]
        if code == 0 and len(ev) < len(todo[k]["ev"]):
            raise Broken("the tool: steps are missing")
        if code:
            n = min(len(ev), len(todo[k]["ev"]) - 1)
            ev = ev[:n] + [dict(todo[k]["ev"][n], o="hang" if code == 3 else "crash", msg=text[:400])]
            notes.append(ev[-1]["o"])
        os.remove(p)
        os.remove(t)
        with lock:
            result[k] = {"id": todo[k]["id"], "ev": ev}

    def worker():
        while True:
            with lock:
                if not jobs or -1 in result:
                    return
                k = jobs.pop(0)
            try:
                job(k)
            except Exception as x:
                with lock:
                    result[-1] = x
    ts = [threading.Thread(target=worker) for _ in range(8)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if -1 in result:
        raise result[-1]
    out = [result[k] for k in range(len(todo))]
    open(trace, "w").write("".join(json.dumps(s) + "\n" for s in out))
    return out, notes


# ------------------------------------------------------------------ validation
def validate(work, name, module, prop, trace, sessions, env, timeout, tries=6):
    """Returns (rejections, distinct states, transitions); a rejection is (session index, line index)."""
    rej, skip, states, trans = set(), set(), 0, 0
    ids = {s["id"]: n for n, s in enumerate(sessions)}
    for k in range(tries):
        left = [n for n in range(len(sessions)) if n not in skip]
        if skip:
            trace = os.path.join(work, "%s.rest" % name)
            open(trace, "w").write("".join(json.dumps(sessions[n], ensure_ascii=False) + "\n" for n in left))
        if not left:
            break
        r = tlc(work, name, module, dict(env, PROP=prop, TRACE=trace), timeout=timeout)
        out = r.stdout
        gen, dist = counts(out)
        for m in re.finditer(r'<<"REJECT", (\d+), (\d+)(?:, "(\w+)")?>>', out):
            x = (ids[int(m.group(1))], int(m.group(2)) - 1)
            rej.add(x)
            if m.group(3):
                sessions[x[0]]["ev"][x[1]]["class"] = m.group(3)
        states, trans = dist, max(dist - len(left), 0)
        if "No error has been found" in out:
            want = sum(len(sessions[n]["ev"]) + 1 for n in left)
            if dist != want:
                raise Broken("%s: %d states instead of %d" % (module, dist, want))
            break
        # An event whose results the specification cannot even interpret counts as rejected: find it in TLC's error trace
        t = re.findall(r"^/\\ t = (\d+)", out, re.M)
        l = re.findall(r"^/\\ l = (\d+)", out, re.M)
        if not (t and l and re.search(r"evaluat|Attempted|overrid|Exception", out)):
            raise Broken("%s: %s" % (module, tail(out)))
        x = left[int(t[-1]) - 1]
        rej.add((x, int(l[-1]) - 1))
        skip.add(x)
    return sorted(rej), states, trans


def falsify(rng, sessions, rules, per=12):
    """Sessions cut after an event with a falsified result; a rule is (operation, field[, condition]); the condition
    "again" asks for a result that the session has seen before."""
    again = lambda s, k, op, field: any(x["op"] == op and x.get(field) == s["ev"][k][field] and x.get("src") == s["ev"][k].get("src") for x in s["ev"][:k])
    out = []
    for rule in rules:
        op, field = rule[0], rule[1]
        cond = rule[2] if len(rule) > 2 and rule[2] != "again" else (lambda e: True)
        rep = len(rule) > 2 and rule[2] == "again"
        where = [(s, k) for s in sessions for k, e in enumerate(s["ev"]) if e["op"] == op and field in e and e[field] not in ("", [], None) and (field == "o" or len(rule) > 2 or e["o"] == "ok") and cond(e) and (not rep or again(s, k, op, field))]
        rng.shuffle(where)
        for s, k in where[:per]:
            ev = json.loads(json.dumps(s["ev"][:k + 1]))
            e = ev[-1]
            old = e[field]
            e[field] = new = wrong(rng, old)
            for n, v in list(e.get("d", {}).items()):
                if v == old:
                    e["d"][n] = new
            out.append({"id": len(out) + 1, "ev": ev, "rule": "%s.%s" % (op, field)})
    return out


def wrong(rng, v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, list):
        v = list(v)
        k = rng.randrange(len(v))
        v[k] = wrong(rng, v[k])
        return v
    if isinstance(v, dict):
        k = sorted(v)[rng.randrange(len(v))]
        return dict(v, **{k: wrong(rng, v[k])})
    if v in ("ok", "err"):
        return "err" if v == "ok" else "ok"
    if v == "path" or not re.fullmatch(r"([0-9a-f]{2})+", v):
        return v + "x" if v else "78"
    k = rng.randrange(len(v) // 2) * 2
    return v[:k] + "%02x" % (int(v[k:k + 2], 16) ^ (1 << rng.randrange(8))) + v[k + 2:]


# ------------------------------------------------------------------ findings
def known(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (\{.*?\}) -- (.*)", line)
            if m and m.group(1) == prop:
                out.append((json.loads(m.group(2)), m.group(3).strip()))
    return out


def matches(pat, e):
    return all(k in e and e[k] == v for k, v in pat.items())


# ------------------------------------------------------------------ the check
def part(prop, n, P, S, tier, seed, work):
    """Runs one part of a check: a suite's models, plan, driver and validation."""
    thorough = tier == "thorough"
    pick = lambda v: v[1 if thorough else 0] if isinstance(v, tuple) else v
    os.makedirs(work)
    rng = random.Random("%s/%d/%d" % (prop, n, seed))
    limit = 3600 if thorough else 600
    data = os.path.join(ROOT, "data")

    # 1 and the driver's build in the background
    bg, errors = {}, {}

    def start(name, f):
        def g():
            try:
                bg[name + ".r"] = f()
            except Exception as x:
                errors[name] = x
        bg[name] = threading.Thread(target=g)
        bg[name].start()

    def join(name):
        bg[name].join()
        if name in errors:
            raise errors[name]
        return bg[name + ".r"]

    start("drv", lambda: globals()[S.get("build", "build_driver")](work, pick(P.get("race", False))))

    def design():
        res = []
        for m, (module, env) in enumerate(P.get("mc", S.get("mc", []))):
            e = {k: pick(v) for k, v in env.items()}
            r = tlc(work, "mc%d" % m, module, dict(e, PROP=prop, DATA=data), workers=e.pop("WORKERS", 4), timeout=limit)
            if "No error has been found" not in r.stdout:
                raise Broken("the design model %s fails: %s" % (module, tail(r.stdout, 60)))
            g, d = counts(r.stdout)
            res.append({"model": module, "bounds": e, "states": d, "transitions": g})
        return res
    start("mc", design)

    # 2
    plan = os.path.join(work, "plan.json")
    genv = dict(PROP=prop, SEED=seed, SIZE=pick(P.get("size", 1)), STEPS=pick(P.get("steps", 25)), PLAN=plan, DATA=data)
    sim = pick(P.get("sim", 0))
    args = ["-simulate", "num=%d" % max(sim, 1), "-depth", str(genv["STEPS"] + 3 if sim else 1), "-seed", str(seed)]
    r = tlc(work, "gen", P.get("gen", S["gen"]), genv, args, workers=1, timeout=limit)
    if not os.path.exists(plan) or "Error:" in r.stdout:
        raise Broken("plan: " + tail(r.stdout))
    drv = join("drv")

    # 3
    lines, seen = [], set()
    for x in open(plan).read().splitlines():
        i = json.loads(x)["id"]
        if i not in seen:
            seen.add(i)
            lines.append(x)
    open(plan, "w").write("".join(x + "\n" for x in lines))
    trace = os.path.join(work, "trace.json")
    sessions, notes = globals()[S.get("drive", "drive")](drv, plan, trace, work, *([P["drvenv"]] if "drvenv" in P else []))

    # 4
    tenv = dict(SEED=seed, DATA=data)
    tm = P.get("trace", S["trace"])
    rej, tstates, ttrans = validate(work, "val", tm, prop, trace, sessions, tenv, limit)
    bad = {x[0] for x in rej}
    fals = falsify(rng, [s for m, s in enumerate(sessions) if m not in bad], P["false"])
    guard = {"%s.%s" % x[:2]: [0, 0] for x in P["false"]}
    if fals:
        ft = os.path.join(work, "false.json")
        open(ft, "w").write("".join(json.dumps(s) + "\n" for s in fals))
        frej, _, _ = validate(work, "false", tm, prop, ft, fals, tenv, limit)
        hit = {x[0] for x in frej}
        for m, s in enumerate(fals):
            guard[s["rule"]][0] += 1
            guard[s["rule"]][1] += m in hit
    mc = join("mc")
    ops, outcomes = {}, {}
    for s in sessions:
        for e in s["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
            outcomes[e["o"]] = outcomes.get(e["o"], 0) + 1
    samples = []
    for s in rng.sample(sessions, min(3, len(sessions))):
        k = rng.randrange(len(s["ev"])) if s["ev"] else 0
        samples.append({"session": s["id"], "events": len(s["ev"]), "line": k + 1, "event": trim(s["ev"][k]) if s["ev"] else None})
    return dict(n=n, lines=lines, sessions=sessions, rej=rej, states=tstates, trans=ttrans, guard=guard, need=P.get("guard", 1.0), mc=mc, ops=ops,
                outcomes=outcomes, samples=samples, notes=notes, suite=P["suite"], whole="drive" in S)


def check(prop, tier, seed):
    t0 = time.time()
    P = PROPS[prop]
    work = os.path.join(BUILD, "run", "%s-%s%s" % (prop, tier, TAG))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    build_classes()
    parts = [part(prop, n, Q, SUITES[Q["suite"]], tier, seed, os.path.join(work, str(n))) for n, Q in enumerate(P.get("parts", [P]))]

    # verdict
    finds, fresh, shown = known(prop), [], set()
    for r in parts:
        for s, l in r["rej"]:
            e = r["sessions"][s]["ev"][l]
            for n, (pat, what) in enumerate(finds):
                if matches(pat, e):
                    shown.add(n)
                    break
            else:
                fresh.append((r, s, l))
    if not fresh:
        for r in parts:
            for name, (all, hit) in r["guard"].items():
                if all == 0 or hit < all * r["need"]:
                    raise Broken("the validation is too weak: falsified %s: %d of %d rejected" % (name, hit, all))
    for n in sorted(shown):
        print("KNOWN-FINDING: property=%s %s" % (prop, finds[n][1]))

    mc = [m for r in parts for m in r["mc"]]
    merge = lambda f: {k: sum(r[f].get(k, 0) for r in parts) for r in parts for k in r[f]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": sum(r["states"] for r in parts) + sum(m["states"] for m in mc),
                       "transitions": sum(r["trans"] for r in parts) + sum(m["transitions"] for m in mc),
                       "traces_validated_against_impl": sum(len(r["sessions"]) for r in parts),
                       "samples": [x for r in parts for x in r["samples"]],
                       "design_models": mc, "events_validated": sum(r["trans"] for r in parts), "operations": merge("ops"), "outcomes": merge("outcomes"),
                       "falsified_results_rejected": {"%s %s" % (r["suite"], k): "%d of %d" % (v[1], v[0]) for r in parts for k, v in r["guard"].items()},
                       "known_findings_seen": len(shown), "notes": [x for r in parts for x in r["notes"]]},
          "assumptions": P.get("assumes", []) + ["SHA-2, RIPEMD-160, Keccak, PBKDF2 and point arithmetic as implemented by java/Prims.java; TLC"],
          "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + TAG + ".json"), "w"), indent=1)
    if fresh:
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        for r, s, l in fresh[:3]:
            ses = r["sessions"][s]
            path = os.path.join(ROOT, "replay", "%s%s-%d-%d.json" % (prop, TAG, ses["id"], l + 1))
            json.dump({"property": prop, "part": r["n"], "session": ses["id"], "line": l + 1, "rejected": ses["ev"][l],
                       "plan": {"id": ses["id"], "ev": json.loads(next(x for x in r["lines"] if json.loads(x)["id"] == ses["id"]))["ev"][:None if r["whole"] else l + 1]}, "recorded": ses["ev"][:l + 1]}, open(path, "w"), indent=1)
            print("rejected: session %d line %d: %s" % (ses["id"], l + 1, json.dumps(trim(ses["ev"][l]))))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        print("%d events rejected" % len(fresh))
    else:
        print("%s held: %d sessions, %d events validated, %.1f s" % (prop, ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["events_validated"], ev["wall_s"]))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    return 1 if fresh else 0


def trim(e):
    return {k: (v if not isinstance(v, (str, list, dict)) or len(str(v)) < 400 else str(v)[:400] + "...") for k, v in e.items()}


def replay(path):
    r = json.load(open(path))
    prop = r["property"]
    P = PROPS[prop].get("parts", [PROPS[prop]])[r.get("part", 0)]
    S = SUITES[P["suite"]]
    work = os.path.join(BUILD, "run", "%s-replay" % prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    build_classes()
    drv = globals()[S.get("build", "build_driver")](work, bool(P.get("race", False)))
    plan, trace = os.path.join(work, "plan.json"), os.path.join(work, "trace.json")
    open(plan, "w").write(json.dumps(r["plan"]) + "\n")
    sessions, notes = globals()[S.get("drive", "drive")](drv, plan, trace, work, *([P["drvenv"]] if "drvenv" in P else []))
    rej, _, _ = validate(work, "val", P.get("trace", S["trace"]), prop, trace, sessions, dict(SEED=1, DATA=os.path.join(ROOT, "data")), 600)
    for s, l in rej:
        print("rejected line %d: %s" % (l + 1, json.dumps(trim(sessions[s]["ev"][l]))))
    print("%d rejected" % len(rej), notes)
    return 1 if rej else 0


def main():
    a = sys.argv[1:]
    try:
        if a == ["--setup"]:
            build_classes()
            work = os.path.join(BUILD, "run", "setup")
            os.makedirs(work, exist_ok=True)
            build_driver(work, False)
            shutil.rmtree(work)
            return 0
        if a[:1] == ["--replay"]:
            return replay(a[1])
        return check(a[0], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1))
    except Broken as x:
        print("BROKEN:", x)
        return 2


if __name__ == "__main__":
    sys.exit(main())
