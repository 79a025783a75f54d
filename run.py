#!/usr/bin/env python3
"""Decide one property: model-check its specification, generate behaviours from the specification
with TLC, replay them on the library built from /repo's working tree, validate the recorded traces
against the specification with TLC.

usage: run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]
exit 0: held; exit 1 + VIOLATION line: broken; exit 2: the check itself failed.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(V, "spec")
HARN = os.path.join(V, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8

sys.path.insert(0, V)


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ tools
def sh(cmd, timeout=None, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    for k in ("JAVA_TOOL_OPTIONS", "CPATH", "CPLUS_INCLUDE_PATH", "CXXFLAGS", "LDFLAGS"):
        e.pop(k, None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd,
                           stdin=stdin)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return -9, (x.stdout or b"").decode("utf-8", "replace")


def build_classes():
    out = os.path.join(V, "build", "classes")
    src = sorted(glob.glob(os.path.join(V, "java", "verif", "*.java")))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in src)).hexdigest()
    stamp = os.path.join(out, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(out, exist_ok=True)
    for attempt in range(2):
        rc, o = sh(["javac", "-cp", JARS, "-d", out] + src, timeout=240)
        if rc == 0:
            break
    if rc != 0:
        raise CheckError("javac failed: " + o[-2000:])
    open(stamp, "w").write(h)


class Tlc:
    """accumulated statistics over every TLC run of this check"""
    states = 0
    generated = 0
    runs = 0


def tlc(module, cfg, work, env=None, workers=1, timeout=600, heap="2g", extra=()):
    os.makedirs(work, exist_ok=True)
    meta = os.path.join(work, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + work,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.RatOverrides",
           "-cp", JARS + ":" + os.path.join(V, "build", "classes"), "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    rc, out = sh(cmd, timeout=timeout, env=env, cwd=work)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        Tlc.generated += int(m[-1][0])
        Tlc.states += int(m[-1][1])
    Tlc.runs += 1
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


# ------------------------------------------------------------------ harness
def compile_one(src, obj, defs, flags, cc):
    cmd = [cc, "-std=gnu++17", "-w", "-I", os.path.join(REPO, "include"), "-I", HARN] + flags + \
          ["-D%s=%s" % (k, v) for k, v in defs.items()] + ["-c", src, "-o", obj]
    return sh(cmd, timeout=600)


FLAGS = ["-O0", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]


def build_harness(tus, work, libs=()):
    """tus: list of (source, defines). Returns (binary, None) or (None, message)."""
    od = os.path.join(work, "obj")
    shutil.rmtree(od, ignore_errors=True)
    os.makedirs(od)
    jobs = [(os.path.join(HARN, "main.cpp"), {})] + \
           [(s if os.path.isabs(s) else os.path.join(HARN, s), d) for s, d in tus]
    msgs = []
    for cc in ("clang++", "g++"):
        def go(n):
            s, d = jobs[n]
            return compile_one(s, os.path.join(od, "%d.o" % n), d, FLAGS, cc)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(go, range(len(jobs))))
        bad = [(jobs[n], r) for n, r in enumerate(res) if r[0] != 0]
        if bad:
            msgs.append("%s: %s %s\n%s" % (cc, os.path.basename(bad[0][0][0]), bad[0][0][1], bad[0][1][1][:3000]))
            continue
        exe = os.path.join(work, "harness")
        rc, out = sh([cc] + FLAGS + [os.path.join(od, "%d.o" % n) for n in range(len(jobs))] + ["-o", exe] +
                     list(libs), timeout=300)
        if rc == 0:
            return exe, None
        msgs.append("%s link: %s" % (cc, out[-3000:]))
    return None, "\n".join(msgs)


def op_line(e):
    """one operation of the specification as a harness line"""
    op = e["op"]

    def kv(d):
        return ["%s=%s" % (k, ",".join(v) if isinstance(v, list) else v) for k, v in d.items() if k != "z"]
    if op == "reset":
        return "reset"
    if op == "new":
        if e["fam"] in ("dag", "dlib"):
            return " ".join(["new", e["o"], e["k"]] + kv(e["p"].get("ctor", {})))
        return " ".join(["new", e["o"], e["k"]] + kv(e["p"]))
    if op == "push":
        return " ".join(["push", e["o"]] + kv({k: v for k, v in e.items() if k not in ("op", "o")}))
    if op == "read":
        return " ".join(["read", e["o"], e["f"]] + kv(e.get("a", {})))
    if op == "same":
        return " ".join(["same", e["o"], e["o2"], e["f"]] + kv(e.get("a", {})))
    if op in ("copy", "assign"):
        return " ".join([op, e["o"], e["from"]])
    if op == "persist":
        return " ".join([op, e["o"], e["from"], "fmt=" + e["fmt"]] + (["into=used"] if e.get("into") == "used" else []))
    if op == "drop":
        return " ".join([op, e["o"], e["f"]])
    if op == "del":
        return "del " + e["o"]
    if op == "call":
        return " ".join([op, e["f"]] + kv(e.get("a", {})))
    raise CheckError("op " + op)


def parse_result(s):
    if "|" in s:
        return [parse_result(x) for x in s.split("|")]
    if s.startswith("[") and s.endswith("]"):
        s = s[1:-1]
        return s.split(",") if s else []
    return s


ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:hard_rss_limit_mb=6000"}


def run_harness(exe, ops, work, tag, timeout):
    """ops: list of records starting with reset. Returns results; a crash or hang ends its scenario."""
    res = []
    start = 0
    n = len(ops)
    crashes = 0
    while start < n:
        inp = os.path.join(work, "ops_%s.txt" % tag)
        with open(inp, "w") as f:
            f.write("".join(op_line(e) + "\n" for e in ops[start:]))
        with open(inp) as f:
            try:
                p = subprocess.run([exe], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                                   env=dict(os.environ, **ASAN), cwd=work)
                out, err, rc = p.stdout, p.stderr, p.returncode
            except subprocess.TimeoutExpired as x:
                out, err, rc = x.stdout or b"", b"", "timeout"
        lines = out.decode("utf-8", "replace").split("\n")
        lines = lines[:-1]           # the last element is empty or a partial line
        res += [parse_result(x) for x in lines]
        start += len(lines)
        if start < n:
            what = "hang" if rc == "timeout" else "crash"
            m = re.search(rb"ERROR: AddressSanitizer: (\S+)|(Assertion.*failed)", err)
            res.append(what + (":" + (m.group(1) or m.group(2)).decode("utf-8", "replace") if m else ""))
            start += 1
            while start < n and ops[start]["op"] != "reset":
                res.append("skipped")
                start += 1
            crashes += 1
            if crashes > 20 or what == "hang":
                while start < n:
                    res.append("skipped")
                    start += 1
    return res


# ------------------------------------------------------------------ scenarios and traces
def generate(gen, nscen, seed, scale, work, timeout):
    """gen: module:property:mode"""
    gen, prop, mode = gen.split(":")
    env = {"SEED": str(seed), "NSCEN": str(nscen), "SCALE": str(scale), "PROP": prop, "MODE": mode}
    cache = os.environ.get("VERIF_GENCACHE")      # development only: generation does not depend on the library
    if cache:
        h = hashlib.sha256(json.dumps(env, sort_keys=True).encode())
        for f in sorted(glob.glob(os.path.join(SPEC, "*"))):
            h.update(open(f, "rb").read())
        cache = os.path.join(cache, h.hexdigest() + ".json")
        if os.path.exists(cache):
            return json.load(open(cache))
    for attempt in range(2):
        rc, out = tlc(gen, gen + ".cfg", work, env=env, workers=4, timeout=timeout)
        if rc == 0:
            break
    if rc != 0:
        raise CheckError("generation %s failed (%s): %s" % (gen, rc, out[-1200:]))
    sc = {}
    for ln in out.split("\n"):
        if ln.startswith('"@OP '):
            s, i, e = json.loads(json.loads(ln)[4:])
            sc.setdefault(s, {})[i] = e
    scens = [[sc[s][i] for i in sorted(sc[s])] for s in sorted(sc)]
    if cache:
        json.dump(scens, open(cache, "w"))
    return scens


def write_trace(path, scens):
    with open(path, "w") as f:
        for s in scens:
            for e in s:
                f.write(json.dumps(e) + "\n")


def validate(scens, work, tag, timeout):
    """scens: scenarios with results. Returns (None | index of first rejected scenario, event index, message)."""
    path = os.path.join(work, "trace_%s.ndjson" % tag)
    flat = [(a, b) for a, s in enumerate(scens) for b in range(len(s))]
    write_trace(path, scens)
    rc, out = tlc("Trace", "Trace.cfg", os.path.join(work, "tv_" + tag), env={"TRACE": path}, timeout=timeout)
    if rc == 0 and "No error has been found" in out:
        return None, None, ""
    m = re.search(r"@REJECT (\d+)", out)
    if m and int(m.group(1)) >= 1:
        k = int(m.group(1)) - 1
        if k < len(flat):
            err = re.search(r"Error: (?!Evaluating assumption|Assumption)(.{0,600})", out, re.S)
            return flat[k][0], flat[k][1], (err.group(1) if err else "")[:600]
    # an observation of a shape the specification has no meaning for
    m = re.findall(r"^/\\ l = (\d+)", out, re.M)
    if m and "The error occurred when TLC was evaluating the nested" in out:
        k = int(m[-1]) - 1
        if k < len(flat):
            err = re.search(r"Error: (.{0,600})", out, re.S)
            return flat[k][0], flat[k][1], "not evaluable: " + err.group(1)[:600]
    raise CheckError("trace validation failed to run (%s): %s" % (rc, out[-1200:]))


def with_results(scens, res):
    out, k = [], 0
    for s in scens:
        t = []
        for e in s:
            r = dict(e)
            r["r"] = res[k]
            if isinstance(res[k], str) and re.match(r"(crash|hang)\b", res[k]):
                r["died"] = "y"
            k += 1
            if res[k - 1] != "skipped":
                t.append(r)
        out.append(t)
    return out


# ------------------------------------------------------------------ the check
def shrink(exe, scen, work, budget=25.0):
    """greedy removal of operations that keeps the scenario rejected (best effort, for the report only)"""
    t0 = time.time()
    cur = scen

    def sensible(s):
        live = set()
        for e in s:
            if e["op"] in ("copy", "assign", "persist") and e["from"] not in live:
                return False
            if (e["op"] in ("push", "read", "same", "del", "drop", "assign") or e.get("into") == "used") and e["o"] not in live:
                return False
            if e["op"] == "same" and e["o2"] not in live:
                return False
            if e["op"] in ("new", "copy", "persist"):
                live.add(e["o"])
            if e["op"] == "del":
                live.discard(e["o"])
        return True

    def rejected(s):
        if not sensible(s):
            return False
        r = with_results([s], run_harness(exe, s, work, "shrink", 60))
        try:
            return validate(r, work, "shrink", 60)[0] is not None
        except CheckError:
            return False
    n = len(cur)
    step = max(1, (n - 2) // 2)
    while step >= 1 and time.time() - t0 < budget:
        i = 2
        changed = False
        while i < len(cur) and time.time() - t0 < budget:
            cand = cur[:i] + cur[i + step:]
            if len(cand) > 2 and rejected(cand):
                cur = cand
                changed = True
            else:
                i += step
        if not changed or step > 1:
            step //= 2
    return cur


def main():
    import props
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        elif a[i] == "--replay":
            replay = a[i + 1]
        i += 2
    P = props.PROPS[prop]
    T = P[tier] if tier in P else P["quick"]
    t0 = time.time()
    work = os.path.join(V, "build", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    build_classes()

    violations = []          # (replay path, message)
    known = []
    cover = {}

    def save_replay(obj):
        d = os.path.join(V, "build", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (prop, len(violations) + 1))
        json.dump(obj, open(p, "w"), indent=1)
        return p

    def finish():
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"),
            "coverage": dict(cover, states=Tlc.states, transitions=Tlc.generated, tlc_runs=Tlc.runs),
            "assumptions": P.get("assumptions", []) + [
                "conformance is established for the executions replayed in this run; TLC, the Rat override and the "
                "compiler are trusted"],
            "wall_s": round(time.time() - t0, 1),
            "violations": len(violations),
        }
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
        for p, msg in violations:
            print("property %s: %s" % (prop, msg))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        for k in known:
            print(k)
        if violations:
            return 1
        print("OK property=%s tier=%s seed=%d %s wall=%.1fs" % (
            prop, tier, seed, json.dumps({k: v for k, v in ev["coverage"].items() if k != "samples"}),
            time.time() - t0))
        return 0

    with cf.ThreadPoolExecutor(NCPU) as ex:
        # 1. harness, 2. model checking, 3. generation, side by side
        def mk():
            tus = list(P["tus"])
            if "emit" in P:          # translation units that depend on the generated scenarios
                src = [json.load(open(replay))["scenario"]] if replay else [s for f in fg for s in f.result()]
                src += [json.load(open(os.path.join(V, fd["scenario"]))) for fd in findings(prop)]
                tus += P["emit"](src, work)
            return build_harness(tus, work, P.get("libs", ()))
        fm = []
        if not replay:
            for (mod, cfg) in T.get("models", []):
                fm.append((mod, cfg, ex.submit(tlc, mod, cfg, os.path.join(work, "mc_" + cfg), None, 2,
                                               T.get("model_timeout", 600), "4g")))
        fg = []
        if not replay:
            for (gen, n) in T["gens"]:
                fg.append(ex.submit(generate, gen, n, seed, T.get("scale", 1), os.path.join(work, "gen_" + gen.replace(":", "_")), 800))
        fh = ex.submit(mk)
        exe, msg = fh.result()
        nmodel = 0
        for mod, cfg, f in fm:
            rc, out = f.result()
            if rc != 0 or "No error has been found" not in out:
                raise CheckError("model %s/%s: rc %s\n%s" % (mod, cfg, rc, out[-3000:]))
            nmodel += 1
        cover["model_configurations_checked"] = nmodel
        cover["model_states"] = Tlc.states
        if replay:
            scens = [json.load(open(replay))["scenario"]]
        else:
            scens = [s for f in fg for s in f.result()]
    scens = [[{"op": "reset"}] + [e for e in s if e["op"] != "reset"] for s in scens]

    if exe is None:
        p = save_replay({"property": prop, "what": "the harness no longer compiles against the library", "message": msg})
        violations.append((p, "the public interface this property is observed through no longer compiles:\n" + msg[:1500]))
        cover.update(traces_validated_against_impl=0, samples=[])
        return finish()

    # 4. replay on the real library
    ops = [e for s in scens for e in s]
    res = run_harness(exe, ops, work, "all", T.get("harness_timeout", 200))
    if len(res) != len(ops):
        raise CheckError("harness answered %d of %d operations" % (len(res), len(ops)))
    bad = [r for r in res if isinstance(r, str) and r.startswith("err ")]
    if bad:
        raise CheckError("harness does not know an operation: " + bad[0])
    logged = with_results(scens, res)

    # 5. validate the traces
    nch = min(NCPU, max(1, len(logged) // 4)) if not replay else 1
    chunks = [logged[c::nch] for c in range(nch)]
    tv = T.get("trace_timeout", 700)

    def val(c):
        return validate(chunks[c], work, "c%d" % c, tv)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        outs = list(ex.map(val, range(nch)))
    accepted = sum(len(c) for c in chunks)
    for c, (s, ev, err) in enumerate(outs):
        if s is None:
            continue
        accepted -= len(chunks[c]) - s
        if len(violations) >= 2:
            continue
        scen = [{k: v for k, v in e.items() if k != "r"} for e in chunks[c][s]]
        # confirm on a fresh execution
        hung = str(chunks[c][s][ev].get("r")).startswith("hang")
        r2 = with_results([scen], run_harness(exe, scen, work, "confirm", 60 if hung else 120))
        s2, ev2, err2 = validate(r2, work, "confirm", 300)
        if s2 is None:
            if hung:
                raise CheckError("an operation timed out, but not when repeated (scenario of chunk %d)" % c)
            # the library answered differently the second time: what it answered first stays a violation
            p = save_replay({"property": prop, "scenario": scen, "observed": chunks[c][s], "rejected_event": ev,
                             "note": "not reproduced when repeated"})
            violations.append((p, "the specification does not allow %s (operation %d of %d; not reproduced when repeated)" % (
                json.dumps(chunks[c][s][ev]), ev, len(scen))))
            continue
        small = shrink(exe, scen, work) if not violations and not hung else scen
        r3 = with_results([small], run_harness(exe, small, work, "final", 60 if hung else 120))
        s3, ev3, err3 = validate(r3, work, "final", 300)
        if s3 is None:
            small, r3, ev3, err3 = scen, r2, ev2, err2
        p = save_replay({"property": prop, "scenario": small, "observed": r3[0], "rejected_event": ev3,
                         "note": err3})
        violations.append((p, "the specification does not allow %s (operation %d of %d)" % (
            json.dumps(r3[0][ev3]), ev3, len(r3[0]))))

    # known findings: the listed observation may be rejected, everything else must be accepted
    if not replay:
        for fd in findings(prop):
            scen = json.load(open(os.path.join(V, fd["scenario"])))
            r = with_results([scen], run_harness(exe, scen, work, "finding", 120))

            def listed(e):
                return e["op"] == "read" and e["f"] == fd["f"] and all(e["a"].get(k) == v for k, v in fd["args"].items())
            rest = [[e for e in r[0] if not listed(e)]]
            s1, ev1, err1 = validate(rest, work, "finding", 300)
            if s1 is not None:
                p = save_replay({"property": prop, "scenario": [{k: v for k, v in e.items() if k != "r"} for e in rest[0]],
                                 "observed": rest[0], "rejected_event": ev1, "note": err1})
                violations.append((p, "the specification does not allow %s" % json.dumps(rest[0][ev1])))
            elif validate(r, work, "finding", 300)[0] is not None:
                known.append("KNOWN-FINDING: property=%s %s" % (prop, fd["what"]))

    # 6. the binding is not vacuous: a corrupted observation must be rejected
    if not replay and not violations:
        k = 0
        for s in logged:
            idx = [j for j, e in enumerate(s) if e["op"] in ("read", "same", "call") and corruptible(e["r"])]
            if not idx:
                continue
            s2 = [dict(e) for e in s]
            s2[idx[-1]]["r"] = corrupt(s2[idx[-1]]["r"])
            rj, _, _ = validate([s2], work, "corrupt", 120)
            k += 1
            if rj is not None:
                cover["corrupted_observation_rejected"] = True
                break
            if k >= 8:
                break
        if not cover.get("corrupted_observation_rejected"):
            raise CheckError("corrupted observations were accepted: the binding is vacuous")

    nread = sum(1 for s in logged for e in s if e["op"] in ("read", "same", "call"))
    cover.update(
        traces_validated_against_impl=accepted,
        scenarios=len(logged), operations_replayed=len(ops), observations_checked=nread,
        kinds=sorted({e["k"] for s in logged for e in s if e["op"] == "new"}),
        features=sorted({e["f"] for s in logged for e in s if e["op"] in ("read", "same", "call")}),
        samples=[logged[0][:8], logged[len(logged) // 2][:8]])
    rc = finish()
    if not os.environ.get("VERIF_KEEP"):
        for g in glob.glob(os.path.join(work, "*")):
            if os.path.isdir(g):
                shutil.rmtree(g, ignore_errors=True)
            elif os.path.basename(g) == "harness" or g.endswith(".ndjson") or g.endswith(".txt"):
                os.unlink(g)
    return rc


def findings(prop):
    out = []
    for ln in open(os.path.join(V, "known_findings.txt")):
        if not ln.startswith("finding: property=%s " % prop):
            continue
        head, what = ln[len("finding: "):].split(" :: ", 1)
        d = dict(x.split("=", 1) for x in head.split())
        out.append(dict(scenario=d.pop("scenario"), f=d.pop("f"), what=what.strip(),
                        args={k: v for k, v in d.items() if k != "property"}))
    return out


def corruptible(r):
    if isinstance(r, list):
        return len(r) > 0 and corruptible(r[0])
    return bool(re.match(r"^-?(0x|\d)", r))


def corrupt(r):
    if isinstance(r, list):
        return [corrupt(r[0])] + r[1:]
    return "0x1.23456789p+66" if r.startswith(("0x", "-0x")) else str(int(r) + 7919)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
