#!/usr/bin/env python3
"""Contract-verification driver.

  run.py check <PROPERTY>      decide one property (exit 0 / exit 1 + VIOLATION line)
  run.py unit <unit-id> [-v]   run one proof unit and print its obligations
  run.py list                  list units
  run.py replay <file>         re-run a replay file against the real code

Every run compiles the code found in /repo at that moment.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VK_REPO", "/repo")
sys.path.insert(0, HERE)
from units import UNITS, PROPS  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = int(os.environ.get("VK_JOBS", "8"))
DEADLINE = time.time() + float(os.environ.get("VK_BUDGET", "840" if TIER == "quick" else "3400"))

INCS = ["-I" + HERE, "-I" + os.path.join(VERIF, "harness"), "-I" + REPO,
        "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "include/evfs"),
        "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HERE, "inc"),
        "-I" + os.path.join(HERE, "inc/evfs")]

CBMC_CHECKS = ["--bounds-check", "--pointer-check", "--div-by-zero-check", "--signed-overflow-check",
               "--undefined-shift-check", "--pointer-primitive-check"]

LOOP_CLASS = re.compile(r"loop_invariant_base|loop_invariant_step|loop_decreases|loop_assigns|loop_step_unwinding"
                        r"|\bassigns\b")
_children = set()
_lock = threading.Lock()


def sh(cmd, timeout, cwd=None, mem_gb=6):
    """run a command with limits; returns (rc, stdout, stderr, seconds); rc None on timeout"""
    t0 = time.time()
    timeout = max(1.0, min(timeout, DEADLINE - t0))

    def lim():
        import resource
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=lim)
    with _lock:
        _children.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        rc = None
    finally:
        with _lock:
            _children.discard(p)
    return rc, out.decode("utf8", "replace"), err.decode("utf8", "replace"), time.time() - t0


def srcs(lst):
    return [os.path.join(REPO, s) for s in lst]


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = "error"      # ok | fail | undecided
        self.why = ""
        self.obl = []              # (name, description, status, loc)
        self.failed = []
        self.reach_bad = []
        self.reach = 0
        self.trace = None
        self.secs = 0.0
        self.cmd = ""
        self.output = ""
        self.unwind_fail = False
        self.unknown = 0
        self.loops_left = 0
        self.solver = "minisat2 (CBMC SAT back end)"


def build_goto(u, wd, tag, defs, annotate):
    gb = os.path.join(wd, tag + ".gb")
    cmd = ["goto-cc", "-std=gnu11", "-D_GNU_SOURCE", "-o", gb, "--function", u["entry"]] + INCS + \
          ["-D" + d for d in u.get("defs", []) + defs]
    if annotate:
        cmd.append("-DEVFS_VERIFY")
    cmd += [os.path.join(VERIF, "harness", u["harness"])] + srcs(u.get("link", []))
    rc, o, e, _ = sh(cmd, 120, mem_gb=4)
    if rc != 0 or "CONVERSION ERROR" in o + e or not os.path.exists(gb):
        return None, " ".join(cmd), o + e
    repl = u.get("replace", {})
    if repl:
        rc, o, e, _ = sh(["goto-instrument", "--list-goto-functions", gb], 60)
        names = set(re.findall(r"^(\S+) /\*", o, re.M)) | set(re.findall(r"^(\S+)", o, re.M))
        args = []
        for k, v in repl.items():
            if k in names:
                args += ["--replace-calls", "%s:%s" % (k, v)]
        if args:
            g2 = os.path.join(wd, tag + "_r.gb")
            rc, o, e, _ = sh(["goto-instrument"] + args + [gb, g2], 120)
            if rc != 0:
                return None, "goto-instrument replace-calls", o + e
            gb = g2
    if annotate:
        g3 = os.path.join(wd, tag + "_l.gb")
        cmd2 = ["goto-instrument"] + ([] if u["loops"] == "plain" else ["--dfcc", u["entry"]])
        if u.get("enforce"):
            cmd2 += ["--enforce-contract", u["enforce"]]
        cmd2 += ["--apply-loop-contracts", gb, g3]
        rc, o, e, _ = sh(cmd2, 300)
        if rc != 0 or not os.path.exists(g3):
            return None, " ".join(cmd2), o + e
        gb = g3
    return gb, " ".join(cmd), ""


def run_cbmc(u, wd, tag="p", annotate=None, defs=(), unwind=None, timeout=None):
    r = Result(u)
    if annotate is None:
        annotate = bool(u.get("loops"))
    gb, cmd, err = build_goto(u, wd, tag, list(defs), annotate)
    if gb is None:
        r.status, r.why, r.output, r.cmd = "undecided", "harness does not build against this tree", err[-4000:], cmd
        return r
    cmd = ["cbmc", gb, "--json-ui", "--trace", "--slice-formula", "--drop-unused-functions"] + CBMC_CHECKS
    cmd += u.get("cbmc", [])
    if "--malloc-may-fail" not in cmd and not u.get("no_malloc_fail"):
        cmd += ["--malloc-may-fail", "--malloc-fail-null"]
    uw = unwind if unwind is not None else u.get("unwind")
    if uw:
        cmd += ["--unwind", str(uw), "--unwinding-assertions"]
    for k, v in (u.get("unwindset") or {}).items():
        cmd += ["--unwindset", "%s:%s" % (k, v)]
    if u.get("solver"):
        cmd.append("--" + u["solver"])
        r.solver = u["solver"]
    rc, o, e, secs = sh(cmd, timeout or u.get("timeout", 200), mem_gb=u.get("mem", 6))
    r.secs, r.cmd = secs, " ".join(cmd)
    if rc is None:
        r.status, r.why = "undecided", "verifier time limit"
        return r
    try:
        js = json.loads(o)
    except ValueError:
        r.status, r.why, r.output = "undecided", "verifier gave no parsable result", (o + e)[-3000:]
        return r
    seen = False
    for m in js:
        if "result" in m:
            seen = True
            for p in m["result"]:
                d, st = p.get("description", ""), p["status"]
                loc = p.get("sourceLocation", {})
                where = "%s:%s" % (os.path.relpath(loc.get("file", "?"), REPO) if loc.get("file", "").startswith(REPO)
                                   else os.path.basename(loc.get("file", "?")), loc.get("line", "?"))
                if d.startswith("REACH:"):
                    r.reach += 1
                    if st == "SUCCESS":
                        r.reach_bad.append(d)
                    continue
                r.obl.append((p["property"], d, st, where))
                if st not in ("SUCCESS", "FAILURE"):
                    r.unknown += 1
                if st == "FAILURE":
                    if "unwinding assertion" in d or ".unwind." in p["property"]:
                        r.unwind_fail = True
                    r.failed.append((p["property"], d, st, where))
                    if p.get("trace") and (r.trace is None or not d.startswith("unwinding")):
                        if r.trace is None or LOOP_CLASS.search(r.trace[0]):
                            r.trace = (p["property"], p["trace"])
    if not seen:
        msgs = [m.get("messageText", "") for m in js if m.get("messageType") == "ERROR"]
        r.status, r.why, r.output = "undecided", "verifier error", "\n".join(msgs)[-3000:] or (o + e)[-2000:]
        return r
    if not r.obl:
        r.status, r.why = "undecided", "no obligations generated"
    elif r.failed:
        r.status = "fail"
        nb = [f for f in r.failed if ".no-body." in f[0]]
        if nb:      # a call this framework has no contract for: nothing is decided
            r.status, r.why = "undecided", "; ".join(f[1] for f in nb[:3])
            return r
        r.why = "; ".join("%s [%s] at %s" % (d, n, w) for n, d, s, w in r.failed[:6])
    elif r.unknown:
        r.status, r.why = "undecided", "%d obligations without an answer" % r.unknown
    elif r.reach_bad:
        r.status, r.why = "undecided", "vacuous: unreachable " + ", ".join(r.reach_bad[:4])
    else:
        r.status = "ok"
    return r


def trace_inputs(trace):
    out = []
    for s in trace:
        if s.get("stepType") == "input":
            for v in s.get("values", []):
                x = v.get("data", v.get("name"))
                if isinstance(x, str):
                    x = x.strip()
                    if x in ("TRUE", "true"):
                        x = "1"
                    if x in ("FALSE", "false"):
                        x = "0"
                    m = re.match(r"^(-?\d+)", x)
                    if m and "binary" in v and len(v["binary"]) <= 64:
                        val = int(m.group(1))
                        out.append((s.get("inputID", "?"), val))
                    elif "binary" in v and re.match(r"^[01]+$", v["binary"]):
                        out.append((s.get("inputID", "?"), int(v["binary"], 2)))
    return out


NATIVE_FLAGS = ["-std=gnu11", "-g", "-O1", "-DVK_NATIVE", "-fsanitize=address,undefined",
                "-fno-sanitize=alignment", "-fno-sanitize-recover=signed-integer-overflow,bounds,null,shift,integer-divide-by-zero,object-size",
                "-w", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE"]


def build_native(u, wd, defs=()):
    exe = os.path.join(wd, "native_" + u["id"].replace(".", "_"))
    if os.path.exists(exe):
        return exe, ""
    cmd = ["gcc"] + NATIVE_FLAGS + INCS + ["-DVK_ENTRY=" + u["entry"]] + \
          ["-D" + d for d in u.get("defs", []) + u.get("native_defs", []) + list(defs)] + \
          [os.path.join(VERIF, "harness", u["harness"]), os.path.join(HERE, "vk_native.c")] + \
          srcs(u.get("native_link", u.get("link", []))) + ["-o", exe + ".tmp", "-lpthread"]
    rc, o, e, _ = sh(cmd, 120, mem_gb=0)
    if rc != 0:
        return None, " ".join(cmd) + "\n" + (o + e)[-3000:]
    os.rename(exe + ".tmp", exe)
    return exe, ""


def nrun(cmd, timeout, wd):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=47",
               UBSAN_OPTIONS="print_stacktrace=0")
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(1, timeout), cwd=wd, env=env,
                           preexec_fn=os.setsid)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), time.time() - t0
    except subprocess.TimeoutExpired as ex:
        return None, (ex.stdout or b"").decode("utf8", "replace"), (ex.stderr or b"").decode("utf8", "replace"), time.time() - t0


def native_verdict(rc, out, err):
    """None if fine, else a message"""
    if rc == 10:
        m = re.search(r"VK-FAIL: (.*)", out)
        return "contract clause violated on the real code: " + (m.group(1) if m else "?")
    if rc == 77 or "ERROR: AddressSanitizer" in err or "runtime error:" in err and rc not in (0, None):
        m = re.search(r"(ERROR: AddressSanitizer:[^\n]*|runtime error:[^\n]*)", err)
        fr = re.findall(r"#\d+ \S+ in (\S+) (\S+)", err)[:4]
        return "memory/arithmetic error on the real code: %s %s" % (m.group(1) if m else "", " < ".join(f[0] for f in fr))
    if rc is not None and rc < 0:
        return "real code crashed with signal %d" % -rc
    return None


def replay_inputs(u, wd, inputs):
    exe, err = build_native(u, wd)
    if not exe:
        return None, err
    fn = os.path.join(wd, u["id"] + ".in")
    with open(fn, "w") as f:
        for n, v in inputs:
            f.write("%s %d\n" % (n, v))
    rc, o, e, _ = nrun([exe, "replay", fn], 20, wd)
    v = native_verdict(rc, o, e)
    if rc is None:
        v = "real code does not terminate on this input (20 s)"
    return v, o[-1500:] + e[-2500:]


def native_search(u, wd, secs, seed):
    exe, err = build_native(u, wd)
    if not exe:
        return None, None, err
    st = os.path.join(wd, u["id"] + ".state")
    rc, o, e, _ = nrun([exe, "search", str(seed), str(secs), str(u.get("search_iters", 10**9)), st], secs + 15, wd)
    v = native_verdict(rc, o, e)
    if rc is None:
        v = "real code does not terminate on this input"
    if v is None:
        return None, None, o[-300:]
    cur = int.from_bytes(open(st, "rb").read(8), "little")
    dump = os.path.join(wd, u["id"] + ".dump")
    rc2, o2, e2, _ = nrun([exe, "one", str(cur), dump], 20, wd)
    v2 = native_verdict(rc2, o2, e2)
    if rc2 is None:
        v2 = v
    if v2 is None:
        return None, None, "search failure did not reproduce: " + v
    ins = []
    for line in open(dump):
        p = line.split()
        if len(p) == 2:
            ins.append((p[0], int(p[1])))
    return v2, {"seed": cur, "inputs": ins}, o2[-1500:] + e2[-2500:]


def write_replay(prop, u, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, "%s-%s.json" % (prop, u["id"]))
    with open(fn, "w") as f:
        json.dump(data, f, indent=1)
    return fn


def triage(prop, r, wd, log):
    """A proof unit did not go through.  Find out whether the real code breaks the contract."""
    u = r.unit
    base = {"property": prop, "unit": u["id"], "entry": u["entry"], "harness": "harness/" + u["harness"],
            "functions": u["fn"], "failed_obligations": [list(f) for f in r.failed][:40], "verifier_cmd": r.cmd,
            "why": r.why, "rerun": "python3 vk/run.py replay <this file>"}
    # 1. verifier's counterexample
    tried = []
    # (callees replaced by contracts exist only for the verifier, so such inputs are not replayable)
    if r.trace and not u.get("replace"):
        ins = trace_inputs(r.trace[1])
        v, out = replay_inputs(u, wd, ins)
        tried.append("counterexample of %s: %s" % (r.trace[0], v or "does not fail natively"))
        if v:
            return "violation", dict(base, inputs=ins, verdict=v, native_output=out, source="verifier counterexample")
    # 2. seeded search with the same contract as the oracle, on the real callees
    fams = [u] + [x for x in UNITS if x["id"] in u.get("search", [])]
    for x in fams:
        if x.get("no_search"):
            continue
        secs = x.get("search_secs", 10)
        if DEADLINE - time.time() < secs + 30:
            break
        v, rep, out = native_search(x, wd, secs, SEED)
        tried.append("seeded search %s: %s" % (x["id"], v or "no failure"))
        if v:
            return "violation", dict(base, unit=x["id"], entry=x["entry"], harness="harness/" + x["harness"],
                                     inputs=rep["inputs"], seed=rep["seed"], verdict=v, native_output=out,
                                     source="seeded search against the same contract")
    # 3. bounded fallback of the same contract, loops unrolled, callees real
    bounded_ok = []
    for fb in u.get("fallback", []):
        x = next(y for y in UNITS if y["id"] == fb)
        rb = run_cbmc(x, wd, tag="fb_" + fb.replace(".", "_"))
        tried.append("bounded %s: %s" % (fb, rb.status))
        if rb.status == "fail" and rb.trace:
            ins = trace_inputs(rb.trace[1])
            v, out = replay_inputs(x, wd, ins)
            if v:
                return "violation", dict(base, unit=x["id"], entry=x["entry"], harness="harness/" + x["harness"],
                                         inputs=ins, verdict=v, native_output=out, source="bounded fallback counterexample")
        if rb.status == "ok":
            bounded_ok.append(fb)
    base["tried"] = tried
    if r.status == "undecided":
        return "undecided", dict(base, bounded_ok=bounded_ok)
    real = [f for f in r.failed if not LOOP_CLASS.search(f[0]) and not LOOP_CLASS.search(f[1])
            and "unwinding" not in f[1]]
    if not real:
        return "undecided", dict(base, bounded_ok=bounded_ok)
    if r.unwind_fail:
        return "undecided", dict(base, bounded_ok=bounded_ok)
    # this unit's contracts follow the call structure of the function; the same contract holds over the
    # real callees, so a failure here may only mean that the structure changed
    if u.get("soft") and u.get("fallback") and len(bounded_ok) == len(u["fallback"]):
        return "undecided", dict(base, bounded_ok=bounded_ok)
    return "unproved", base


def tool_versions():
    rc, o, e, _ = sh(["cbmc", "--version"], 20)
    return "CBMC " + o.strip()


def check(prop):
    t0 = time.time()
    P = PROPS[prop]
    rts = [u for u in UNITS if prop in u["prop"] and u.get("kind") == "rt"]
    units = [u for u in UNITS if prop in u["prop"] and not u.get("search_only") and u.get("kind") != "rt"
             and not u.get("fallback_only") and (TIER == "thorough" or not u.get("thorough_only"))]
    wd = tempfile.mkdtemp(prefix="vk_%s_" % prop)
    known = load_known()
    viol, lines, results, notes = [], [], [], []
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(one_unit, u, wd) for u in sorted(units, key=lambda u: -u.get("timeout", 200))]
            rfut = [ex.submit(rt_unit, u, wd) for u in rts]
            results = [f.result() for f in futs]
            rtres = [f.result() for f in rfut]
        for u, v, rep, out, n in rtres:
            if v:
                data = {"property": prop, "unit": u["id"], "entry": u["entry"], "harness": "harness/" + u["harness"],
                        "functions": u["fn"], "inputs": rep["inputs"], "seed": rep["seed"], "verdict": v,
                        "native_output": out, "source": "contract evaluated on the real code",
                        "rerun": "python3 vk/run.py replay <this file>"}
                k = match_known(known, prop, data)
                if k:
                    lines.append("KNOWN-FINDING: property=%s %s" % (prop, k))
                    continue
                viol.append((write_replay(prop, u, data), "", v))
                print("unit %s: %s" % (u["id"], v))
            elif n is None:
                notes.append({"unit": u["id"], "undecided": "runtime contract evaluation did not run", "output": out[-1200:]})
                print("unit %s: runtime contract evaluation did not run: %s" % (u["id"], out[-600:]))
        for r in results:
            if r.status == "ok":
                continue
            kind, data = triage(prop, r, wd, notes)
            if kind == "violation":
                k = match_known(known, prop, data)
                if k:
                    lines.append("KNOWN-FINDING: property=%s %s" % (prop, k))
                    continue
                fn = write_replay(prop, r.unit, data)
                viol.append((fn, "", data["verdict"]))
                print("unit %s: %s" % (r.unit["id"], data["verdict"]))
                print("  obligation: %s" % r.why[:600])
            elif kind == "unproved":
                fn = write_replay(prop, r.unit, data)
                viol.append((fn, " no-failing-input-found", r.why))
                print("unit %s: obligation no longer discharged: %s" % (r.unit["id"], r.why[:600]))
            else:
                notes.append({"unit": r.unit["id"], "undecided": r.why, "tried": data.get("tried"),
                              "bounded_ok": data.get("bounded_ok"), "output": r.output[-1200:]})
                print("unit %s: undecided on this tree (%s); %s" % (r.unit["id"], r.why[:300], data.get("tried")))
        for ln in lines:
            print(ln)
        write_evidence(prop, P, units, results, notes, viol, time.time() - t0, rtres)
        if viol:
            viol.sort(key=lambda v: v[1])   # replayed ones first
            for fn, sfx, _ in viol[:1] + [v for v in viol[1:] if not v[1]]:
                print("VIOLATION property=%s replay=%s%s" % (prop, fn, sfx))
            return 1
        n = sum(len(r.obl) for r in results if r.status == "ok")
        print("%s: held; %d obligations in %d units, %.1fs" % (prop, n, len(results), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def rt_unit(u, wd):
    """evaluate a contract on the real code for seeded inputs; never counted as proved"""
    w = os.path.join(wd, "rt_" + u["id"].replace(".", "_"))
    os.makedirs(w, exist_ok=True)
    secs = u.get("search_secs", 4) * (6 if TIER == "thorough" else 1)
    v, rep, out = native_search(u, w, secs, SEED)
    if v:
        return u, v, rep, out, 0
    m = re.search(r"iterations=(\d+) accepted=(\d+)", out or "")
    return u, None, None, out or "", int(m.group(2)) if m else None


def one_unit(u, wd):
    w = os.path.join(wd, u["id"].replace(".", "_"))
    os.makedirs(w, exist_ok=True)
    try:
        return run_cbmc(u, w, timeout=(u.get("timeout", 200) * (4 if TIER == "thorough" else 1)))
    except Exception as ex:  # never an error exit because of one unit
        r = Result(u)
        r.status, r.why = "undecided", "driver: %r" % ex
        return r


def load_known():
    fn = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(fn):
        for ln in open(fn):
            m = re.match(r"known: property=(\S+) unit=(\S+) clause=\"([^\"]*)\" (.*)", ln.strip())
            if m:
                out.append(m.groups())
    return out


def match_known(known, prop, data):
    for p, unit, clause, text in known:
        if p == prop and unit == data["unit"] and clause in data["verdict"]:
            return text
    return None


def write_evidence(prop, P, units, results, notes, viol, wall, rtres):
    ok = [r for r in results if r.status == "ok"]
    pr = [r for r in ok if r.unit.get("kind", "proof") == "proof"]
    bd = [r for r in ok if r.unit.get("kind") == "bounded"]
    allr = [r for r in results if r.unit.get("kind", "proof") == "proof"]
    obl = sum(len(r.obl) for r in allr)
    dis = sum(1 for r in allr if r.status in ("ok", "fail") for o in r.obl if o[2] == "SUCCESS")
    contract = sorted({f for r in pr for f in r.unit["fn"]})
    named = [{"unit": r.unit["id"], "obligation": d, "where": w, "status": s}
             for r in results for n, d, s, w in r.obl
             if s != "SUCCESS" or w.split(":")[0].endswith(".c") and not w.startswith("src") and "dereference" not in d][:60]
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "goto-cc + goto-instrument (--dfcc <harness> --apply-loop-contracts where loops are annotated) + cbmc "
                       + " ".join(CBMC_CHECKS) + "; re-run one unit: python3 vk/run.py unit <id> -v",
        "trusted_base": P.get("trusted", []) + sorted({t for u in units for t in u.get("assumes", [])}) + [
            tool_versions() + " (symbolic execution, memory model, SAT encoding), gcc for native replay"],
        "functions_under_contract": contract,
        "bounded_stand_ins": [{"unit": r.unit["id"], "functions": r.unit["fn"], "bound": r.unit.get("bound", ""),
                               "obligations": len(r.obl), "secs": round(r.secs, 2)} for r in bd],
        "units": [{"unit": r.unit["id"], "functions": r.unit["fn"], "kind": r.unit.get("kind", "proof"),
                   "status": r.status, "why": r.why[:300], "obligations": len(r.obl), "vacuity_guards_reached": r.reach,
                   "back_end": r.solver, "secs": round(r.secs, 2)} for r in results],
        "runtime_contract_evaluation": [{"unit": u["id"], "functions": u["fn"], "cases": n or 0, "failed": bool(v)}
                                        for u, v, rep, out, n in rtres],
        "solver_seconds": round(sum(r.secs for r in results), 2),
        "samples": named[:25],
        "undecided": notes,
    }
    lvl = P["level"]
    if lvl != "proof":
        cov["explanation"] = P.get("explanation", "")
        cov["evaluations"] = sum(len(r.obl) for r in results)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": lvl, "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        for t in ("goto-cc", "goto-instrument", "cbmc", "gcc"):
            if not shutil.which(t):
                print("missing tool", t)
                return 1
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        return 0
    if a[0] == "list":
        for u in UNITS:
            print(u["id"], u["prop"], u.get("kind", "proof"), u["fn"])
        return 0
    if a[0] == "check":
        return check(a[1])
    if a[0] == "unit":
        bad = 0
        for u in [u for u in UNITS if re.fullmatch(a[1], u["id"])]:
            wd = tempfile.mkdtemp(prefix="vku_")
            try:
                if u.get("kind") == "rt":
                    v, rep, out = native_search(u, wd, u.get("search_secs", 4), SEED)
                    print("%-28s %s\n%s" % (u["id"], v or ("ok" if "iterations=" in (out or "") else "DID NOT RUN"), out))
                    if v and "-v" in a:
                        print(rep)
                    bad |= bool(v)
                    continue
                r = run_cbmc(u, wd)
                print("%-28s %-9s obl=%d reach=%d %.1fs %s" % (u["id"], r.status, len(r.obl), r.reach, r.secs, r.why[:900]))
                if r.output:
                    print(r.output)
                if "-v" in a:
                    for o in r.obl:
                        print("   ", o)
                    print(r.cmd)
                if "-t" in a and r.trace:
                    print("TRACE of", r.trace[0])
                    for s in r.trace[1]:
                        if s.get("hidden"):
                            continue
                        if s.get("stepType") in ("assignment", "input"):
                            v = s.get("value", {}) or {}
                            l = s.get("sourceLocation", {})
                            print("   ", os.path.basename(l.get("file", "?")), l.get("line"), s.get("lhs", s.get("inputID")),
                                  v.get("data", v.get("name", s.get("values"))))
                if r.status != "ok":
                    bad = 1
                    if "-n" in a:
                        print(triage("?", r, wd, []))
                if "-s" in a:
                    print(native_search(u, wd, 10, SEED))
            finally:
                shutil.rmtree(wd, ignore_errors=True)
        return bad
    if a[0] == "replay":
        d = json.load(open(a[1]))
        u = next(x for x in UNITS if x["id"] == d["unit"])
        if "inputs" not in d:
            print("no failing input recorded; failed obligations:")
            for o in d.get("failed_obligations", []):
                print("  ", o)
            return 1
        wd = tempfile.mkdtemp(prefix="vkr_")
        try:
            if "seed" in d:
                exe, err = build_native(u, wd)
                rc, o, e, _ = nrun([exe, "one", str(d["seed"]), os.path.join(wd, "d")], 20, wd)
                v = native_verdict(rc, o, e)
            else:
                v, o = replay_inputs(u, wd, d["inputs"])
            print(v or "does not fail")
            return 1 if v else 0
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    return 2


if __name__ == "__main__":
    sys.exit(main())
