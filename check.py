#!/usr/bin/env python3
"""check.py PROPERTY   (tier from VERIF_TIER, seed from VERIF_SEED)

Extracts /repo/src mechanically into a Verus crate with the contracts of /verif/contracts, has Verus discharge every
obligation of the property's slice, and searches the real code for a failing input (bounded; used to attach a concrete
input to a failed obligation, and as a stand-in for functions the verifier cannot take).
Exit 0: held.  Exit 1 + "VIOLATION property=..": broken."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from slices import PROPS, ALL_MODULES, LEVEL

T0 = time.time()
BUDGET = 860.0
def left(): return BUDGET - (time.time() - T0)

FAILS = [  # messages of the verifier that mean: an obligation was generated and not discharged
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "decreases not satisfied",
    "could not prove termination", "possible arithmetic", "assertion failed", "assertion not", "loop must have a decreases clause",
    "recursive function must have a decreases", "possible division by zero", "resource limit", "requires not satisfied",
    "unable to prove", "while loop: not all errors", "possible bit shift", "cannot prove", "index out of bounds", "recommendation not met",
    "failed this", "function body check", "loop invariant", "constructed value may fail", "possible truncation", "fails to satisfy",
]
def is_fail(msg):
    m = msg.lower()
    return any(f in m for f in FAILS)

class Verifier:
    def __init__(self, prop, cfg, work, tier):
        self.prop, self.cfg, self.work, self.tier = prop, cfg, work, tier
        self.external = list(cfg.get("external", []))
        self.log = []
        self.inline = True
        self.env = dict(os.environ, RUST_MIN_STACK="800000000")

    def extract(self, out):
        os.makedirs(out, exist_ok=True)
        cmd = [VERIF + "/vx/target/debug/vx", "--src", REPO + "/src", "--contracts", VERIF + "/contracts",
               "--tags", ",".join(self.cfg["tags"]) or "none", "--out", out]
        if not self.inline:
            cmd += ["--no-inline", "1"]
        if self.external:
            cmd += ["--external", ",".join(self.external)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r

    def verus(self, out, extra, threads, timeout):
        cmd = ["verus", "--edition=2021", "--crate-type=lib", "lib.rs", "--num-threads", str(threads), "--output-json", "--time-expanded",
               "--multiple-errors", "3"] + extra
        shell = "ulimit -s unlimited; exec " + " ".join(cmd)
        try:
            r = subprocess.run(["timeout", "-k", "5", str(int(max(5, timeout))), "bash", "-c", shell], cwd=out, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=self.env)
        except Exception as e:  # pragma: no cover
            return None, str(e), 99, cmd
        try:
            js = json.loads(r.stdout)
        except Exception:
            js = None
        return js, r.stderr, r.returncode, cmd

def blocks(text):
    return [b for b in re.split(r"\n(?=error|warning|note: )", "\n" + text) if b.strip().startswith("error")]

def fn_of(out, file, line, report):
    """the generated function around file:line"""
    try:
        L = open(os.path.join(out, file)).read().split("\n")
    except OSError:
        return None
    for i in range(min(line, len(L)) - 1, -1, -1):
        m = re.search(r"\bfn (\w+)\s*[<(]", L[i])
        if m and not L[i].strip().startswith("//"):
            t = None
            for j in range(i, -1, -1):
                k = re.match(r"\s*(?:pub )?(?:unsafe )?impl\b(.*)", L[j])
                if k and not L[j].startswith("    "):
                    t = k.group(1)
                    break
                if re.match(r"^(pub )?(fn|mod) ", L[j]) and j != i:
                    break
            return {"file": file, "line": i + 1, "name": m.group(1), "impl": t, "indented": L[i].startswith("    ")}
    return None

def describe(block, out, report):
    head = block.strip().split("\n")[0]
    locs = [(f, int(l)) for f, l in re.findall(r"(?:-->|:::) (\S+?):(\d+)", block)]
    own = [x for x in locs if not x[0].startswith("vx") and "/" not in x[0]] or [x for x in locs if "/" not in x[0]]
    fn = fn_of(out, own[0][0], own[0][1], report) if own else None
    return head, fn

def bare(t):
    t = re.sub(r"'\w+\s*,?", "", t)
    return re.sub(r"\s+", "", t).replace("<>", "")

def impl_key(line):
    """`impl<'a, T: X> Trait for Type<'a>` as it appears in an id: Trait[Type] or Type"""
    m = re.match(r"\s*(?:unsafe\s+)?impl\s*", line)
    if not m:
        return None
    t = line[m.end():].split(" where ")[0].rstrip(" {")
    if t.startswith("<"):
        d = 0
        for k, ch in enumerate(t):
            d += (ch == "<") - (ch == ">")
            if d == 0:
                t = t[k + 1:]
                break
    a, _, b = t.partition(" for ")
    return "%s[%s]" % (bare(a), bare(b)) if b else bare(a)

def impl_of(i):
    parts = i.split("::", 1)[1]
    return re.sub(r"\s+", "", parts.rsplit("::", 1)[0]) if "::" in parts else ""

def smt_functions(js):
    res = []
    def walk(o):
        if isinstance(o, dict):
            if "function" in o and "success" in o:
                res.append(o)
            for v in o.values():
                walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)
    walk((js or {}).get("times-ms", {}))
    return res

def report_id(report, module, fname, near=None):
    """extraction ids whose generated name matches"""
    c = [f["id"] for f in report["functions"] if f.get("module") == module and f.get("name") == fname]
    return c

def build(cmd, log):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log.append((cmd, r.returncode, r.stdout[-3000:]))
    return r.returncode

def build_vx():
    if not os.path.exists(VERIF + "/vx/target/debug/vx"):
        return build("cd %s/vx && CARGO_NET_OFFLINE=true cargo build --offline -q" % VERIF, LOG)
    # cheap when fresh
    return build("cd %s/vx && CARGO_NET_OFFLINE=true cargo build --offline -q" % VERIF, LOG)

LOG = []
HARNESS = VERIF + "/target/harness/debug/harness"

class Search(threading.Thread):
    """bounded search over the real code, running beside the verifier"""
    def __init__(self, prop, seed, secs, out):
        super().__init__(daemon=True)
        self.prop, self.seed, self.secs, self.out = prop, seed, secs, out
        self.built = threading.Event()
        self.rc = None; self.text = ""; self.ok = False; self.cases = 0
    def run(self):
        self.ok = build(VERIF + "/harness/build.sh", LOG) == 0
        self.built.set()
        if self.ok and self.secs > 0:
            self.rc, self.text = run_search(self.prop, self.seed, self.secs, self.out)
            m = re.search(r"cases=(\d+)", self.text)
            self.cases = int(m.group(1)) if m else 0

def run_search(prop, seed, secs, out):
    try:
        r = subprocess.run(["nice", "-n", "5", HARNESS, prop, "--seed", str(seed), "--secs", str(secs), "--out", out],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=secs + 60)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 2, "the search did not end"

def known_findings():
    res = []
    p = VERIF + "/KNOWN_FINDINGS"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                res.append(l[len("finding:"):].strip())
    return res

def scan_trusted(out, report, mods):
    """mechanical list of everything assumed in the generated crate"""
    tb = []
    for f in sorted(os.listdir(out)):
        if not f.endswith(".rs"):
            continue
        L = open(os.path.join(out, f)).read().split("\n")
        for i, l in enumerate(L):
            if "assume_specification" in l:
                m = re.search(r"\[\s*(.+?)\s*\]\s*\(", l)
                tb.append("assumed specification: " + re.sub(r"\s+", "", m.group(1) if m else l.strip())[:90])
            elif "verifier::external_body" in l or "verifier(external_body)" in l:
                for j in range(i, min(i + 3, len(L))):
                    m = re.search(r"\b(fn|struct) (\w+)", L[j])
                    if m:
                        break
                if m and "unimplemented!()" in L[j]:
                    continue  # R23: body verified as the inherent method vx_*
                tb.append("%s: external body: %s (contract assumed)" % (f, m.group(2) if m else "?"))
            elif re.search(r"\bassume\(|\badmit\(", l):
                tb.append("%s:%d: %s" % (f, i + 1, l.strip()[:80]))
    seen = {}
    for t in tb:
        seen[t] = seen.get(t, 0) + 1
    return [k if v == 1 else "%s (x%d)" % (k, v) for k, v in seen.items()]

def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix="vx-%s-" % prop)
    os.makedirs(VERIF + "/out", exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    replay = "%s/out/%s-replay.txt" % (VERIF, prop)
    found = "%s/found.txt" % work
    try:
        return run(prop, cfg, tier, seed, work, replay, found)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run(prop, cfg, tier, seed, work, replay, found):
    secs = cfg.get("secs", 8) * (6 if tier == "thorough" else 1)
    search = Search(prop, seed, secs, found)
    search.start()
    v = Verifier(prop, cfg, work, tier)
    rc = build_vx()
    modules = cfg["modules"]
    modargs = [] if modules == "all" else sum([["--verify-module", m] for m in modules], [])
    rl = cfg.get("rlimit", 30) * (3 if tier == "thorough" else 1)
    base = ["--rlimit", str(rl)] + modargs
    failures, unsupported, notes = [], [], []
    js = None; err = ""; cmd = []
    out = work + "/x"
    report = {"functions": [], "rewrites": {}, "unsupported": [], "contracts_without_function": []}
    verifier_ran = False
    def verify_round():
        """extraction and verification; functions the verifier cannot take are moved out of its reach, with a note"""
        failures, unsupported, notes = [], [], []
        js = None; err = ""; cmd = []; verifier_ran = False
        report = {"functions": [], "rewrites": {}, "unsupported": [], "contracts_without_function": []}
        for attempt in range(8):
            shutil.rmtree(out, ignore_errors=True)
            r = v.extract(out)
            if r.returncode != 0:
                notes.append("extraction failed: " + r.stdout[-600:])
                break
            report = json.load(open(out + "/report.json"))
            js, err, vrc, cmd = v.verus(out, base, 8, min(left() - 90, 700))
            bl = blocks(err)
            bad = []
            for b in bl:
                head, fn = describe(b, out, report)
                if head.startswith("error: aborting") or head.startswith("error: could not compile"):
                    continue
                if not is_fail(head):
                    bad.append((head, fn, b))
            vr = (js or {}).get("verification-results", {})
            vir = "verified" not in vr or (vr.get("encountered-error") and not vr.get("verified") and not vr.get("errors"))
            if not vir:
                verifier_ran = True
                break
            if js is None and not bl:
                notes.append("the verifier gave no answer (exit %s): %s" % (vrc, err[-400:]))
                break
            # the verifier could not take something: move the functions concerned out of its reach and say so
            new = []
            for b in bl:
                head, fn = describe(b, out, report)
                if not fn or head.startswith("error: aborting"):
                    continue
                mod = fn["file"][:-3]
                ids = [f["id"] for f in report["functions"] if f.get("module") == mod and f.get("name") == fn["name"] and f["status"] == "verified"]
                if len(ids) > 1 and fn.get("impl"):
                    k = impl_key("impl" + fn["impl"])
                    t = [i for i in ids if impl_of(i) == k]
                    ids = t or [i for i in ids if "[" in i] or ids
                if is_fail(head):
                    # an obligation the verifier settles before it calls the solver (a loop without a measure, ...)
                    failures.append((head, fn, b))
                for i in ids:
                    if i not in v.external and i not in new:
                        new.append(i)
                        unsupported.append((i, head))
            if not new:
                notes.append("the verifier rejects the extracted text outside any function: " + "; ".join(b.strip().split("\n")[0] for b in bl[:4]) + "\n" + err[-1500:])
                break
            v.external += new
            if left() < 150:
                notes.append("no time left for another verification round")
                break
        return dict(failures=failures, unsupported=unsupported, notes=notes, js=js, err=err, cmd=cmd, ran=verifier_ran, report=report, external=list(v.external))
    R = None
    if rc != 0:
        notes.append("the extractor did not build: " + LOG[-1][2][-500:])
    else:
        R = verify_round()
        bad = lambda R: not R["ran"] or R["failures"] or R["unsupported"] or any(not f["success"] for f in smt_functions(R["js"]))
        if bad(R) and R["report"].get("inlined") and left() > 250:
            # new helpers were inlined: take them as functions of their own, under the contract of their kind
            v.inline, v.external = False, list(cfg.get("external", []))
            R2 = verify_round()
            if not bad(R2):
                R = R2
                notes.append("new helpers verified as functions under the contract of their kind")
            else:
                v.inline = True
                shutil.rmtree(out, ignore_errors=True)
                v.external = R["external"]
                v.extract(out)
        if R["report"].get("inlined") and v.inline:
            notes.append("new helpers verified inlined: " + ", ".join(R["report"]["inlined"]))
        failures, unsupported, js, err, cmd, verifier_ran, report = (R[k] for k in ("failures", "unsupported", "js", "err", "cmd", "ran", "report"))
        notes += R["notes"]
    # ---- failed obligations of this round
    if verifier_ran:
        retry = {}
        for b in blocks(err):
            head, fn = describe(b, out, report)
            if head.startswith("error: aborting"):
                continue
            failures.append((head, fn, b))
        fns = smt_functions(js)
        failed_fns = sorted({f["function"] for f in fns if not f["success"]})
        # second opinion with more resources and another seed, one process per function
        have_input = search.rc in (1, 2) and os.path.exists(found)
        if failed_fns and len(failed_fns) <= 8 and not have_input:
            def again(full):
                parts = full.split("::")
                # lib::module::[Type::]fn   (functions of lib.rs: lib::fn)
                mod = parts[1] if len(parts) > 2 and parts[1] in ALL_MODULES else None
                name = "::".join(parts[2:] if mod else parts[1:])
                name = re.sub(r"impl&%\d+", "*", name)
                ex = ["--rlimit", str(rl * 4), "--smt-option", "smt.random_seed=%d" % 7]
                ex += (["--verify-only-module", mod] if mod else ["--verify-root"]) + ["--verify-function", "'" + name + "'"]
                j2, e2, c2, _ = v.verus(out, ex, 1, min(240, left() - 100))
                ok = j2 is not None and j2.get("verification-results", {}).get("success") is True and j2["verification-results"].get("verified", 0) > 0
                return full, ok
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                res = list(ex.map(again, failed_fns))
            healed = {f.split("::")[-1] for f, ok in res if ok}
            still = {f.split("::")[-1] for f, ok in res if not ok}
            if healed:
                notes.append("discharged on a second attempt with a larger resource limit: " + ", ".join(sorted(healed)))
                failures = [x for x in failures if not (x[1] and x[1]["name"] in healed - still)]
                if all(ok for _, ok in res):
                    failures = [x for x in failures if x[1] and x[1]["name"] not in healed]
        obligations = len(fns)
        discharged = len(fns) - len({f["function"] for f in fns if not f["success"]})
        if not failures:
            discharged = obligations
    else:
        fns, obligations, discharged = [], 0, 0
    # ---- decide
    search.join(timeout=max(1, min(secs + 120, left() - 10)))
    violation = None
    concrete = search.rc in (1, 2) and os.path.exists(found)
    if search.rc == 2 and prop != "P02" and not os.path.exists(found):
        notes.append("one case of the search did not end")
    bounded = bool(unsupported) or not verifier_ran
    if not concrete and (failures or bounded) and search.ok:
        extra = min(60 if failures else 45, left() - 20)
        if extra > 3:
            rc2, text2 = run_search(prop, seed + 1000, int(extra), found)
            m = re.search(r"cases=(\d+)", text2)
            search.cases += int(m.group(1)) if m else 0
            if rc2 in (1, 2):
                search.rc, search.text = rc2, text2
            concrete = rc2 in (1, 2) and os.path.exists(found)
    if not search.ok:
        notes.append("the harness did not build: " + next((l[2][-800:] for l in LOG if "harness" in l[0]), ""))
        try: concrete = False
        except Exception: pass
    known = [k for k in known_findings() if k.startswith("property=%s " % prop)]
    for k in known:
        if prop == "P01" and "nesting" in k and search.ok:
            d = subprocess.run([HARNESS, prop, "--deep"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            notes.append("known finding (deep nesting) replayed on the real code: exit %s" % d.returncode)
            if d.returncode == 0:
                continue
        print("KNOWN-FINDING: " + k)
    if failures or concrete:
        with open(replay, "w") as f:
            if concrete:
                f.write(open(found, errors="replace").read())
                f.write("\n# replay: /verif/target/harness/debug/harness %s --replay THIS_FILE  (build: /verif/harness/build.sh)\n" % prop)
            if failures:
                f.write("\n# failed obligations (verifier output)\n")
                for head, fn, b in failures:
                    f.write("# %s in %s\n" % (head, "%s::%s" % (fn["file"], fn["name"]) if fn else "?"))
                for head, fn, b in failures[:12]:
                    f.write("\n" + "\n".join("# " + l for l in b.strip().split("\n")) + "\n")
            f.write("\n# verifier command (in the extracted crate): %s\n" % " ".join(cmd))
        for head, fn, b in failures[:8]:
            print("failed obligation: %s in %s" % (head.replace("error: ", ""), "%s::%s" % (fn["file"][:-3], fn["name"]) if fn else "?"))
        if concrete:
            for l in open(found, errors="replace").read().split("\n")[:12]:
                print("  " + l[:300])
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if concrete else " no-failing-input-found"))
        violation = 1
    # ---- evidence
    under = [f for f in report["functions"] if (modules == "all" or f.get("module") in modules)]
    verified_fns = sorted(f["id"] for f in under if f["status"] == "verified" and f["id"] not in v.external)
    trusted_fns = sorted(f["id"] for f in under if f["status"] == "trusted")
    tb = scan_trusted(out, report, modules) if os.path.isdir(out) else []
    slow = sorted(fns, key=lambda f: -f.get("time-micros", 0))[:8]
    smt_ms = sum(f.get("time-micros", 0) for f in fns) / 1000.0
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": " ".join(cmd) if cmd else "verus (did not run)",
        "trusted_base": ["Verus 0.2026.09.13 and Z3 (the verifier itself)", "the extractor vx (its rewrites are listed under extraction)"] + tb,
        "back_end": "Verus, Z3", "solver_ms": round(smt_ms), "tags": cfg["tags"],
        "modules_verified": modules if modules != "all" else ALL_MODULES,
        "functions_under_contract": verified_fns, "functions_with_own_contract": [f["id"] for f in under if f.get("specific") and f["status"] == "verified"],
        "functions_trusted": trusted_fns,
        "functions_bounded_only": [{"function": i, "reason": h} for i, h in unsupported],
        "key_functions": cfg.get("key", []),
        "slowest": [{"function": f["function"], "ms": f.get("time-micros", 0) // 1000} for f in slow],
        "extraction": {"rewrites": report.get("rewrites", {}), "not_extracted": report.get("unsupported", []), "contracts_without_function": report.get("contracts_without_function", [])},
        "bounded_search": {"label": "bounded; not counted as proved", "cases": search.cases, "seconds": secs, "seed": seed, "result": "none found" if not concrete else "input found"},
        "failed_obligations": ["%s in %s" % (h, fn["name"] if fn else "?") for h, fn, _ in failures],
        "notes": notes,
    }
    level = LEVEL.get(prop, "proof")
    if not verifier_ran:
        cov["explanation"] = "the verifier could not take this source; only the bounded search over the real code decided this run"
        level = "other"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - T0, 1), "violations": 1 if violation else 0}
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1)
    for n in notes:
        print("note: " + n[:600])
    print("%s: %d/%d obligations discharged over %d functions, %d inputs tried, %.0f s" % (prop, discharged, obligations, len(verified_fns), search.cases, time.time() - T0))
    if unsupported:
        print("bounded only (outside the verifier's reach): " + ", ".join(i for i, _ in unsupported))
    return 1 if violation else 0

if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except Exception as e:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
