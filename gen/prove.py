"""Runs Verus on the extracted crate and says which obligation of which function failed."""
import os, re, json, subprocess, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
import extract, specgen, lemmas
from rsast import VERIF, Unsupported

VERUS = os.environ.get("VERUS", "verus")
SPECS = None
def specs():
    global SPECS
    if SPECS is None: SPECS = specgen.generate()
    return dict(SPECS)

class Failure:
    """one obligation the verifier did not accept"""
    def __init__(self, config, fn, label, kind, msg, rendered, src=None, module=None):
        self.config, self.fn, self.label, self.kind, self.msg, self.rendered, self.src, self.module = config, fn, label, kind, msg, rendered, src, module
    @property
    def name(self): return f"{self.fn}::{self.label}"
    def as_dict(self): return {"obligation": self.name, "config": self.config, "function": self.fn, "label": self.label, "reason": self.msg, "source": self.src, "verifier_output": self.rendered}

class Proof:
    """outcome of verifying one configuration"""
    def __init__(self, config):
        self.config = config
        self.fns = {}            # qual -> FnInfo under contract
        self.undecided = {}      # qual -> reason: body outside the verifier's reach (contract assumed)
        self.whole = None        # reason why nothing could be verified
        self.failures = []
        self.breakdown = {}      # verus function name -> (mode, success, ms)
        self.dropped = []
        self.verified = self.errors = 0
        self.retries = []
        self.wall = self.smt_ms = 0
        self.texts = {}
        self.canaries = None
    @property
    def ok(self): return not self.whole and not self.undecided and not self.failures

def index(texts):
    """file -> list of (first line, last line, kind, name, source position) of functions"""
    ix = {}
    for f, t in texts.items():
        L, cur = [], None
        for i, l in enumerate(t.split("\n"), 1):
            m = re.match(r"// @fn:(\S+) (\S+)", l)
            if m: cur = [i, i, "fn", m.group(1), m.group(2)]; L.append(cur); continue
            if l.startswith("// @end") and cur: cur[1] = i; cur = None; continue
            if cur is None or cur[2] == "lemma":
                m = re.match(r"\s*(?:pub )?(?:open |closed |uninterp )?(?:broadcast )?(?:proof |spec |exec )?(?:axiom )?fn (\w+)", l)
                if m:
                    if cur: cur[1] = i - 1
                    cur = [i, 10**9, "lemma", m.group(1), None]; L.append(cur)
        ix[f + ".rs"] = L
    return ix

def locate(ix, file, line):
    for e in ix.get(os.path.basename(file), []):
        if e[0] <= line <= e[1]: return e
    return None

def run_verus(out, args, timeout):
    t = time.time()
    cmd = [VERUS, "main.rs", "--output-json", "--time-expanded", "--error-format=json"] + args
    try:
        p = subprocess.run(["timeout", "-k", "2", str(int(timeout))] + cmd, cwd=out, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except OSError as e:
        return None, [], f"{e}", time.time() - t
    o, e = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    try: j = json.loads(o[o.index("{"):o.rindex("}") + 1])
    except ValueError: j = None
    ds = []
    for l in e.split("\n"):
        if l.startswith("{"):
            try: ds.append(json.loads(l))
            except ValueError: pass
    return j, ds, (e if not ds else "") or (f"exit {p.returncode}" if p.returncode else ""), time.time() - t

GHOST_FILES = ("spec.rs", "spk.rs", "rt_", "sp_", "clients.rs")
def vstd_path(f): return "vstd" in f or f.startswith("/")

def diagnose(config, ds, texts, ix):
    """diagnostics -> (proof failures, errors that are not proof failures)"""
    fails, hard = [], []
    for d in ds:
        if d.get("level") != "error": continue
        msg = d["message"]
        if msg.startswith("aborting due to") or msg.startswith("verification results"): continue
        sp = d.get("spans", [])
        prim = [s for s in sp if s["is_primary"]] or sp
        here = None
        for s in sorted(sp, key=lambda s: not s["is_primary"]):
            e = locate(ix, s["file_name"], s["line_start"])
            if e is not None and (here is None or e[2] == "fn" and here[0][2] != "fn"): here = (e, s)
        # the function a failed precondition belongs to is the caller: the span at the call
        m = msg.lower()
        proofy = any(k in m for k in ("postcondition", "precondition", "invariant", "assertion fail", "assert", "overflow", "underflow", "decreases", "termination", "rlimit", "resource limit", "recommendation", "divide", "division", "shift", "unreachable", "index", "loop", "forall", "by (")) and not d.get("code")
        if "resource limit" in m or "rlimit" in m:
            if here: fails.append(Failure(config, here[0][3], "*", "limit", msg, d["rendered"], here[0][4], prim[0]["file_name"][:-3]))
            continue
        if "postcondition" in m:
            lab, e = "*", None
            for s in sp:
                line = texts.get(os.path.basename(s["file_name"])[:-3], "").split("\n")
                for n in range(s["line_start"], s["line_end"] + 1):
                    if n <= len(line) and "postcondition" in (s.get("label") or ""):
                        g = re.search(r"// @label:(\w+)", line[n - 1])
                        if g: lab = g.group(1); e = locate(ix, s["file_name"], n) or e
            e = e or (here and here[0])
            if e: fails.append(Failure(config, e[3], lab, "post", msg, d["rendered"], e[4], prim[0]["file_name"][:-3])); continue
        if "precondition" in m and sp:
            caller = callee = None
            for s in sp:
                e = locate(ix, s["file_name"], s["line_start"])
                if "failed precondition" in (s.get("label") or ""): callee = (e, s)
                elif caller is None or s["is_primary"]: caller = (e, s) if e else caller
            if caller is None: caller = callee
            if caller and caller[0]:
                cf = os.path.basename(callee[1]["file_name"]) if callee else ""
                ghost = callee is not None and (cf.startswith(GHOST_FILES) or callee[0] is not None and callee[0][2] == "lemma" and cf != "model.rs")
                fails.append(Failure(config, caller[0][3], "hint" if ghost else "alloc" if any("alloc_ok_" in x["text"] for x in (caller[1].get("text") or [])[:1]) or callee is not None and "@alloc" in "".join(x["text"] for x in callee[1].get("text") or []) else "safety", "pre", msg, d["rendered"], caller[0][4], os.path.basename(caller[1]["file_name"])[:-3])); continue
        if proofy and here:
            lab = "safety" if any(k in m for k in ("overflow", "underflow", "decreases", "termination", "divi", "shift", "index")) else "loop" if "invariant" in m else "hint"
            fails.append(Failure(config, here[0][3], lab, "obl", msg, d["rendered"], here[0][4], prim[0]["file_name"][:-3])); continue
        hard.append((d, here))
    return fails, hard

def modname(m): return m.replace("main::", "")

def prove(config, repo, work, modules=None, threads=7, retry=True, deadline=None, canary=True):
    """verify one configuration. modules: None for everything, else a function of the
    generated texts that returns the modules to verify."""
    t0 = time.time()
    pr = Proof(config)
    external = {}
    out = os.path.join(work, config)
    args0 = ["--multiple-errors", "20", "--rlimit", "10", "--num-threads", str(threads)]
    j = None
    for attempt in range(8):
        try:
            cr = extract.Crate(repo, config, external)
            pr.texts = cr.emit(out, specs())
        except Unsupported as e:
            pr.whole = f"extraction: {e}"; break
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError) as e:
            pr.whole = f"extraction: {type(e).__name__} {e}"; break
        texts = {k: v for k, v in pr.texts.items()}
        texts["main"] = open(os.path.join(out, "main.rs")).read()
        pr.texts = texts
        ix = index(texts)
        mods = modules(texts) if modules else None
        if mods == []: break
        sel = []
        if mods is not None:
            for m in mods: sel += ["--verify-root"] if m == "main" else ["--verify-module", m]
        j, ds, err, wall = run_verus(out, args0 + sel, 280)
        fails, hard = diagnose(config, ds, texts, ix)
        if j is None or "verification-results" not in (j or {}) or hard or (j["verification-results"].get("encountered-vir-error")):
            new = {}
            for d, here in hard:
                if here and here[0][2] == "fn" and here[0][3] not in external: new[here[0][3]] = d["message"].split("\n")[0]
            if j is not None and "verification-results" in j and not hard: break
            if not new:
                pr.whole = "verifier: " + ("; ".join(f"{d['message']} ({', '.join(s['file_name'] + ':' + str(s['line_start']) for s in d['spans'][:1])})" for d, _ in hard[:3]) or err[:300] or "no answer in time")
                break
            external.update(new)
            continue
        break
    else:
        pr.whole = "verifier: the code can not be brought into its input language"
    try:
        pr.fns = {x.qual: x for x in cr.fns if x.contract is not None}
        pr.undecided = {**cr.undecided, **external}
        pr.dropped = sorted(set(cr.dropped))
    except NameError: pass
    if pr.whole or j is None:
        pr.wall = time.time() - t0
        return pr
    absorb(pr, j)
    pr.failures = fails
    # obligations may be out of reach of the default strategy: try others
    if fails and retry:
        names = sorted({f.fn for f in fails})
        mods = sorted({f.module for f in fails if f.module})
        again(pr, repo, out, external, names, mods, threads)
        own_buffer(pr, ix)
    pr.wall = time.time() - t0
    return pr

SCRATCH = re.compile(r"\bBytesMut::(new|with_capacity|zeroed|from)\(")
def own_buffer(pr, ix):
    """the writer contracts relate the caller's buffer before and after. A writer that builds the frame (or a part of it) in a buffer of its
    own and appends that has no stated intermediate facts: what is left unproved there is undecided, not refuted (the companion decides)"""
    for L, f in ((L, f) for f, L in ix.items()):
        for e in L:
            if e[2] != "fn" or not any(x.fn == e[3] for x in pr.failures): continue
            t = "\n".join(pr.texts[f[:-3]].split("\n")[e[0] - 1:e[1]])
            fi = pr.fns.get(e[3])
            if fi is not None and fi.contract.role in ("write", "pwrite", "wprim", "wvi", "wdispatch") and SCRATCH.search(t):
                pr.undecided[e[3]] = "builds the frame in a buffer of its own"
                pr.failures = [x for x in pr.failures if x.fn != e[3]]

def absorb(pr, j):
    v = j["verification-results"]
    pr.verified, pr.errors = v.get("verified", 0), v.get("errors", 0)
    smt = j.get("times-ms", {}).get("smt", {})
    pr.smt_ms = smt.get("smt-run", 0)
    pr.verus = j.get("verus", {}).get("version", "")
    for m in smt.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            nm = f["function"].replace("main::", "")
            o = pr.breakdown.get(nm)
            pr.breakdown[nm] = (f.get("mode:", f.get("mode", "")), f["success"] and (o is None or o[1]), f["time-micros"] / 1000 + (o[2] if o else 0))

def again(pr, repo, out, external, names, mods, threads):
    """the failed functions once more with extensional hints, more resources, other seeds"""
    variants = [("ext", set(names), ["--rlimit", "40"]), ("spinoff", set(), ["--rlimit", "60", "-V", "spinoff-all"]), ("seed", set(), ["--rlimit", "40", "--smt-option", "smt.random_seed=7"]), ("ext2", set(names), ["--rlimit", "60", "-V", "spinoff-all", "--smt-option", "smt.random_seed=3"])]
    sel = []
    for m in mods: sel += ["--verify-root"] if m == "main" else ["--verify-module", m]
    def one(v):
        nm, ext, args = v
        o = out + "-" + nm
        try:
            cr = extract.Crate(repo, pr.config, external, ext)
            t = cr.emit(o, specs())
        except Exception as e:
            return nm, None
        t = dict(t); t["main"] = open(os.path.join(o, "main.rs")).read()
        j, ds, err, wall = run_verus(o, ["--multiple-errors", "20", "--num-threads", "2"] + args + sel, 150)
        f, hard = diagnose(pr.config, ds, t, index(t))
        if j is None or hard or "verification-results" not in j: return nm, None
        return nm, f
    with ThreadPoolExecutor(4) as ex: rs = list(ex.map(one, variants))
    left = pr.failures
    def key(f): return (f.fn, f.label)
    def has(fs, f):
        return any(g.fn == f.fn and (g.label == f.label or g.label == "*" or f.label == "*") for g in fs)
    for nm, fs in rs:
        pr.retries.append((nm, None if fs is None else sorted({f"{g.fn}::{g.label}" for g in fs})))
        if fs is None: continue
        # a function whose obligations were all accepted by one strategy is proved
        left = [f for f in left if any(g.fn == f.fn for g in fs)]
        # "resource limit" is replaced by the named obligations another strategy reports
        lim = {f.fn for f in left if f.kind == "limit"}
        for fn in lim:
            gs = [g for g in fs if g.fn == fn and g.kind != "limit"]
            if gs: left = [f for f in left if f.fn != fn] + gs
        # a postcondition accepted by one strategy (and the failure not masked) is proved
        left = [f for f in left if f.kind != "post" or has(fs, f)]
    pr.failures = left

def canaries(pr, work, repo, threads=7):
    """vacuity guard: with `assert(false)` as the first statement every function must fail"""
    out = os.path.join(work, pr.config + "-canary")
    cr = extract.Crate(repo, pr.config, pr.undecided)
    cr.emit(out, specs())
    want = set()
    for f in os.listdir(out):
        if not f.endswith(".rs"): continue
        p = os.path.join(out, f)
        t = open(p).read()
        L, o, cur, ext = t.split("\n"), [], None, False
        for l in L:
            m = re.match(r"// @fn:(\S+)", l)
            if m: cur, ext = m.group(1), False
            if cur and "external_body" in l: ext = True
            if l == "// @end": cur = None
            o.append("{ proof { assert(false); }" if l == "{" and cur and not ext else l)
            if l == "{" and cur and not ext: want.add(cur); cur = None
        open(p, "w").write("\n".join(o))
    mods = sorted({f[:-3] for f in os.listdir(out) if f.endswith(".rs")} - set(specs()) - {"model"})
    sel = []
    for m in mods: sel += ["--verify-root"] if m == "main" else ["--verify-module", m]
    j, ds, err, wall = run_verus(out, ["--multiple-errors", "1", "--rlimit", "10", "--num-threads", str(threads)] + sel, 200)
    texts = {f[:-3]: open(os.path.join(out, f)).read() for f in os.listdir(out) if f.endswith(".rs")}
    fails, hard = diagnose(pr.config, ds, texts, index(texts))
    got = {f.fn for f in fails}
    shutil.rmtree(out, ignore_errors=True)
    return {"functions": len(want), "refuted": len(want & got), "vacuous": sorted(want - got), "wall_s": round(wall, 1)}

def realised(work):
    """the assumed contracts of Bytes, BytesMut and Iter are realisable: an implementation over Vec<u8> is verified against the same contract
    text (so they contradict neither themselves nor one another). Informative; never a violation."""
    try:
        import modelref
        text, done, left = modelref.generate(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "model.rs")).read())
        out = os.path.join(work, "modelref"); os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "main.rs"), "w").write(text)
        j, ds, err, t = run_verus(out, [], 300)
        r = (j or {}).get("verification-results", {})
        return {"given_a_verified_implementation": done, "without_one": left, "verified": r.get("verified"), "errors": r.get("errors"), "accepted": bool(r.get("success")), "wall_s": round(t, 1)}
    except Exception as e: return {"error": f"{e!r}"}

TRUST = re.compile(r"\b(assume\s*\(|admit\s*\(|external_body|assume_specification|axiom fn|verifier::external\b|uninterp)")
def trust_scan(pr):
    """every construct in the generated crate that the verifier believes without proof"""
    r = {}
    for f, t in pr.texts.items():
        for l in t.split("\n"):
            m = TRUST.search(l)
            if m and not l.strip().startswith("//"):
                nm = re.search(r"fn (\w+)|struct (\w+)", l)
                r.setdefault(f, []).append((m.group(1).strip("( "), (nm.group(1) or nm.group(2)) if nm else l.strip()[:60]))
    return r
