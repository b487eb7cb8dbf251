"""Looks for an input of the real, compiled code that breaks a property."""
import os, re, json, glob, subprocess, shutil, time, hashlib
from rsast import VERIF

TARGET = os.path.join(VERIF, "build", "witness")
BIN = os.path.join(VERIF, "build", "bin")
CRATE = os.path.join(VERIF, "tools", "witness")
FEATURE = {"default": [], "boxed_string": ["--features", "boxed_string"], "cow_string": ["--features", "cow_string"], "binary_string": ["--features", "binary_string"]}

def build(config):
    """-> (path of the binary, error)"""
    os.makedirs(BIN, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, config), CARGO_NET_OFFLINE="true")
    p = subprocess.run(["timeout", "400", "cargo", "build", "--offline", "--release", "--quiet"] + FEATURE[config], cwd=CRATE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode: return None, p.stderr.decode(errors="replace")[-2000:]
    return os.path.join(TARGET, config, "release", "witness"), None

def sources(repo):
    r = []
    for f in sorted(glob.glob(os.path.join(repo, "src", "**", "*.rs"), recursive=True)):
        t = open(f, errors="replace").read()
        t = re.split(r"#\[cfg\(test\)\]", t)[0]
        t = re.sub(r"//[^\n]*", "", t)
        r.append(t)
    return r

def unescape(s):
    def one(m):
        x = m.group(1)
        try:
            if x[0] == "u": return chr(int(x[2:-1].replace("_", ""), 16))
            if x[0] == "x": return chr(int(x[1:], 16))
        except ValueError: return ""
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\n": ""}.get(x, x)
    return re.sub(r"\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|[\s\S])", one, s)

def literals(repo):
    nums, strs = set(), set()
    for t in sources(repo):
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:(?:u|i)(?:8|16|32|64|128|size))?\b", t):
            try: v = int(m.group(1).replace("_", ""), 0 if m.group(1)[:1] == "0" and len(m.group(1)) > 1 and m.group(1)[1] in "xbo" else 10)
            except ValueError: continue
            if v < 1 << 64: nums.add(v)
        for m in re.finditer(r"(\d[\d_]*)(?:u\w+)?\s*<<\s*(\d+)", t):
            v = int(m.group(1).replace("_", "")) << min(int(m.group(2)), 63)
            if v < 1 << 63: nums.add(v)
        for m in re.finditer(r'b?"((?:[^"\\]|\\.)*)"', t):
            s = m.group(1)
            s = unescape(s)
            if len(s) <= 64: strs.add(s)
        for m in re.finditer(r"b?'((?:[^'\\]|\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.))'", t):
            c = unescape(m.group(1))
            strs.add(c); nums.add(ord(c[0]) if c else 0)
    return nums, strs

KNOWN = os.path.join(VERIF, "gen", "literals.json")
def dictionary(repo, focus=()):
    """values worth trying: every literal of the source, the unusual ones more often"""
    nums, strs = literals(repo)
    try: k = json.load(open(KNOWN))
    except OSError: k = {"nums": [], "strs": []}
    hot = [n for n in nums if n not in set(k["nums"])]
    hots = [s for s in strs if s not in set(k["strs"])]
    # arithmetic of two unusual numbers
    n2 = sorted(nums) + hot * max(1, (2 * len(nums)) // max(1, len(hot)) if hot else 1)
    s2 = sorted(s for s in strs if len(s) <= 16) + hots * max(1, (2 * len(strs)) // max(1, len(hots)) if hots else 1)
    return {"nums": n2[:4000], "strs": s2[:2000], "focus": sorted(focus)}

def search(binary, prop, seed, secs, dic, work):
    df = os.path.join(work, f"dict-{prop}-{seed}.json")
    json.dump(dic, open(df, "w"))
    try:
        p = subprocess.run(["timeout", "-k", "5", str(int(secs) + 60), binary, "search", prop, str(seed), str(int(secs)), "--dict", df], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except OSError as e: return {"error": str(e)}
    out = p.stdout.decode(errors="replace").strip().split("\n")
    for l in reversed(out):
        if l.startswith("{"):
            try: return json.loads(l)
            except ValueError: pass
    r = {"error": f"exit {p.returncode}: {p.stderr.decode(errors='replace')[-300:]}", "crash": p.returncode not in (124, 137)}
    if r["crash"]:
        # the library ended the process: find the input that does
        tr = os.path.join(work, f"trace-{prop}")
        shutil.rmtree(tr, ignore_errors=True); os.makedirs(tr)
        subprocess.run(["timeout", "-k", "5", str(int(secs) + 60), binary, "search", prop, str(seed), str(int(secs) * 3), "--dict", df, "--trace", tr], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for f in sorted(os.listdir(tr)):
            q = subprocess.run(["timeout", "60", binary, "replay", os.path.join(tr, f)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if q.returncode not in (0, 1, 2, 101, 124):
                v = json.load(open(os.path.join(tr, f)))
                rd = next(iter(v["case"])) in ("Read", "Stream", "CodeR", "ViR") if isinstance(v["case"], dict) else True
                if prop == "C06" and rd or prop == "C21" and rd and b"memory allocation" in q.stderr or prop == "C07" and not rd:
                    return {"found": True, "kind": "process ended", "what": f"the process died with status {q.returncode}: {q.stderr.decode(errors='replace')[-400:]}", "case": v["case"], "cases": 0, "nontrivial": 0}
    return r

def replay(binary, file):
    p = subprocess.run(["timeout", "120", binary, "replay", file], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")

def differ(bins, seed, count, dic, work):
    """cases on which two configurations disagree -> (config, index, [digests]) or None"""
    df = os.path.join(work, f"dict-C18-{seed}.json")
    json.dump(dic, open(df, "w"))
    outs = {}
    for c, b in bins.items():
        o = os.path.join(work, f"digest-{c}")
        p = subprocess.run(["timeout", "-k", "5", "400", b, "digest", str(seed), str(count), o, "--dict", df], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode: return {"error": f"{c}: exit {p.returncode} {p.stderr.decode(errors='replace')[-300:]}"}
        d = open(o, "rb").read(); os.remove(o)
        outs[c] = memoryview(d).cast("Q")
    base = outs["default"]
    for c, o in outs.items():
        if c == "default": continue
        if c != "binary_string" and o == base: continue
        for i in range(len(base)):
            if (base[i] | 1) != (o[i] | 1) and (c != "binary_string" or base[i] & 1 and o[i] & 1):
                a = subprocess.run([bins["default"], "show", str(seed), str(i), "--dict", df], stdout=subprocess.PIPE).stdout.decode()
                b = subprocess.run([bins[c], "show", str(seed), str(i), "--dict", df], stdout=subprocess.PIPE).stdout.decode()
                try: a, b = json.loads(a), json.loads(b)
                except ValueError: a = b = {}
                return {"found": True, "kind": "configurations disagree", "config": c, "case": a.get("case"), "what": f"default: {a.get('outcome', '')[:1200]}\n{c}: {b.get('outcome', '')[:1200]}", "cases": count * len(bins)}
    return {"found": False, "cases": count * len(bins), "nontrivial": count}


def model(binary, seed, count):
    """the assumed contracts of gen/model.rs against bytes and std, on samples"""
    p = subprocess.run(["timeout", "-k", "5", "120", binary, "model", str(seed), str(count)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try: v = json.loads(p.stdout.decode().strip().split("\n")[-1])
    except ValueError: return {"error": f"exit {p.returncode}: {p.stderr.decode(errors='replace')[-300:]}"}
    names, owner = [], None
    for l in open(os.path.join(VERIF, "gen", "model.rs")):
        m = re.match(r"\s*impl(?:<[^>]*>)?\s+(?:([\w:<>0-9]+) for )?([\w]+)", l)
        if m: owner = m.group(1).replace("core::ops::", "").split("<")[0] if m.group(1) and m.group(1).startswith("ToBe") else m.group(2); full = m.group(1) if m.group(1) and m.group(1).startswith("ToBe") else m.group(2)
        if l.startswith("}"): owner = None
        if "external_body" in l:
            f = re.search(r"\bfn (\w+)", l[l.index("external_body"):])
            if f: names.append(f"{full}::{f.group(1)}" if owner else f.group(1))
        if l.startswith("impl") and l.rstrip().endswith("}") and l.count("{") == l.count("}"): owner = None
    v["not_exercised"] = sorted({n for n in names if n not in v["operations"]})
    v["exercised"] = len(set(names) - set(v["not_exercised"]))
    v["evaluations"] = sum(v.pop("operations").values())
    return v
