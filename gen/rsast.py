"""Source files with syntax trees (from tools/rsdump) and a renderer that keeps the
source text verbatim except where a node is explicitly overridden."""
import json, os, re, subprocess, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def build_rsdump():
    d = os.path.join(VERIF, "tools", "rsdump")
    tgt = os.path.join(VERIF, "build", "rsdump-target")
    exe = os.path.join(tgt, "debug", "rsdump")
    src = os.path.join(d, "src", "main.rs")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        subprocess.run(["cargo", "build", "--offline", "--quiet", "--target-dir", tgt], cwd=d, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return exe

class Unsupported(Exception):
    pass

def dump(paths):
    out = subprocess.run([build_rsdump()] + paths, check=True, stdout=subprocess.PIPE).stdout
    return json.loads(out)

def kids(n):
    """direct child nodes"""
    for v in n.values():
        if isinstance(v, dict) and "k" in v: yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and "k" in x: yield x

def walk(n):
    yield n
    for c in kids(n): yield from walk(c)

class File:
    def __init__(self, path, module, tree):
        self.path, self.module, self.tree = path, module, tree
        self.src = open(path, "rb").read()
        if "error" in tree: raise Unsupported(f"{path}: {tree['error']}")
    def text(self, n): return self.src[n["s"]:n["e"]].decode()

def cfg_eval(text, feats):
    """text of a cfg attribute's token stream: '# [cfg (all (not (feature = "x")) , ...)]'"""
    m = re.search(r"cfg\s*\((.*)\)\s*\]$", text, re.S)
    toks = re.findall(r'"[^"]*"|\w+|[(),=]', m.group(1))
    pos = 0
    def parse():
        nonlocal pos
        t = toks[pos]; pos += 1
        if t in ("all", "any", "not"):
            pos += 1
            a = []
            while toks[pos] != ")":
                if toks[pos] == ",": pos += 1; continue
                a.append(parse())
            pos += 1
            return all(a) if t == "all" else any(a) if t == "any" else not a[0]
        if pos < len(toks) and toks[pos] == "=":
            v = toks[pos + 1].strip('"'); pos += 2
            return t == "feature" and v in feats
        return t in ("debug_assertions", "unix")
    return parse()

def cfg_ok(n, feats):
    for a in n.get("attrs", []):
        if a["path"] == "cfg" and not cfg_eval(a["text"], feats): return False
    return True

def load(repo, feats):
    """all files of the crate, following `mod` items from src/lib.rs"""
    root = os.path.join(repo, "src", "lib.rs")
    trees = dump(sorted(glob.glob(os.path.join(repo, "src", "**", "*.rs"), recursive=True)))
    files = []
    def go(path, module, dirpath):
        if path not in trees: raise Unsupported(f"no file for module {module}")
        f = File(path, module, trees[path]); files.append(f)
        for it in f.tree["items"]:
            if it["k"] == "Mod" and it.get("items") is None and cfg_ok(it, feats):
                p = os.path.join(dirpath, it["name"] + ".rs"); d = os.path.join(dirpath, it["name"])
                if p not in trees: p = os.path.join(dirpath, it["name"], "mod.rs")
                go(p, module + [it["name"]], d)
    go(root, [], os.path.join(repo, "src"))
    return files
