#!/usr/bin/env python3
"""Development aid: generated edits of the code, tried in a scratch copy; prints those no check speaks of.
automut.py WORKER/OF OUT.jsonl PATH.. [--props C01,C02]   PATH: directories or files under /repo."""
import concurrent.futures, json, os, re, subprocess, sys, glob, hashlib, random
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def end(src, i):
    """index of the `;` that ends the statement starting at i, or None"""
    d = 0
    q = False
    while i < len(src):
        ch = src[i]
        if q:
            if ch == "\\":
                i += 1
            elif ch == '"':
                q = False
        elif ch == '"':
            q = True
        elif ch == "/" and src[i:i + 2] == "//":
            i = src.find("\n", i)
        elif ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
            if d < 0:
                return None
        elif ch == ";" and d == 0:
            return i
        i += 1


def cond_end(src, i):
    d = 0
    q = False
    while i < len(src):
        ch = src[i]
        if q:
            if ch == '"':
                q = False
        elif ch == '"':
            q = True
        elif ch == "{" and d == 0:
            return i
        elif ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        i += 1


def gen(src):
    """[(offset, length, replacement, kind)]"""
    stop = len(src)
    m = re.search(r"^\s*#\[cfg\(test\)\]\s*\n\s*mod \w+ \{", src, re.M)
    if m:
        stop = m.start()
    out = []

    def line_of(i):
        return src[src.rfind("\n", 0, i) + 1:src.find("\n", i)]

    def skip(i):
        l = line_of(i)
        return re.match(r"\s*(//|#\[|use |pub use|#!\[)", l) or "add_attribute" in l or "Event::" in l
    for m in re.finditer(r"^([ \t]+)(?=[A-Za-z_&*][\w.:]*(\(|::|\.|\[| [-+*/|]?= |!\(|\n))", src[:stop], re.M):
        i = m.end()
        w = re.match(r"\w+", src[i:])
        if w and w.group(0) in ("let", "return", "if", "for", "match", "fn", "pub", "use", "else", "while", "impl", "mod", "struct", "enum", "type", "const", "Ok", "Err", "break", "continue", "static", "where"):
            continue
        prev = src[:m.start()].rstrip()
        if prev and prev[-1] not in ";{}":
            continue
        e = end(src, i)
        if e is None or "add_attribute" in src[i:e] and len(src[i:e]) < 80:
            continue
        out.append((i, e + 1 - i, "", "del"))
    for m in re.finditer(r"\bif (?!let\b)", src[:stop]):
        if skip(m.start()):
            continue
        e = cond_end(src, m.end())
        c = src[m.end():e].strip()
        if e is None or len(c) > 400 or ";" in c or "=>" in c:
            continue
        if " && let " in c:
            continue
        out.append((m.end(), e - m.end(), "false && (%s) " % c, "iffalse"))
        out.append((m.end(), e - m.end(), "true || (%s) " % c, "iftrue"))
    pats = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
            (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r"\.checked_add\(", ".checked_sub("), (r"\.checked_sub\(", ".checked_add("),
            (r"\.saturating_sub\(", ".saturating_add("), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"Order::Ascending", "Order::Descending"), (r"Order::Descending", "Order::Ascending"),
            (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\binfo\.sender\b", "env.contract.address"), (r"\benv\.contract\.address\b", "info.sender"),
            (r"\benv\.block\.height\b", "(env.block.height + 1)"), (r"&sender\b", "&env.contract.address"), (r"\.is_expired\(", ".is_triggered("),
            (r"\.checked_mul_floor\(", ".checked_mul_ceil("), (r"\.mul_floor\(", ".mul_ceil("), (r"Bound::exclusive", "Bound::inclusive"), (r"Bound::inclusive", "Bound::exclusive"),
            (r"reply_on_error\(", "reply_always("), (r"reply_on_success\(", "reply_always("), (r"reply_always\(", "reply_on_error("),
            (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".is_empty() == false"), (r"!(?=[a-z])", ""), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
            (r"height\.unwrap_or\(", "Some("), (r"\.multiply_ratio\((\w+), (\w+)\)", r".multiply_ratio(\2, \1)"), (r"\bSome\((\w+)\)(?!\s*=)", "None"),
            (r"\.chain\(", ".filter(|_| false).chain("), (r"\.filter\(", ".skip_while(")]
    for p, r in pats:
        for m in re.finditer(p, src[:stop]):
            if skip(m.start()):
                continue
            l = line_of(m.start())
            if p in (r" \+ ", r" \* ", r" - ") and re.search(r"impl |where |: [A-Z]\w+ \+|dyn ", l):
                continue
            out.append((m.start(), len(m.group(0)), m.expand(r) if "\\" in r else r, p))
    for m in re.finditer(r"\n\s*\.(add_messages?|add_submessages?|set_data|transpose|filter|take|map_err)\(", src[:stop]):
        if m.group(1) in ("transpose", "map_err"):
            continue
        d, i = 1, m.end()
        while d and i < len(src):
            d += {"(": 1, ")": -1}.get(src[i], 0)
            i += 1
        out.append((m.start(), i - m.start(), "", "drop-" + m.group(1)))
    return out


def main():
    k, n = map(int, sys.argv[1].split("/"))
    res = sys.argv[2]
    args = sys.argv[3:]
    want = None
    if "--props" in args:
        j = args.index("--props")
        want = args[j + 1].split(",")
        del args[j:j + 2]
    cap = 10 ** 9
    if "--max" in args:
        j = args.index("--max")
        cap = int(args[j + 1])
        del args[j:j + 2]
    only = None
    if "--only" in args:        # those that survived an earlier run
        j = args.index("--only")
        only = {r["id"] for r in map(json.loads, open(args[j + 1])) if r["st"] == "SURVIVED"}
        del args[j:j + 2]
    S = "/tmp/am/w%d" % (k if only is None else 100 + k)
    os.makedirs(S, exist_ok=True)
    if not os.path.exists(S + "/repo"):
        sh(["git", "clone", "-q", "/repo", S + "/repo"])
    sh(["git", "-C", S + "/repo", "checkout", "-q", "--", "."])
    sh(["git", "-C", S + "/repo", "fetch", "-q", "/repo"])
    sh(["git", "-C", S + "/repo", "reset", "-q", "--hard", "FETCH_HEAD"])
    if not os.path.exists(S + "/work"):
        sh(["cp", "-a", os.path.join(HERE, ".work"), S + "/work"])
    files = []
    for a in args:
        p = "/repo/" + a
        files += [p] if p.endswith(".rs") else sorted(glob.glob(p + "/**/*.rs", recursive=True))
    files = [f[6:] for f in files if not re.search(r"test|/msg\.rs|/error\.rs|/examples/|/bin/|schema|shim|/lib\.rs$", f) or f.endswith("stake-tracker/src/lib.rs") or f.endswith("wormhole/src/lib.rs")]
    done = set()
    if os.path.exists(res):
        done = {json.loads(l)["id"] for l in open(res)}
    deps = {}
    for f in glob.glob(HERE + "/evidence/C*.json"):
        if "violations" in f:
            continue
        c = json.load(open(f))
        for x in c["coverage"]["functions_analysed"]:
            deps.setdefault(x, set()).add(c["property"])
    allp = sorted(set().union(*deps.values()))
    todo = []
    for f in files:
        src = open("/tmp/am/pristine/" + f).read()
        t = re.search(r'^name\s*=\s*"([^"]+)"', open("/tmp/am/pristine/" + "/".join(f.split("/src/")[0].split("/")) + "/Cargo.toml").read(), re.M)
        crate = t.group(1).replace("-", "_")
        ps = want or (sorted(deps[crate]) if crate in deps else allp)
        for o, ln, r, kind in gen(src):
            todo.append((f, o, ln, r, kind, ps, hashlib.md5(repr((f, src[max(0, o - 60):o], src[o:o + ln], r)).encode()).hexdigest()[:10]))
    random.Random(7).shuffle(todo)
    todo = todo[:cap]
    todo = [t for i, t in enumerate(todo) if i % n == k and t[6] not in done and (only is None or t[6] in only)]
    print(len(todo), "mutants for worker", k, flush=True)
    env = dict(os.environ, VERIF_WORK=S + "/work", VERIF_EVIDENCE=S + "/ev", VERIF_REPO=S + "/repo")

    def chk(p):
        try:
            r = sh([sys.executable, HERE + "/analysis/check.py", p, "--no-extract"], env=env, timeout=300)
            return p, r.returncode
        except subprocess.TimeoutExpired:
            return p, 9
    for f, o, ln, r, kind, ps, idd in todo:
        path = S + "/repo/" + f
        src = open("/tmp/am/pristine/" + f).read()
        open(path, "w").write(src[:o] + r + src[o + ln:])
        try:
            x = sh([sys.executable, HERE + "/tools/extract.py", S + "/repo", S + "/work"])
            if x.returncode:
                st, fired = "nobuild", []
            else:
                with concurrent.futures.ThreadPoolExecutor(2) as ex:
                    rs = list(ex.map(chk, ps))
                fired = [p for p, c in rs if c]
                st = "caught" if fired else "SURVIVED"
                if any(c not in (0, 1) for p, c in rs):
                    st += "-odd"
        finally:
            open(path, "w").write(src)
        line = src.count("\n", 0, o) + 1
        with open(res, "a") as fh:
            fh.write(json.dumps(dict(id=idd, file=f, line=line, kind=kind, st=st, fired=fired, old=src[o:o + ln][:160], new=r[:60], ctx=src[src.rfind("\n", 0, o) + 1:src.find("\n", o + ln)][:240])) + "\n")


main()
