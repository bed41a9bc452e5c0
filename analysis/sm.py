"""Readable summary of an entry point (development aid): sm.py CRATE ENTRY [VARIANT [TERM=VARIANT..]]"""
import sys
sys.path.insert(0, "/verif/analysis")
from lib import *
import re

def ab(s):
    for m in re.finditer(r"load\[(proposals_v2|proposals|tallys), msg@\w+\.(proposal_id|id)\]", s):
        pass
    s = re.sub(r"load\[(proposals_v2|proposals), msg@\w+\.(proposal_id|id)\]", "PR", s)
    s = re.sub(r"load\[tallys, msg@\w+\.(proposal_id|id)\]", "TY", s)
    s = s.replace("imax(PR.votes.vote_weights)@Some.0", "MX").replace("PR.votes.vote_weights", "W").replace("first(ifilter(enumerate(W), eq(elem(W), MX)))@Some.0", "TOP1")
    # conditions of conditional values are long: drop them
    out, i = "", 0
    while True:
        j = s.find("dnf(", i)
        if j < 0 or NODNF:
            out += s[i:]
            break
        out += s[i:j] + "DNF"
        d, k = 0, j + 3
        while k < len(s):
            if s[k] == "(":
                d += 1
            elif s[k] == ")":
                d -= 1
                if d == 0:
                    break
            k += 1
        i = k + 1
    return out

NODNF = __import__("os").environ.get("DNF")

def sh(t, n=600):
    s = ab(show(t))
    return s if len(s) <= n else s[:n] + "…"

if __name__ == "__main__":
    crate, entry = sys.argv[1:3]
    vs = [sys.argv[3]] if len(sys.argv) > 3 else (variants(crate, entry) or [None])
    if entry == "instantiate": vs = [None]
    for v in vs:
        try:
            ps = okpaths(crate, entry, v)
        except Limit as x:
            print("LIMIT", v, x); continue
        print("######## %s %s: %d ok paths" % (entry, v, len(ps)))
        for p in ps[:int(__import__('os').environ.get('N', '6'))]:
            print("== path")
            for l in p.describe():
                print("    ", ab(l)[:300])
            for k, val in p.st.facts.items():
                if k.__class__ is T and k.op in ("dnf", "phi"):
                    print("    %s%s" % ("" if val else "NOT ", sh(k, 700)))
            for x in p.effects:
                print("    EFF %s(%s) @%s" % (x.kind, ", ".join(sh(y) if y.__class__ is T else str(y) for y in x.a), x.site))
            try:
                seen=set()
                for q, g in p.msgs():
                    s = ab(repr(g))[:900]
                    if s not in seen:
                        seen.add(s); print("    MSG", s)
            except Limit as x:
                print("    MSG LIMIT", x)
            if entry == "query": print("    RET", sh(p.ret, 1500))
