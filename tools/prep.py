"""Projections of the daemon's event logs for the trace specifications: selecting events, numbering, nothing else."""
import re
K = lambda s, i: s * 1000 + i
def _m(e): return [[p, c, t] for p, c, t in zip(e["p"], e["c"], e["t"])]

def dedupe(t):
    ev = t["ev"]
    meta = next(e for e in ev if e["e"] == "meta")
    out = [{"e": "meta", "wa": meta["wa"], "mode": meta["mode"], "threads": meta["threads"], "clean": int(t["fam"] == "quiet"), "faults": int(t["fam"] == "faults")}]
    a = out.append
    shared_home = not meta["homefs"]          # the daemon's own files live in the filesystem it works on
    for e in ev:
        k = e["e"]
        if k in ("u", "end"):
            a({"e": k, "f": K(e["s"], e["i"]), "sz": e["sz"], "x": int(e["nc"] or e["nd"]), "ro": e["ro"], "m": _m(e)})
        elif k == "rd" and (e["k"] in "ft" or e["k"] == "h" and shared_home) and e["n"]:
            a({"e": "rd", "f": K(e["s"], e["i"]), "b": e["b"], "c": e["c"]})
        elif k == "open" and e["k"] == "t":
            a({"e": "tn", "f": K(e["s"], e["i"])})
        elif k == "open" and e["k"] == "f" and e["rw"]:
            a({"e": "bad", "p": "C16"})
        elif k == "tgone":
            a({"e": "tg", "f": K(e["s"], e["i"])})
        elif k == "tr" and e["k"] in "ft" and not e["er"]:
            a({"e": "tr", "k": e["k"], "f": K(e["s"], e["i"]), "sz": e["sz"]})
        elif k == "wr":
            a({"e": "wr", "k": e["k"], "f": K(e["s"], e["i"]), "off": e["off"], "len": e["len"], "m": [[p, c, 1] for p, c in zip(e["p"], e["c"])]})
        elif k == "hopen" and shared_home and e["n"] == "beeshash.dat":
            a({"e": "own", "f": K(e["s"], e["i"])})
        elif k == "hcreate" and shared_home and e["hd"]:
            a({"e": "hn", "f": K(e["s"], e["i"])})
        elif k == "hwr" and "p" in e:
            a({"e": "hw", "f": K(e["s"], e["i"]), "b": e["b"], "end": e["b"] * 4096 + e["len"], "m": [[p, c, 1] for p, c in zip(e["p"], e["c"])]})
        elif k == "dd":
            a({"e": "dd", "s": K(e["ss"], e["si"]), "sk": e["sk"], "so": e["so"], "d": K(e["ds"], e["di"]), "dk": e["dk"], "do": e["do"],
               "len": e["len"], "by": e["by"], "st": e["st"]})
        elif k == "li" and not e["ig"]:
            r = e["r"]
            a({"e": "li", "p": e["x"] * 1024 + e["p"] - e["x"], "slow": e["slow"], "many": e["many"], "r": sorted({K(r[i], r[i + 1]) for i in range(0, len(r), 2)})})
        elif k == "ro":
            a({"e": "ro", "s": e["s"], "v": e["v"]})
        elif k in ("start", "exit", "settled"):
            a({"e": k})
        elif k in ("hcreate", "hrename", "hunlink") and not e["hd"] and not e.get("er"):
            a({"e": "bad", "p": "C16"})
        elif k == "mut" and e["k"] not in "th":
            a({"e": "bad", "p": "C16"})
        elif k in ("deadlock", "livelock", "misuse", "died"):
            a({"e": "bad", "p": "C23"})
    return dict(t, ev=out)

D = 1 << 22
def num(v): return [v >> 44, (v >> 22) % D, v % D]
def lines(text):
    out = []
    for l in text.split("|"):
        w = l.split(" ")
        d = dict(zip(w[0::2], w[1::2]))
        if "root" in d:
            out.append([int(d["root"])] + [num(int(d[k])) for k in ("objectid", "offset", "min_transid", "max_transid", "started")])
    return out

def words(l):
    """A line of a progress file as the words and numbers in it; what they mean is for the specification."""
    def number(x):
        m = re.match(r"0[xX][0-9a-fA-F]+|[0-9]+", x)
        if not m: return []
        v = int(m.group(), 16 if m.group()[:2] in ("0x", "0X") else 8 if m.group()[0] == "0" else 10)
        return num(v) if v < 1 << 64 else []
    w = l.split(" ") if l else []
    return [[k, number(v)] for k, v in zip(w[0::2], w[1::2])] + ([["", []]] if len(w) % 2 else [])

def coverage(t):
    ev = t["ev"]
    meta = ev[0]
    out = [{"e": "meta", "wa": meta["wa"], "mode": meta["mode"], "wild": max([e["wild"] for e in ev if e["e"] == "seed"] or [0])}]
    a = out.append
    texts = {}
    fds = {}
    done = 0
    last = None
    for e in ev:
        k = e["e"]
        if k in ("u", "end"):
            big = e.get("big", [])
            a({"e": k, "f": K(e["s"], e["i"]), "x": int(e["nc"] or e["nd"] or "sn" in e), "ro": e["ro"], "m": [[p >> 10, p, g] if ty in (1, 4) else [0, 0, 0] for p, ty, g in zip(e["p"], e["t"], e["g"])],
               "big": [[big[i], big[i + 1]] for i in range(0, len(big), 2)]})
        elif k == "rd" and e["k"] == "f":
            a({"e": "rd", "p": [p for p in e["p"] if p]})
        elif k == "wr" and e["k"] == "t":
            a({"e": "own", "x": [p >> 10 for p in e["p"]]})
        elif k == "dd" and e["st"] == 0 and e["dk"] == "f":
            a({"e": "dd", "f": K(e["ds"], e["di"]), "b": e["do"] // 4096, "n": (e["by"] + 4095) // 4096})
        elif k in ("gone", "mv"):
            a({"e": "drop", "f": K(e["s"], e["i"])})
        elif k == "ro":
            a({"e": k, "s": e["s"], "v": e["v"]})
        elif k == "sub":
            a({"e": k, "s": e["s"], "v": e["v"], "ro": e["ro"]})
        elif k == "seed":
            a({"e": k, "l": [words(l) for l in e["text"].split("|")]})
        elif k == "li" and (e["many"] or e["er"]):
            a({"e": "many", "x": e["x"]})
        elif k == "hwr" and "text" in e:
            last = texts[tuple(e["c"])] = lines(e["text"])
        elif k == "hrename" and e["n"] == "beescrawl.dat" and not e["er"]:
            a({"e": "save", "l": last, "tid": e["tid"]})
        elif k == "hopen":
            fds[e["fd"]] = e["n"]                          # a scan may read left-over files as well
        elif k == "rd" and e["k"] == "h" and tuple(e["c"]) in texts and fds.get(e["fd"]) == "beescrawl.dat":
            a({"e": "load", "l": texts[tuple(e["c"])]})
        elif k == "settled":
            a({"e": k, "ok": e["ok"]})
            done = e["ok"]
        elif k == "start":
            a({"e": k})
        elif k == "exit":
            a({"e": k, "done": int(done and e["st"] == 0)})
        elif k in ("deadlock", "livelock", "died", "ret") or k == "exit" and e["st"]:
            a({"e": "bad"})
    return dict(t, ev=out)

def home(t):
    ev = t["ev"]
    meta = ev[0]
    v = re.match(r"(\d+)\.(\d+)\.", meta["kernel"])
    out = [{"e": "meta", "homefs": meta["homefs"], "k": [int(v.group(1)), int(v.group(2))] if v else [0, 0], "faults": int(t["fam"] == "faults")}]
    a = out.append
    read = False
    for e in ev:
        k = e["e"]
        if k == "start":
            read = False
            a({"e": k})
        elif k == "seed":
            a({"e": "old", "n": "beescrawl.dat", "i": 0})
        elif k == "hcreate":
            a({"e": "create", "n": e["n"], "i": e["i"]})
        elif k == "hwr":
            a({"e": "write", "i": e["i"], "off": e["off"], "want": e["want"], "got": e["len"]})
        elif k == "hwrx":
            a({"e": "write", "i": e["i"], "off": e["off"], "want": e["len"], "got": 0})
        elif k == "tr" and e["k"] == "h" and not e["er"]:
            a({"e": "cut", "i": e["i"], "n": e["sz"]})
        elif k == "hsync" and not e["er"] and e["n"]:
            a({"e": "sync", "i": e["i"]})
        elif k == "hunlink" and not e["er"]:
            a({"e": "unlink", "n": e["n"]})
        elif k == "hrename" and not e["er"]:
            a({"e": "rename", "o": e["o"], "n": e["n"]})
        elif k == "rd" and e["k"] == "f" and not read:
            read = True
            a({"e": "rd"})
        elif k == "exit":
            a({"e": k, "st": e["st"]})
    return dict(t, ev=out)

def names(t):
    ev = t["ev"]
    out = [{"e": "meta", "oa2": ev[0]["oa2"]}]
    a = out.append
    seen = set()                                           # descriptors of user files that were used since they were opened
    def use(fd, k):
        if k in "fx" and fd not in seen:
            seen.add(fd)
            a({"e": "use", "fd": fd})
    for e in ev:
        k = e["e"]
        if k == "ip":
            a({"e": k, "t": e["t"], "fd": e["fd"], "o": [e["s"], e["i"]], "ps": e["ps"]})
        elif k == "rb":
            a({"e": k, "t": e["t"], "nm": [e["up"], e["pn"]], "s": e["s"]})
        elif k == "open" and e["k"] in "fdx" and e["df"] >= 0 and e["pn"] != ".beeshome":
            seen.discard(e["fd"])
            d = {"e": "dir" if e["k"] == "d" else "open", "t": e["t"], "fd": e["fd"], "nm": e["pn"], "o": [0, e["i"]] if e["k"] == "x" else [e["s"], e["i"]], "nf": e["nf"], "na": e["na"], "rw": e["rw"], "sym": e["rs"] >> 2 & 1, "xd": e["rs"] & 1}
            if e["k"] == "d": d["last"] = [e["up"], e["pn"].split("/")[-1]]
            a(d)
        elif k == "hopen":
            a({"e": "own", "t": e["t"], "fd": e["fd"], "nm": e["pn"], "o": [e["s"], e["i"]]})
        elif k == "openx" and e["k"] == "f" and "pn" in e:
            a({"e": "fail", "t": e["t"], "nm": e["pn"]})
        elif k == "close" and e["k"] in "fdxh":
            seen.discard(e["fd"])
            a({"e": k, "fd": e["fd"]})
        elif k == "rd":
            use(e["fd"], e["k"])
        elif k == "dd":
            use(e["sf"], e["sk"]); use(e["df"], e["dk"])
    return dict(t, ev=out)

def life(t):
    ev = t["ev"]
    out = [{"e": "meta", "timed": int(t["fam"] == "signals")}]
    a = out.append
    for e in ev:
        k = e["e"]
        if k == "start" or k == "crash":
            a({"e": k})
        elif k == "sig" or k == "sigrcv":
            a({"e": "sig" if k == "sig" else "take", "n": e["n"], "s": e["ms"] // 1000})
        elif k == "rest":
            a({"e": k})
        elif k in ("rd", "dd") and e.get("k", "f") in "ft" or k == "open" and e["k"] == "f":
            if out[-1]["e"] != "work": a({"e": "work"})
        elif k == "exit":
            a({"e": k, "st": e["st"], "s": e["ms"] // 1000})
        elif k in ("deadlock", "livelock", "misuse", "died", "ret"):
            a({"e": "bad"})
    return dict(t, ev=out)

def share(t):
    """what is stored where when the filesystem is at rest (only blocks which are wholly within the file)"""
    ev = t["ev"]
    out = [{"e": "meta", "workers": ev[0]["threads"]}]
    a = out.append
    for e in ev:
        k = e["e"]
        if k == "end":
            n = e["sz"] // 4096
            if not (e["nc"] or e["nd"]):
                a({"e": k, "n": n, "c": e["c"][:n], "p": e["p"][:n], "t": e["t"][:n]})
        elif k == "settled":
            a({"e": k, "ok": e["ok"], "exc": e["exc"]})
        elif k in ("u", "start", "exit"):
            a({"e": k})
        elif k == "dd":
            a({"e": k})
        elif k in ("died", "deadlock", "livelock", "misuse"):
            a({"e": k})
    return {"id": t["id"], "ev": out}
