"""Grouping of the calls made by Rock4 into attempts (book-keeping only).

The right-hand side contains a clock, so the times of the evaluations are known;
an attempt with degree d makes d+4 evaluations at the times base + c_k h, where
c is the tableau of degree d (recovered from the code, and judged elsewhere)."""
import math
import glog


def num(s):
    return float(s.rstrip("d"))


def tables(events):
    """the records of the harness in mode tab, by degree"""
    tabs = {}
    for e in events:
        if e["e"] == "tab":
            tabs[e["d"]] = {"e": "table", "d": e["d"], "A": e["A"], "c": e["c"], "w": [], "stab": []}
    for e in events:
        if e["e"] == "weight":
            tabs[e["d"]]["w"].append({"ratio": e["ratio"], "atol": e["atol"]})
        elif e["e"] == "stab":
            tabs[e["d"]]["stab"].append({"z": e["z"], "R": e["R"], "small": e["small"]})
    return [tabs[d] for d in sorted(tabs)]


class Decoder:
    def __init__(self, tabs):
        self.c = [(t["d"], [num(x) for x in t["c"]]) for t in tabs]

    def decode(self, ts, last):
        """Attempts whose evaluations may be ts[0..]; last: evaluations are complete"""
        out = []
        for d, c in self.c:
            m = d + 4
            if m > len(ts):
                continue
            if not (c[0] < 1):
                continue
            h = (ts[m - 1] - ts[0]) / (1 - c[0])
            base = ts[0] - c[0] * h
            tol = 1e-8 * abs(h) + 1e-14 * abs(ts[m - 1])
            if all(abs(ts[k] - base - c[k] * h) <= tol for k in range(m)):
                out.append((d, h, base, tol))
        return out


def group(events, dec, limit=240, stages=4000):
    rec = []
    i = 0; n = len(events); used = 0
    while i < n:
        e = events[i]
        if e["e"] == "owner":
            rec.append(e); i += 1; continue
        if e["e"] != "start":
            rec.append({"e": "crash"} if e["e"] == "crash" else {"e": "shape", "what": "unexpected " + e["e"]})
            return rec
        st = e; rec.append(dict(e)); i += 1
        body = []
        while i < n and events[i]["e"] not in ("end", "crash", "start", "owner"):
            body.append(events[i]); i += 1
        end = events[i] if i < n else {"e": "crash"}
        i += 1
        g, why = attempts(body, dec, end)
        for k, r in enumerate(g):
            if r["e"] == "try":
                used += r["d"] + 4
            if k >= limit and r["e"] == "prep" or used > stages:
                rec.append({"e": "cut"}); return rec
            rec.append(r)
        if end["e"] != "end":
            rec.append({"e": "crash"}); return rec
        if why:
            rec.append({"e": why}); return rec
        if end["exc"] == 2:
            rec.append({"e": "stopped"}); return rec
        rec.append(end)
        if i < n and events[i]["e"] == "twin":
            rec.append(events[i]); i += 1
        if i < n and events[i]["e"] == "log":
            rec.append(glog.parse(events[i])); i += 1
        while i + 1 < n and events[i]["e"] == "again" and events[i + 1]["e"] == "twin":
            i += 2   # see vlib.reuse
    return rec


def attempts(body, dec, end):
    out = []; j = 0
    exc = end.get("exc", 1)
    if not body or body[0]["e"] != "F":
        return out, "shape"
    f = body[0]
    out.append({"e": "F0", "y": f["y"], "r": f["r"], "in": f["in"], "out": f["out"]})
    j = 1
    base = num(f["y"][-1]); h = None
    while j < len(body):
        if body[j]["e"] == "R":
            out.append({"e": "R", "rho": body[j]["rho"]}); j += 1; continue
        fs = []
        k = j
        while k < len(body) and body[k]["e"] == "F":
            fs.append(body[k]); k += 1
        ts = [num(x["y"][-1]) for x in fs[:160]]
        if any(t != t or abs(t) == float("inf") for t in ts):
            return out, "shape"
        cand = dec.decode(ts, k == len(body))
        good = []
        for d, hh, b, tol in cand:
            t2 = 4 * tol + 1e-13 * max(abs(b), abs(base))
            stay = abs(b - base) <= t2
            go = h is not None and abs(b - base - h) <= t2
            if hh > 100 * t2 and (stay != go or (h is None and stay)):
                good.append((d, hh, b, go))
            elif hh > 0 and (stay or go):
                return out, "blur"
        if len(good) > 1:
            # an attempt looks like the beginning of a longer one
            return out, "blur"
        if not good:
            # too small to be seen, interrupted, or not the method
            sp = abs(ts[min(4, len(ts) - 1)] - ts[0])
            if exc == 2 and len(ts) < 160:
                return out, None
            return out, "blur" if sp < 1e-9 * abs(ts[0]) + 1e-300 else "shape"
        d, hh, b, go = good[0]
        m = d + 4
        out.append({"e": "prep", "d": d, "h": "%.17gd" % hh, "base": "%.17gd" % b, "go": go})
        out.append({"e": "try", "d": d, "h": "%.17gd" % hh, "k": [{x: a[x] for x in ("y", "r", "in", "out")} for a in fs[:m]]})
        base, h = b, hh
        j += m
    return out, None
