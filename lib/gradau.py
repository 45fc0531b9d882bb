"""Grouping of the calls made by Radau5cc into records of the trace specification.

Only book-keeping: nothing is judged here.  What cannot be grouped becomes a
record "shape", which the specification refuses."""
import math
import glog
from grodas import split_traces, diffs


def isnan(t):
    return "n" in t


def val(e):
    return {"t": e["t"], "y": e["y"], "r": e["r"]}


def group(events, limit=90):
    rec = []
    i = 0
    n = len(events)
    while i < n:
        e = events[i]
        if e["e"] == "refuse":
            rec.append(e); i += 1
            continue
        if e["e"] != "start":
            rec.append({"e": "shape", "what": "unexpected " + e["e"]})
            return rec
        st = e
        rec.append(dict(st))
        if st.get("long"):
            limit = 700
        i += 1
        body = []
        while i < n and events[i]["e"] in ("F", "J"):
            body.append(events[i]); i += 1
        end = events[i] if i < n else {"e": "crash"}
        i += 1
        groups, why = group_body(st, body)
        if len(groups) > limit:
            rec.extend(groups[:limit])
            rec.append({"e": "cut"})
            return rec
        rec.extend(groups)
        if why == "blur" and end["e"] == "end" and end.get("exc") < 2:
            rec.append({"e": "blur"})
        elif end["e"] == "end" and end.get("exc") == 2:
            rec.append({"e": "stopped"})
            return rec
        elif end["e"] == "end" and end.get("exc") == 3:
            rec.append({"e": "cut"})
            return rec
        elif end["e"] != "end":
            rec.append({"e": "crash"})
            return rec
        elif why:
            rec.append({"e": "shape", "what": why})
            return rec
        rec.append(end)
        if i < n and events[i]["e"] == "twin":
            rec.append(events[i]); i += 1
        if i < n and events[i]["e"] == "log":
            rec.append(glog.parse(events[i])); i += 1
        while i + 1 < n and events[i]["e"] == "again" and events[i + 1]["e"] == "twin":
            i += 2   # see vlib.reuse
    return rec


def columns(st, b, i, y, t):
    """n evaluations at time t, each differing from y in one component: the columns."""
    n = st["n"]
    if not st["numj"]:
        return None, i
    c = b[i:i + n]
    if len(c) < n or any(e["e"] != "F" or e["t"] != t for e in c):
        return None, i
    for j, e in enumerate(c):
        d = diffs(e["y"], y)
        if len(d) > 1 or (len(d) == 1 and d[0] != j):
            return None, i
        if not d and not isnan(y[j]):
            return None, i
    if n == 1:
        # one evaluation near y: a column, or that of the error estimate
        yy = float(y[0][:-1]) if y[0].endswith("d") else float(y[0])
        dy = abs(float(c[0]["y"][0].rstrip("d")) - yy) if not isnan(y[0]) and not isnan(c[0]["y"][0]) else float("nan")
        de = math.sqrt(1e-16 * max(1e-5, abs(yy)))
        if not (0.5 * de <= dy <= 2 * de):
            return None, i
    return [val(e) for e in c], i + n


def group_body(st, b):
    out = []; i = 0; m = len(b)
    base = None
    xph = None      # end of the step of the last attempt
    while i < m:
        e = b[i]
        if e["e"] != "F":
            return out, "unexpected " + e["e"]
        if base is None or (xph is not None and e["t"] == xph and not isnan(xph)):
            # the current point
            base = e
            g = {"e": "begin", "t": e["t"], "y": e["y"], "f": e["r"], "cols": [], "J": []}
            i += 1
            c, i2 = columns(st, b, i, base["y"], base["t"])
            if c is not None:
                g["cols"] = c; i = i2
            elif i < m and b[i]["e"] == "J":
                j = b[i]
                g["J"] = [{"t": j["t"], "y": j["y"], "f": j["f"], "J": j["J"]}]; i += 1
            out.append(g)
            xph = None
            continue
        # an attempt
        its = []
        t3 = None
        while i < m and b[i]["e"] == "F" and (isnan(b[i]["t"]) or (b[i]["t"] != base["t"] and (t3 is None or b[i]["t"] != t3))):
            t = b[i:i + 3]
            if len(t) < 3 or any(x["e"] != "F" for x in t):
                return out, "incomplete iteration"
            if t[2]["t"] == base["t"] or t[0]["t"] == base["t"] or t[0]["t"] == t[2]["t"] and not isnan(t[0]["t"]):
                return out, "blur"
            if t3 is not None and t[2]["t"] != t3:
                break
            if isnan(t[0]["t"]) and len(its) >= st["nit"]:
                break
            t3 = t[2]["t"]
            its.append([val(x) for x in t])
            i += 3
            if isnan(t3) and len(its) == 2:
                break       # the rate of convergence is not a number: a failure
        if not its:
            if float(e["t"].rstrip("d")) == float(base["t"].rstrip("d")):
                # perhaps a step which is below rounding
                return out, "blur"
            return out, "evaluation %d is not that of an iteration" % i
        g = {"e": "att", "it": its, "est": [], "cols": [], "J": []}
        xph = t3
        c, i2 = columns(st, b, i, base["y"], base["t"])
        if c is None and i < m and b[i]["e"] == "F" and b[i]["t"] == base["t"]:
            g["est"] = [val(b[i])]; i += 1
            c, i2 = columns(st, b, i, base["y"], base["t"])
        if c is not None:
            g["cols"] = c; i = i2
        elif i < m and b[i]["e"] == "J":
            j = b[i]
            g["J"] = [{"t": j["t"], "y": j["y"], "f": j["f"], "J": j["J"]}]; i += 1
        out.append(g)
    return out, None
