"""Grouping of the calls made by Rodascc into records of the trace specification.

Only book-keeping: nothing is judged here.  What cannot be grouped becomes a
record "shape", which the specification refuses."""


import glog


def split_traces(events):
    out = []
    for e in events:
        if e["e"] == "trace":
            out.append([])
        elif out:
            out[-1].append(e)
        else:
            out.append([e])
    return out


def diffs(a, b):
    return [i for i in range(len(a)) if a[i] != b[i] and not ("n" in a[i] and "n" in b[i])]


def group(events, limit=120):
    """One history (several integrations) -> records."""
    rec = []
    i = 0
    n = len(events)
    while i < n:
        e = events[i]
        if e["e"] != "start":
            rec.append({"e": "shape", "what": "unexpected " + e["e"]})
            return rec
        st = e
        rec.append(dict(st))
        if st.get("long"):
            limit = 700
        i += 1
        # body
        body = []
        while i < n and events[i]["e"] not in ("end", "crash", "start"):
            body.append(events[i]); i += 1
        end = events[i] if i < n else {"e": "crash"}
        i += 1
        groups, why = group_body(st, body, end)
        if len(groups) > limit:
            rec.extend(groups[:limit])
            rec.append({"e": "cut"})
            return rec
        rec.extend(groups)
        if why:
            # an integration stopped by the observer is cut anywhere
            rec.append({"e": "stopped"} if end["e"] == "end" and end.get("exc") == 2 else
                       {"e": "cut"} if end["e"] == "end" and end.get("exc") == 3 else
                       {"e": "crash"} if end["e"] != "end" else {"e": "shape", "what": why})
            return rec
        if end["e"] != "end":
            rec.append({"e": "crash"})
            return rec
        if end["exc"] >= 2:
            rec.append({"e": "stopped" if end["exc"] == 2 else "cut"})
            return rec
        rec.append(end)
        if i < n and events[i]["e"] == "twin":
            rec.append(events[i]); i += 1
        if i < n and events[i]["e"] == "log":
            rec.append(glog.parse(events[i])); i += 1
        while i + 1 < n and events[i]["e"] == "again" and events[i + 1]["e"] == "twin":
            i += 2   # see vlib.reuse
    return rec


def group_body(st, b, end):
    n = st["n"]; out = []; i = 0; m = len(b)
    need_time = (not st["auton"])
    exc = end.get("exc", 1) != 0
    while i < m:
        # is this the beginning of a step?
        if b[i]["e"] != "F":
            return out, "call %d is not an evaluation of F" % i
        g, j, why = try_begin(st, b, i)
        if g is None:
            a = b[i:i + 5]
            if len(a) == 5 and all(x["e"] == "F" for x in a) and out:
                out.append({"e": "try", "s": [{"t": x["t"], "y": x["y"], "r": x["r"]} for x in a]})
                i += 5
                continue
            return out, why or "incomplete attempt"
        out.append(g)
        i = j
        # an attempt follows a beginning, unless an exception was thrown
        a = b[i:i + 5]
        if len(a) == 5 and all(x["e"] == "F" for x in a):
            out.append({"e": "try", "s": [{"t": x["t"], "y": x["y"], "r": x["r"]} for x in a]})
            i += 5
        elif a:
            return out, "incomplete attempt"
    return out, None


def try_begin(st, b, i):
    """F(x,Y), then the Jacobian and the derivative in time, in any order."""
    n = st["n"]; f = b[i]
    g = {"e": "begin", "t": f["t"], "y": f["y"], "f": f["r"], "cols": [], "J": [], "ft": []}
    j = i + 1
    want_cols = n if st["numj"] else 0
    want_j = 0 if st["numj"] else 1
    want_t = 0 if st["auton"] else 1
    cols = {}
    while j < len(b) and (want_cols or want_j or want_t):
        e = b[j]
        if e["e"] == "J" and want_j:
            g["J"] = [{"t": e["t"], "y": e["y"], "f": e["f"], "J": e["J"]}]; want_j = 0
        elif e["e"] == "T" and want_t and st["dft"]:
            g["ft"] = [{"t": e["t"], "y": e["y"], "r": e["r"]}]; want_t = 0
        elif e["e"] == "F":
            d = diffs(e["y"], f["y"])
            if want_cols and len(d) == 1 and e["t"] == f["t"] and d[0] not in cols:
                cols[d[0]] = {"t": e["t"], "y": e["y"], "r": e["r"]}; want_cols -= 1
            elif want_t and not st["dft"] and not d and e["t"] != f["t"]:
                g["ft"] = [{"t": e["t"], "y": e["y"], "r": e["r"]}]; want_t = 0
            else:
                return None, i, "evaluation %d is neither a column of the Jacobian nor a time difference" % j
        else:
            return None, i, "unexpected " + e["e"]
        j += 1
    if want_cols or want_j or want_t:
        return None, i, "step begin is incomplete"
    g["cols"] = [cols[k] for k in sorted(cols)]
    # a fully analytic autonomous problem has nothing after F: J is always there
    return g, j, None
