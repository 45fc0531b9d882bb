"""Text of an event log -> records (no judgement: what cannot be read is said so)."""
import re

LINE = re.compile(r"^(\d+) Time: (\S+) step: (-?\d+) Event: (\w+)(?: new step: (\S+))?$")


def number(s, exact):
    if not re.match(r"^-?[0-9.]+(e[-+]?[0-9]+)?$", s, re.I):
        return "nan"
    return s + "d" if exact else s


def lines(text, exact):
    out = []
    if text and not text.endswith("|"):
        return None
    for l in text.split("|")[:-1]:
        m = LINE.match(l)
        if not m:
            return None
        ev = m.group(4)
        if (m.group(5) is not None) != (ev in ("changedH", "rejectedStep")):
            return None
        out.append({"no": int(m.group(1)), "t": number(m.group(2), exact), "n": int(m.group(3)), "ev": ev,
                    "v": number(m.group(5), exact) if m.group(5) is not None else "nan"})
    return out


def parse(e):
    r = {"e": "log", "exact": e["exact"], "same": e["same"], "cleared": e["cleared"], "read": True}
    r["all"] = lines(e["all"], e["exact"])
    r["by"] = [lines(x, e["exact"]) for x in e["by"]]
    if r["all"] is None or any(x is None for x in r["by"]):
        r["read"] = False; r["all"] = []; r["by"] = []; r["text"] = e["all"][:300]
    return r
