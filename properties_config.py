"""Which entries decide which property: read from harness/src/all.rs.

An entry line there is   #[cfg(feature = "cNN")] h_cNN_name => module::function(bounds);   [// thorough]
Entries marked thorough run only in the thorough tier; entries that also need cfg(division_verif) use the guarded hook.
"""
import os, re

SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/src")
OVERRIDE = {
    "C05": dict(covers={e: [1, 2] for e in ("h_c05_one", "h_c05_two", "h_c05_three", "h_c05_four")}),
}


def describe(call):
    """the call with its parameters named, and the function's own description"""
    m = re.match(r"(\w+)::(\w+)(::<.*?>)?\((.*)\)$", call)
    if not m:
        return call
    mod, fn, ty, args = m.groups()
    try:
        src = open(os.path.join(SRC, mod + ".rs")).read()
    except OSError:
        return call
    f = re.search(r"((?:^[ \t]*///.*\n)*)^[ \t]*pub fn " + fn + r"(?:<[^>]*>)?\(([^)]*)\)", src, re.M)
    if not f:
        return call
    head = re.match(r"//! *(.*)", src)
    doc = " ".join(l.strip()[3:].strip() for l in f.group(1).splitlines()) or (head.group(1) if head else "")
    names = [p.split(":")[0].strip() for p in f.group(2).split(",") if ":" in p]
    vals, depth, cur = [], 0, ""
    for c in args + ",":
        if c == "," and depth == 0:
            vals.append(cur.strip())
            cur = ""
        else:
            depth += (c in "([{") - (c in ")]}")
            cur += c
    named = ", ".join(f"{n}={v}" for n, v in zip(names, vals))
    return f"{mod}::{fn}{ty or ''}({named}): {doc}"


def load():
    cfg = {}
    for line in open(os.path.join(SRC, "all.rs")):
        m = re.match(r'\s*#\[cfg\((.*?feature = "(c\d\d)".*?)\)\] (h_\w+) => (.*);\s*(// thorough)?\s*$', line)
        if not m:
            continue
        cond, feat, name, call, thorough = m.groups()
        c = cfg.setdefault(feat.upper(), dict(quick=[], thorough=[], hooked=[], bounds={}, covers={}))
        c["thorough" if thorough else "quick"].append(name)
        if "division_verif" in cond:
            c["hooked"].append(name)
        c["bounds"][name] = describe(call)
    for p, o in OVERRIDE.items():
        cfg.setdefault(p, {}).update(o)
    return cfg


CONFIG = load()

if __name__ == "__main__":
    for p in sorted(CONFIG):
        print(p)
        for e in CONFIG[p]["quick"] + CONFIG[p]["thorough"]:
            print("  ", e, "(thorough)" if e in CONFIG[p]["thorough"] else "", CONFIG[p]["bounds"][e])
