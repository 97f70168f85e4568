"""Checks of the tokenizer properties."""
import json, re
from .core import *


def text(cs):
    return "".join(chr(c) for c in cs)


def lex_gen(c, name, **kw):
    args = [f"cmd=gen", f"out={c.path(name)}.pat"] + [f"{k}={v}" for k, v in kw.items()]
    if "seed" not in kw:
        args.append(f"seed={c.seed}")
    c.harness("lex", *args)


def lex_run(c, name, **kw):
    """records real executions for the pattern lists in name.pat; False if the code hung or died (already reported)"""
    b = c.path(name)
    try:
        hang, _ = c.harness("lex", "cmd=run", f"in={b}.pat", f"out={b}.g", f"runs={b}.r", *[f"{k}={v}" for k, v in kw.items()])
    except Died as d:
        c.violation(f"{name}: the process died while tokenizing", {"out": d.out, "rc": d.rc, "cmd": d.cmd})
        return False
    if hang:
        c.violation(f"{name}: tokenizing does not end", {"hang": hang})
        return False
    return True


def describe(c, name, run):
    g = lines(c.path(name) + ".g", [run["g"]])[run["g"]]
    return {"patterns": g["w"], "input": text(run["s"]), "input_chars": run["s"],
            "tokens": [{"pattern": t["p"], "text": text(t["x"]), "items": t["i"], "pulled": t["u"]} for t in run["t"]][:50],
            "end": run["e"], "pulled": run["u"], "mode": run["m"]}


def lex_validate(c, name, focus, known=None):
    """LexTrace on everything recorded under name"""
    b = c.path(name)
    f = list(focus) + ["-"] * (3 - len(focus))
    n = count_lines(b + ".r")
    if n == 0:
        return []
    r = c.tlc("LexTrace", env={"V_GROUPS": b + ".g", "V_RUNS": b + ".r", "V_F1": f[0], "V_F2": f[1], "V_F3": f[2]}, name="LexTrace_" + name)
    if not r.ok:
        raise ToolError("LexTrace failed: " + r.out[-3000:])
    c.traces += n
    rej = rejects(r)
    runs = lines(b + ".r", [x[0] for x in rej[:200]] + [min(n, 7), min(n, 40)])
    for i in (min(n, 7), min(n, 40)):
        d = describe(c, name, runs[i])
        c.sample({"stage": name, "patterns": d["patterns"][:4], "input": d["input"][:60], "tokens": [(t["pattern"], t["text"][:20]) for t in d["tokens"][:8]], "end": d["end"]})
    for cid, kinds, k in rej[:200]:
        d = describe(c, name, runs[cid])
        if known and known(d):
            continue
        c.violation(f"{name}: {'/'.join(kinds)} after {k} tokens: patterns {d['patterns'][:6]} input {d['input'][:80]!r} gave {[(t['pattern'], t['text'][:20]) for t in d['tokens'][:8]]}", dict(d, kinds=kinds, step=k))
    return rej


def lex_builds(c, name):
    """lists of supported patterns that did not build"""
    with open(c.path(name) + ".g") as f:
        for l in f:
            g = json.loads(l)
            if g["b"] != "ok":
                c.violation(f"{name}: patterns {g['w'][:6]} do not build: {g['b'][:200]}", {"patterns": g["w"], "build": g["b"]})


def dfa_equiv(c, name, times=1):
    """product of the real tables with the residual automaton; disagreements are confirmed on the real tokenizer"""
    b = c.path(name)
    try:
        hang, _ = c.harness("dfatab", f"in={b}.pat", f"out={b}.tab", f"times={times}")
    except Died:
        hang = "died"
    if hang or count_lines(b + ".tab") == 0:
        c.stages.append({"tables": name, "skipped": "tables not available"})
        return
    r = c.tlc("DfaEquiv", env={"V_TABS": b + ".tab"}, name="DfaEquiv_" + name)
    if not r.ok:
        # a table whose shape this module does not understand: the behavioural checks decide
        c.stages.append({"tables": name, "skipped": "table representation not understood"})
        return
    c.extra["tables_compared_for_all_inputs"] = c.extra.get("tables_compared_for_all_inputs", 0) + count_lines(b + ".tab")
    mism = []
    for t in r.prints("MISMATCH"):
        m = re.match(r"(\d+), <<(.*)>>$", t)
        mism.append((int(m.group(1)), [int(x) for x in m.group(2).split(",") if x.strip()]))
    if mism:
        # a disagreement of the tables is reported only if the real tokenizer shows it on an input
        groups = lines(b + ".pat", [m[0] for m in mism])
        n = 0
        for tag, many, rebuild in (("_w", 300, 0), ("_v", 8, 150)):
            with open(b + tag + ".pat", "w") as f:
                for g, w in mism[:many]:
                    d = dict(groups[g])
                    d["in"] = [w] * (1 if rebuild == 0 else 40)
                    f.write(json.dumps(d) + "\n")
            if not n and lex_run(c, name + tag, rebuild=rebuild):
                n = len(lex_validate(c, name + tag, ["member", "first", "longest"]))
        c.stages.append({"tables": name, "disagreements": len(mism), "confirmed": n})


def lex_stage(c, name, focus, gen, run=None, tables=False, builds=False):
    if c.viol:
        return
    lex_gen(c, name, **gen)
    if not lex_run(c, name, **(run or {})):
        return
    if builds:
        lex_builds(c, name)
    lex_validate(c, name, focus)
    if tables:
        dfa_equiv(c, name)


def known_f3(c):
    """Listed finding: an expression that contains the empty expression matches any text."""
    want = [l.split(None, 2)[2].strip() for l in open(os.path.join(VERIF, "known-findings.txt")) if l.startswith("known: property=C01 ")]
    cases = []
    for w in want:
        m = re.match(r"pattern=(\"(?:[^\"\\]|\\.)*\") input=(\"(?:[^\"\\]|\\.)*\")", w)
        cases.append((json.loads(m.group(1)), json.loads(m.group(2)), w))
    if not cases:
        return
    with open(c.path("known.pat"), "w") as f:
        for p, s, _ in cases:
            f.write(json.dumps({"p": [["r", 0, 0, ["c", [[97, 97]]]]], "w": [p], "k": "known", "in": [[ord(x) for x in s]]}) + "\n")
    if not lex_run(c, "known"):
        return
    with open(c.path("known.r")) as f:
        for (p, s, w), l in zip(cases, f):
            r = json.loads(l)
            if any(t["x"] for t in r["t"]):
                c.known.append(w)


def lex_bins(c, tables=False):
    c.cargo(["lex"])
    if tables:
        return c.cargo(["dfatab"], must=False)
    return False


def C01():
    c = Check("C01")
    tab = lex_bins(c, True)
    f = ["member", "panic"]
    lex_stage(c, "fixed", f, dict(mode="fixed"), tables=tab, builds=True)
    lex_stage(c, "rand", f, dict(mode="rand", n=c.pick(250, 4000)), tables=tab, builds=True)
    lex_stage(c, "stress", f, dict(mode="stress", n=c.pick(1, 4)), tables=tab, builds=True)
    lex_stage(c, "enum", f, dict(mode="enum", nodes=c.pick(4, 5), step=c.pick(2, 4), len=4), tables=tab, builds=True)
    lex_stage(c, "text", f, dict(mode="text", n=c.pick(200, 4000)), tables=tab, builds=True)
    lex_stage(c, "uni", f, dict(mode="uni", n=c.pick(2, 8)), builds=True)
    lex_stage(c, "twins", f, dict(mode="twins", n=c.pick(20, 200)), builds=True)
    if not c.quick:
        lex_stage(c, "rand2", f, dict(mode="rand", n=4000, seed=c.seed + 1000, maxlen=80), tables=tab, builds=True)
        lex_stage(c, "pairs", f, dict(mode="pairs"), tables=tab, builds=True)
    # patterns whose automata depended on hash order: many rebuilds
    with open(c.path("rebuild.pat"), "w") as o:
        for w, p in REBUILD:
            o.write(json.dumps({"p": [p], "w": [w], "k": "rebuild", "in": rebuild_inputs()}) + "\n")
    if lex_run(c, "rebuild", rebuild=c.pick(3000, 30000)):
        dedupe(c, "rebuild")
        lex_validate(c, "rebuild", f)
    c.model("MCRegex")
    c.model("MCAutomata")
    if not c.quick:
        c.refuted("MCAutomata", "MCAutomataF1", "Agree")
    known_f3(c)
    c.assumptions += ["pattern lists are sampled; per list the table product covers every input of any length"]
    return c.finish()


A, B, X = ["c", [[97, 97]]], ["c", [[98, 98]]], ["c", [[120, 120]]]
AB, ABC = ["c", [[97, 98]]], ["c", [[97, 99]]]


def _cat(*v):
    r = v[-1]
    for x in reversed(v[:-1]):
        r = ["s", x, r]
    return r


REBUILD = [("x([ab][abc])*[ab]?", _cat(X, ["r", 0, -1, _cat(AB, ABC)], ["r", 0, 1, AB])),
           ("x([abc][ab])*[abc]?", _cat(X, ["r", 0, -1, _cat(ABC, AB)], ["r", 0, 1, ABC])),
           ("x(a[abc]|b[ab])*[ab]?", _cat(X, ["r", 0, -1, ["o", _cat(A, ABC), _cat(B, AB)]], ["r", 0, 1, AB]))]


def rebuild_inputs():
    out = []
    for s in ["x", "xa", "xac", "xab", "xaba", "xacb", "xacc", "xaca", "xc", "xabab", "xacac", "xacacb"]:
        out.append([ord(ch) for ch in s])
    return out


def dedupe(c, name):
    p = c.path(name) + ".r"
    seen = {}
    with open(p) as f:
        for l in f:
            seen.setdefault(l, None)
    with open(p, "w") as f:
        f.writelines(seen)


def std(pid, focus, quick_rand=300):
    c = Check(pid)
    lex_bins(c)
    f = focus + ["panic"]
    lex_stage(c, "fixed", f, dict(mode="fixed"))
    lex_stage(c, "rand", f, dict(mode="rand", n=c.pick(quick_rand, 5000)))
    lex_stage(c, "pairs", f, dict(mode="pairs", nodes=c.pick(2, 3) if pid != "C05" else 2))
    lex_stage(c, "stress", f, dict(mode="stress", n=c.pick(1, 4), big=c.pick(1500, 3000)))
    lex_stage(c, "huge", f, dict(mode="huge"))
    lex_stage(c, "history", f, dict(mode="history", n=c.pick(90, 2000)))
    lex_stage(c, "text", f, dict(mode="text", n=c.pick(100, 2000)))
    if not c.quick:
        lex_stage(c, "rand2", f, dict(mode="rand", n=5000, seed=c.seed + 1000, maxlen=100, inputs=8))
    c.model("MCLexer")
    return c


def C02():
    return std("C02", ["longest"]).finish()


def C03():
    return std("C03", ["first"]).finish()


def C04():
    return std("C04", ["tile"]).finish()


def C05():
    return std("C05", ["pull"]).finish()


def overlap(c, name):
    b = c.path(name)
    r = c.tlc("Overlap", env={"V_GROUPS": b + ".g"}, name="Overlap_" + name)
    if not r.ok:
        raise ToolError("Overlap failed " + r.out[-2000:])
    pairs = {}
    for t in r.prints("PAIR"):
        m = re.match(r"(\d+), (\d+), (\d+), <<(.*)>>$", t)
        w = [int(x) for x in m.group(4).split(",") if x.strip()]
        pairs.setdefault(int(m.group(1)), {}).setdefault((int(m.group(2)), int(m.group(3))), w)
    with open(b + ".g") as f:
        for i, l in enumerate(f, 1):
            g = json.loads(l)
            if g["b"] != "ok":
                continue
            got = set()
            for w in g["warn"]:
                ns = [int(x) for x in re.findall(r"\d+", w)]
                got.add(tuple(sorted(ns[:2], reverse=True)) if len(ns) >= 2 else ("?", w))
            want = pairs.get(i, {})
            c.traces += 1
            if i % 97 == 1:
                c.sample({"stage": name, "patterns": g["w"][:6], "reported": sorted(map(str, got)), "spec": sorted(map(str, want))})
            for p in sorted(set(want) - got):
                c.violation(f"{name}: patterns {g['w'][:8]}: {p[1]} and {p[0]} both match {text(want[p])!r} but no warning says so", {"patterns": g["w"], "pair": p, "shared": text(want[p]), "warnings": g["warn"]})
            for p in sorted(got - set(want), key=str):
                c.violation(f"{name}: patterns {g['w'][:8]}: warning {p} although no string is matched by both (and none between)", {"patterns": g["w"], "pair": str(p), "warnings": g["warn"]})


def C07():
    c = Check("C07")
    lex_bins(c)
    for name, gen in [("fixed", dict(mode="fixed")), ("pairs", dict(mode="pairs", nodes=c.pick(2, 3))),
                      ("rand", dict(mode="rand", n=c.pick(900, 8000))), ("stress", dict(mode="stress", n=c.pick(1, 4))),
                      ("text", dict(mode="text", n=c.pick(300, 4000)))]:
        lex_gen(c, name, **gen)
        # the inputs are not needed here
        b = c.path(name) + ".pat"
        rows = [json.loads(l) for l in open(b)]
        with open(b, "w") as f:
            for d in rows:
                d["in"] = []
                f.write(json.dumps(d) + "\n")
        if lex_run(c, name):
            overlap(c, name)
    c.model("MCLexer")
    c.assumptions.append("warnings are read through their Debug output, as no public type names them")
    return c.finish()


def C06():
    c = Check("C06")
    lex_bins(c)
    for name, kw in [("support", dict(mode="support", n=c.pick(4000, 60000))), ("stress", dict(mode="stress")), ("rand", dict(mode="rand", n=c.pick(300, 3000))), ("text", dict(mode="text", n=c.pick(600, 8000)))]:
        lex_gen(c, name, **kw)
        b = c.path(name)
        rows = [json.loads(l) for l in open(b + ".pat")]
        with open(b + ".pat", "w") as f:
            for d in rows:
                d["in"] = []
                f.write(json.dumps(d) + "\n")
        if not lex_run(c, name):
            continue
        gs = [json.loads(l) for l in open(b + ".g")]
        with open(b + ".v", "w") as f:
            for g in gs:
                v = "ok" if g["b"] == "ok" else g["b"].split(":")[0]
                f.write(json.dumps({"p": g["p"], "v": v}) + "\n")
        r = c.tlc("Support", env={"V_GROUPS": b + ".v"}, name="Support_" + name)
        if not r.ok:
            raise ToolError("Support failed " + r.out[-3000:])
        c.traces += len(gs)
        for i in (3, 30, 300):
            if i < len(gs):
                c.sample({"stage": name, "patterns": gs[i]["w"][:5], "build": gs[i]["b"][:60]})
        for g, kinds, _ in rejects(r):
            d = gs[g - 1]
            c.violation(f"{name}: patterns {d['w'][:8]}: build result is {d['b'][:120]}", {"patterns": d["w"], "build": d["b"]})
    c.assumptions.append("regex-syntax decides what is a valid regular expression; the list of constructs per class is given in harness/src/bin/lex.rs")
    return c.finish()


def same(c, name, ext, b, procs, args, tool):
    """rebuilds in several processes and compares all observations"""
    merged = {}
    for p in range(procs):
        out = f"{b}.{p}.obs"
        try:
            hang, _ = c.harness(tool, "cmd=rebuild", f"in={b}.{ext}", f"out={out}", *args, timeout=3000)
        except Died as d:
            c.violation(f"{name}: the process died", {"out": d.out})
            return
        if hang:
            c.violation(f"{name}: {hang[:300]}", {"hang": hang})
            return
        with open(out) as f:
            for l in f:
                d = json.loads(l)
                merged.setdefault(d["g"], []).extend(d["o"])
    src = [json.loads(l) for l in open(f"{b}.{ext}")]
    with open(b + ".same", "w") as f:
        for g in sorted(merged):
            f.write(json.dumps({"g": g, "o": merged[g]}) + "\n")
    r = c.tlc("Same", env={"V_GROUPS": b + ".same"}, name="Same_" + name)
    if not r.ok:
        raise ToolError("Same failed " + r.out[-2000:])
    n = int(next(a.split("=")[1] for a in args if a.startswith("times=")))
    c.traces += n * procs * len(merged)
    c.builds += n * procs * len(merged)
    keys = sorted(merged)
    for g, _, k in rejects(r)[:50]:
        d = src[g - 1]
        what = d.get("w") or d.get("g")
        obs = merged[keys[g - 1]]
        c.violation(f"{name}: {str(what)[:300]}: two builds differ: {obs[0][:150]} ... and {obs[k - 1][:150]}", {"source": {x: d[x] for x in d if x != "in"}, "first": obs[0], "other": obs[k - 1]})
    c.sample({"stage": name, "built": str(src[0].get("w") or src[0].get("g"))[:150], "observation": merged[keys[0]][0][:300]})


def C08():
    from . import lr
    c = Check("C08")
    lex_bins(c)
    lr.lr_bins(c)
    q = c.quick
    for name, kw, n in [("fixed", dict(mode="fixed"), c.pick(12, 100)), ("rand", dict(mode="rand", n=c.pick(250, 2000), cover=12, inputs=2), c.pick(20, 100)),
                        ("pairs", dict(mode="pairs", nodes=2, len=3), c.pick(8, 40))]:
        lex_gen(c, name, **kw)
        same(c, name, "pat", c.path(name), 3, [f"times={n}", "inputs=16"], "lex")
    with open(c.path("sens.pat"), "w") as o:
        for w, p in REBUILD:
            o.write(json.dumps({"p": [p], "w": [w], "k": "rebuild", "in": rebuild_inputs()}) + "\n")
        o.write(json.dumps({"p": [], "w": ["[a-c]+", "[b-d]+", "ab|bc", "a[b-d]*", "[a-d]"], "k": "rebuild", "in": rebuild_inputs()}) + "\n")
    same(c, "sens", "pat", c.path("sens"), 3, [f"times={c.pick(2500, 30000)}", "inputs=16"], "lex")
    for name, kw in lr.stages(c, ["fixed", "fixedc", "fixede", "nest", "rand", "randc", "rande", "randec", "tinyc", "alts"], alts=dict(n=c.pick(60, 600)), nest=dict(n=c.pick(80, 800)), rand=dict(n=c.pick(60, 500)), randc=dict(n=c.pick(120, 1000)), rande=dict(n=c.pick(100, 1000)), randec=dict(n=c.pick(80, 800)), tinyc=dict(n=c.pick(80, 1000))):
        lr.lr_gen(c, name + "_p", **kw)
        same(c, name + "_p", "gram", c.path(name + "_p"), 3, [f"times={c.pick(30 if name == 'alts' else 14, 60)}", "inputs=30"], "lr")
    return c.finish()
