"""Checks of the parser properties."""
import json, re
from .core import *


def gname(x):
    return "ERR" if x == -1 else ("N%d" % (x - 1000) if x >= 1000 else "t%d" % x)


def show(g):
    return "; ".join(gname(l) + " -> " + " ".join(gname(x) for x in r) for l, r in g["g"]) + " [start %s]" % gname(g["st"])


def lr_gen(c, name, **kw):
    args = ["cmd=gen", f"out={c.path(name)}.gram"] + [f"{k}={v}" for k, v in kw.items()]
    if "seed" not in kw:
        args.append(f"seed={c.seed}")
    c.harness("lr", *args)


def lr_run(c, name, **kw):
    if len(c.viol) >= 20:
        return False
    b = c.path(name)
    try:
        hang, _ = c.harness("lr", "cmd=run", f"in={b}.gram", f"out={b}.g", f"runs={b}.r", *[f"{k}={v}" for k, v in kw.items()])
    except Died as d:
        c.violation(f"{name}: the process died while parsing", {"out": d.out, "rc": d.rc, "cmd": d.cmd})
        return False
    if hang:
        c.violation(f"{name}: parsing does not end: {hang[:400]}", {"hang": hang})
        return False
    return True


def lr_builds(c, name):
    with open(c.path(name) + ".g") as f:
        for l in f:
            g = json.loads(l)
            if g["b"] != "ok":
                c.violation(f"{name}: grammar {show(g)} does not build: {g['b'][:200]}", {"grammar": show(g), "build": g["b"]})


def tables(c, name):
    """canonical LR(1) tables of every grammar, computed by TLC from the specification"""
    b = c.path(name)
    out = b + ".tabs"
    os.makedirs(out)
    r = c.tlc("LRGen", env={"V_GROUPS": b + ".g", "V_OUT": out}, name="LRGen_" + name)
    if not r.ok:
        raise ToolError("LRGen failed: " + r.out[-3000:])
    n = count_lines(b + ".g")
    with open(b + ".tab", "w") as f:
        for i in range(1, n + 1):
            f.write(open(f"{out}/{i}.json").read().strip() + "\n")
    shutil.rmtree(out)


def filter_runs(c, name, keep):
    """drops runs whose group does not satisfy keep"""
    b = c.path(name)
    ok = {}
    with open(b + ".g") as f:
        for i, l in enumerate(f, 1):
            ok[i] = keep(json.loads(l))
    out = []
    with open(b + ".r") as f:
        for l in f:
            if ok[int(re.match(r'\{"g":(\d+)', l).group(1))]:
                out.append(l)
    with open(b + ".r", "w") as f:
        f.writelines(out)


def describe(c, name, run):
    g = lines(c.path(name) + ".g", [run["g"]])[run["g"]]
    return {"grammar": show(g), "rules": g["g"], "start": g["st"], "input": run["s"], "fault": run["f"],
            "calls": [{"rule": e["r"], "kinds": e["k"], "args": e["a"], "pulls": e["n"]} for e in run["ev"][:60]],
            "end": run["e"], "value": run["v"], "pulls": run["n"]}


def judge(c, name, module, focus, r, n):
    if not r.ok:
        raise ToolError(f"{module} failed on {name}: " + r.out[-3000:])
    c.traces += n
    b = c.path(name)
    rej = rejects(r)
    some = [min(n, 5), min(n, 33)]
    runs = lines(b + ".r", [x[0] for x in rej[:100]] + some)
    for i in some:
        d = describe(c, name, runs[i])
        c.sample({"stage": name, "grammar": d["grammar"][:200], "input": d["input"][:30], "reducer_calls": [x["rule"] for x in d["calls"][:20]], "end": d["end"], "pulls": d["pulls"]})
    for cid, kinds, k in rej[:100]:
        d = describe(c, name, runs[cid])
        c.violation(f"{name}: {'/'.join(kinds)}: grammar {d['grammar'][:300]} input {d['input'][:40]} gave calls {[x['rule'] for x in d['calls'][:30]]} end {d['end']} pulls {d['pulls']}", dict(d, kinds=kinds, step=k))
    return rej


def lr_trace(c, name, focus):
    b = c.path(name)
    n = count_lines(b + ".r")
    if n == 0:
        return []
    f = list(focus) + ["-"] * (4 - len(focus))
    r = c.tlc("LRTrace", env={"V_TABS": b + ".tab", "V_RUNS": b + ".r", "V_F1": f[0], "V_F2": f[1], "V_F3": f[2], "V_F4": f[3]}, name="LRTrace_" + name)
    return judge(c, name, "LRTrace", focus, r, n)


def derive(c, name, focus):
    b = c.path(name)
    n = count_lines(b + ".r")
    if n == 0:
        return []
    f = list(focus) + ["-"] * (3 - len(focus))
    r = c.tlc("DeriveTrace", env={"V_GROUPS": b + ".g", "V_RUNS": b + ".r", "V_F1": f[0], "V_F2": f[1], "V_F3": f[2]}, name="DeriveTrace_" + name)
    return judge(c, name, "DeriveTrace", focus, r, n)


def tab_equiv(c, name, confirm):
    """product of real and specified tables; a difference is reported only if `confirm` finds a real input showing it"""
    b = c.path(name)
    try:
        hang, _ = c.harness("lrtab", f"in={b}.gram", f"out={b}.real")
    except (Died, ToolError):
        hang = "died"
    if hang or count_lines(b + ".real") == 0:
        c.stages.append({"tables": name, "skipped": "tables not available"})
        return
    r = c.tlc("TabEquiv", env={"V_TABS": b + ".tab", "V_REAL": b + ".real"}, name="TabEquiv_" + name)
    if not r.ok:
        c.stages.append({"tables": name, "skipped": "tables not understood"})
        return
    c.extra["parser_tables_compared_for_all_inputs"] = c.extra.get("parser_tables_compared_for_all_inputs", 0) + count_lines(b + ".real")
    mism = {}
    for t in r.prints("MISMATCH"):
        m = re.match(r"(\d+), <<(.*)>>$", t)
        mism.setdefault(int(m.group(1)), [int(x) for x in m.group(2).split(",") if x.strip()])
    if mism:
        with open(b + ".paths", "w") as f:
            for g, p in sorted(mism.items())[:25]:
                f.write(json.dumps({"g": g, "path": p}) + "\n")
        w = name + "_w"
        c.harness("lr", "cmd=gen", "mode=witness", f"in={b}.gram", f"paths={b}.paths", f"out={c.path(w)}.gram", f"seed={c.seed}")
        if lr_run(c, w):
            before = len(c.viol)
            confirm(w)
            c.stages.append({"tables": name, "disagreements": len(mism), "confirmed": len(c.viol) - before})


def nowarn(g):
    return g["b"] == "ok" and not g["warn"]


def lr_bins(c, tab=False):
    c.cargo(["lr"])
    return c.cargo(["lrtab"], must=False) if tab else False


PLAIN = [("fixed", dict(mode="fixed", conf="none")), ("tiny", dict(mode="tiny", conf="none")), ("rand", dict(mode="rand", conf="none"))]


def stages(c, which, **sizes):
    """name, generator arguments"""
    q = c.quick
    out = []
    for w in which:
        name, err, conf = {"fixed": ("fixed", 0, "none"), "tiny": ("tiny", 0, "none"), "rand": ("rand", 0, "none"),
                           "fixedc": ("fixed", 0, "only"), "tinyc": ("tiny", 0, "only"), "randc": ("rand", 0, "only"),
                           "fixede": ("fixed", 1, "any"), "tinye": ("tiny", 1, "none"), "rande": ("rand", 1, "none"), "tinyec": ("tiny", 1, "only"), "randec": ("rand", 1, "only"),
                           "nest": ("nest", 1, "any"), "rings": ("nest", 1, "any"), "alts": ("nest", 1, "any"), "chain": ("nest", 0, "none"), "chainc": ("nest", 0, "only"), "chaine": ("nest", 1, "any"), "rival": ("nest", 0, "only"), "rivale": ("nest", 1, "only"), "big": ("big", 0, "any"), "bige": ("big", 1, "any"), "huge": ("huge", 0, "any"), "hugee": ("huge", 1, "any")}[w]
        kw = dict(mode=name, conf=conf)
        if err:
            kw["err"] = 1
        if name == "tiny":
            kw["step"] = (700 if err else 60) if q else (60 if err else 7)
            kw["len"] = 4 if q else 5
        if name == "rand":
            kw["n"] = 150 if q else 2000
        if w == "rings":
            kw.update(ring=1, n=40 if q else 600, inputs=24)
        if w.startswith("chain"):
            kw.update(chain=1, n=40 if q else 600, inputs=16)
        if w.startswith("rival"):
            kw.update(rival=1, n=40 if q else 600, inputs=12)
        if w == "alts":
            kw.update(alts=1, n=40 if q else 600, inputs=24)
        kw.update(sizes.get(w, {}))
        out.append((w, kw))
    return out


def C09():
    c = Check("C09")
    tab = lr_bins(c, True)
    for name, kw in stages(c, ["fixed", "tiny", "rand", "chain", "chainc", "rival", "randc", "fixedc"], randc=dict(n=c.pick(60, 500)), chain=dict(n=c.pick(80, 1000))):
        lr_gen(c, name, **kw)
        if not lr_run(c, name, cap=400):
            continue
        lr_builds(c, name)
        filter_runs(c, name, nowarn)
        derive(c, name, ["accept"])
        if kw["conf"] == "none":
            tables(c, name)
            if tab:
                tab_equiv(c, name, lambda w: (filter_runs(c, w, nowarn), derive(c, w, ["accept"])))
            if name == "tiny":
                c.model("MCDriver", env={"V_TABS": c.path(name) + ".tab", "V_LEN": c.pick(4, 5)}, name="MCDriver_" + name)
            if name == "fixed":
                c.model("MCDriver", env={"V_TABS": c.path(name) + ".tab", "V_LEN": c.pick(3, 4)}, name="MCDriver_" + name)
    lr_gen(c, "big", mode="big", big=c.pick(300, 1000))
    if lr_run(c, "big"):
        lr_builds(c, "big")
        tables(c, "big")
        filter_runs(c, "big", nowarn)
        lr_trace(c, "big", ["result", "accept", "panic"])
    huge(c, ["huge"], ["result", "accept", "panic"])
    deep(c, [0], ["end", "panic"], ["result", "accept", "panic"])
    return c.finish()


def huge(c, which, focus):
    """lengths beyond 16 bits and deep stacks"""
    for name, kw in stages(c, which):
        if c.viol:
            return
        lr_gen(c, name, **kw)
        if lr_run(c, name):
            tables(c, name)
            lr_trace(c, name, focus)


DEEP = 70000


def deep(c, errs, focus, trace):
    """families of inputs whose depth grows: small members are judged by LRTrace, the large one by Growth"""
    for err in errs:
        if c.viol:
            return
        name = "deep" + "pe"[err]
        n = DEEP if c.quick else 4 * DEEP
        lr_gen(c, name, mode="deep", n=n, **({"err": 1} if err else {}))
        if not lr_run(c, name, sum=c.path(name) + ".sum"):
            return
        tables(c, name)
        lr_trace(c, name, trace)
        rows = [json.loads(l) for l in open(c.path(name) + ".sum")]
        rows = [rows[i:i + 3] for i in range(0, len(rows), 3)]
        with open(c.path(name) + ".rows", "w") as f:
            for t in rows:
                f.write(json.dumps({"n": [30, 40, n], "e": [x["e"] for x in t], "c": [x["c"] for x in t], "p": [x["n"] for x in t], "sp": [x["sp"] for x in t]}) + "\n")
        foc = list(focus) + ["-"] * (4 - len(focus))
        r = c.tlc("Growth", env={"V_ROWS": c.path(name) + ".rows", "V_F1": foc[0], "V_F2": foc[1], "V_F3": foc[2], "V_F4": foc[3]}, name="Growth_" + name)
        if not r.ok:
            raise ToolError("Growth failed: " + r.out[-2000:])
        c.traces += len(rows)
        c.stages.append({"families": name, "members_up_to": n, "count": len(rows)})
        grams = [json.loads(l) for l in open(c.path(name) + ".g")]
        for i, kinds, _ in rejects(r):
            t = rows[i - 1]
            g = grams[t[0]["g"] - 1]
            k = sum(1 for x in rows[:i] if x[0]["g"] == t[0]["g"])
            c.violation(f"{name}: {'/'.join(kinds)}: grammar {show(g)}, family {k}: sizes 30, 40, {n} end {[x['e'] for x in t]} with {[x['c'] for x in t]} calls, {[x['n'] for x in t]} reads and {[x['sp'] for x in t]} tokens in error spans", {"grammar": show(g), "family": k, "runs": t})


def C10():
    c = Check("C10")
    lr_bins(c)
    for name, kw in stages(c, ["fixed", "tiny", "rand", "chain", "rival", "fixedc", "randc", "big"], rand=dict(n=c.pick(300, 3000)), randc=dict(n=c.pick(150, 1500))):
        lr_gen(c, name, **kw)
        if lr_run(c, name, cap=400 if kw["conf"] == "only" else 3000):
            if kw["conf"] == "only":
                drop_end(c, name, "cap")
            derive(c, name, ["tree", "root"])
    for name, kw in stages(c, ["fixede", "nest", "rande", "bige"], nest=dict(n=c.pick(80, 1000)), rande=dict(n=c.pick(100, 2000))):
        lr_gen(c, name, **kw)
        if lr_run(c, name):
            tables(c, name)
            lr_trace(c, name, ["args", "order"])
            if name == "fixede":
                c.model("MCDriver", env={"V_TABS": c.path(name) + ".tab", "V_LEN": 3}, name="MCDriver_" + name)
    huge(c, ["huge", "hugee"], ["args", "order"])
    deep(c, [0, 1], ["calls"], ["args", "order"])
    return c.finish()


def drop_end(c, name, end):
    p = c.path(name) + ".r"
    with open(p) as f:
        keep = [l for l in f if f'"e":"{end}"' not in l[-200:]]
    with open(p, "w") as f:
        f.writelines(keep)


def C11():
    c = Check("C11")
    lr_bins(c)
    for name, kw in stages(c, ["fixed", "tiny", "rand", "chain"], rand=dict(n=c.pick(220, 3000))):
        lr_gen(c, name, **kw)
        if lr_run(c, name):
            filter_runs(c, name, nowarn)
            derive(c, name, ["reads", "early", "late"])
            if name == "tiny":
                tables(c, name)
                c.model("MCDriver", env={"V_TABS": c.path(name) + ".tab", "V_LEN": c.pick(4, 5)}, name="MCDriver_" + name)
    lr_gen(c, "big", mode="big")
    if lr_run(c, "big"):
        tables(c, "big")
        lr_trace(c, "big", ["reads", "result"])
    huge(c, ["huge"], ["reads", "result"])
    deep(c, [0], ["reads"], ["reads"])
    c.assumptions.append("grammars without conflicts and error productions, every symbol of which derives some token sequence")
    return c.finish()


def C12():
    c = Check("C12", "fault_enumeration")
    lr_bins(c)
    for name, kw in stages(c, ["fixed", "rand", "fixedc", "fixede", "nest", "rande", "bige"], nest=dict(n=c.pick(60, 800), inputs=20), rand=dict(n=c.pick(60, 800), inputs=3, cover=20, words=8), rande=dict(n=c.pick(80, 1000), inputs=3, cover=20, words=12), fixed=dict(cover=20, words=10), fixedc=dict(cover=15, words=10), fixede=dict(cover=30, words=20)):
        lr_gen(c, name, **kw)
        if lr_run(c, name, faults=c.pick(8, 40), cap=300 if kw["conf"] == "only" else 3000):
            tables(c, name)
            lr_trace(c, name, ["fault", "panic"])
    c.extra["evaluations"] = c.traces
    c.extra["distinct_nontrivial"] = c.traces
    c.extra["rule"] = "every recorded parse with a reducer made to fail at one call position; the positions of each parse are enumerated"
    c.model_done = True
    return c.finish()


def C13():
    c = Check("C13")
    lr_bins(c)
    for name, kw in stages(c, ["fixed", "fixedc", "fixede", "tiny", "tinyc", "tinye", "tinyec", "rand", "randc", "rande", "randec", "chain", "chainc", "chaine", "rival", "rivale", "big"], rival=dict(n=c.pick(80, 1000)), rivale=dict(n=c.pick(80, 1000)), rand=dict(n=c.pick(250, 3000)), randc=dict(n=c.pick(400, 4000), maxstates=150), rande=dict(n=c.pick(120, 2000)), randec=dict(n=c.pick(120, 2000)), tinyc=dict(n=c.pick(400, 5000))):
        lr_gen(c, name, words=0, inputs=0, cover=0, **{k: v for k, v in kw.items() if k not in ("words", "inputs", "cover")})
        strip_inputs(c, name)
        if lr_run(c, name):
            lr_builds(c, name)
            tables(c, name)
            conflicts(c, name)
            if name == "tiny":
                c.model("MCDriver", env={"V_TABS": c.path(name) + ".tab", "V_LEN": 3}, name="MCDriver_" + name)
    c.assumptions.append("reports are read through their Debug output, as no public type names them")
    return c.finish()


def strip_inputs(c, name):
    p = c.path(name) + ".gram"
    rows = [json.loads(l) for l in open(p)]
    with open(p, "w") as f:
        for d in rows:
            d["in"] = []
            f.write(json.dumps(d) + "\n")


def conflicts(c, name):
    b = c.path(name)
    with open(b + ".g") as f, open(b + ".tab") as t:
        for i, (gl, tl) in enumerate(zip(f, t)):
            g, s = json.loads(gl), json.loads(tl)
            if g["b"] != "ok":
                continue
            c.traces += 1
            goal = len(s["r"])
            rep = {(k, a, z) for k, a, z in g["warn"]}
            spec_sr = {a for k, a, z in s["conf"] if k == "sr"}
            spec_rr = [(a, z) for k, a, z in s["conf"] if k == "rr"]
            riv = {tuple(sorted(x)) for x in s["riv"]}
            rep_sr = {a for k, a, z in rep if k == "sr"}
            rep_rr = {tuple(sorted((a, z))) for k, a, z in rep if k == "rr"}
            losers = {(a if z == goal else z) for a, z in spec_rr}
            named = {x for p in rep_rr for x in p}
            if i % 211 == 1:
                c.sample({"stage": name, "grammar": show(g)[:200], "reported": sorted(map(str, rep)), "spec": sorted(map(str, s["conf"]))})
            d = {"grammar": show(g), "reported": sorted(map(str, rep)), "specified": sorted(map(str, s["conf"]))}
            for k, a, z in rep:
                if k == "?":
                    raise ToolError("conflict report not understood")
            if rep and not s["conf"]:
                c.violation(f"{name}: {show(g)[:300]}: reported {sorted(rep)} but the grammar has no LR(1) conflict", d)
            elif s["conf"] and not rep:
                c.violation(f"{name}: {show(g)[:300]}: no report although there is {s['conf'][:3]}", d)
            else:
                if rep_sr - spec_sr or rep_rr - riv:
                    c.violation(f"{name}: {show(g)[:300]}: report of a conflict that does not exist: {sorted(rep_sr - spec_sr)} {sorted(rep_rr - riv)}", d)
                if spec_sr - rep_sr or losers - named:
                    c.violation(f"{name}: {show(g)[:300]}: conflict not reported: shift/reduce {sorted(spec_sr - rep_sr)} reduce/reduce {sorted(losers - named)}", d)


def C14():
    c = Check("C14")
    tab = lr_bins(c, True)
    for name, kw in stages(c, ["fixedc", "tinyc", "randc", "randec", "chainc", "rival", "rivale"], rival=dict(n=c.pick(80, 1000)), tinyc=dict(n=c.pick(150, 3000)), randc=dict(n=c.pick(150, 2500)), randec=dict(n=c.pick(60, 1000), cover=25, words=15)):
        lr_gen(c, name, **kw)
        if lr_run(c, name, cap=150):
            lr_builds(c, name)
            tables(c, name)
            focus = ["order", "args", "result", "panic"]
            lr_trace(c, name, focus)
            if tab:
                tab_equiv(c, name, lambda w: (tables(c, w), lr_trace(c, w, focus)))
    return c.finish()


def recovery(pid, focus, extra=()):
    c = Check(pid)
    tab = lr_bins(c, True)
    for name, kw in stages(c, ["fixede", "nest", "rings", "alts", "chaine", "rivale", "tinye", "rande", "bige"] + list(extra), nest=dict(n=c.pick(250, 3000)), rande=dict(n=c.pick(150, 3000)), tinye=dict(step=c.pick(500, 60))):
        lr_gen(c, name, **kw)
        if lr_run(c, name):
            tables(c, name)
            lr_trace(c, name, focus)
            if tab and pid == "C15":
                tab_equiv(c, name, lambda w: (tables(c, w), lr_trace(c, w, focus)))
            if name == "fixede":
                c.model("MCDriver", env={"V_TABS": c.path(name) + ".tab", "V_LEN": c.pick(4, 5)}, name="MCDriver_" + name)
            if name == "tinye":
                c.model("MCDriver", env={"V_TABS": c.path(name) + ".tab", "V_LEN": c.pick(3, 5)}, name="MCDriver_" + name)
    huge(c, ["hugee"], focus)
    deep(c, [1], ["end", "panic", "calls"] if pid == "C15" else ["span"], focus)
    return c


def C15():
    return recovery("C15", ["order", "result", "args"]).finish()


def C16():
    return recovery("C16", ["span"]).finish()


def C17():
    c = Check("C17")
    lr_bins(c)
    for name, kw in stages(c, ["fixed", "fixede", "nest", "rings", "alts", "chain", "chaine", "rivale", "tiny", "tinye", "rand", "rande", "big", "bige"], alts=dict(n=c.pick(250, 4000), inputs=40), rings=dict(n=c.pick(400, 6000), inputs=40, words=150), nest=dict(n=c.pick(1200, 12000), inputs=60),
                           tinye=dict(step=c.pick(40, 4), len=5), tiny=dict(step=c.pick(40, 4), len=4), rande=dict(n=c.pick(1500, 15000), words=80, inputs=10), rand=dict(n=c.pick(200, 2000)), fixede=dict(words=400, inputs=60, cover=400)):
        lr_gen(c, name, **kw)
        if lr_run(c, name, cap=3000):
            # every parse is executed; those that ended abnormally and a sample of the others go through TLC
            b = c.path(name)
            n = count_lines(b + ".r")
            c.extra["parses_executed"] = c.extra.get("parses_executed", 0) + n
            step = max(1, n // c.pick(2500, 20000))
            keep = []
            with open(b + ".r") as f:
                for i, l in enumerate(f):
                    if i % step == 0 or not ('"e":"ok"' in l or '"e":"rnf"' in l):
                        keep.append(l)
            bad = [l for l in keep if not ('"e":"ok"' in l or '"e":"rnf"' in l)]
            keep = [l for l in keep if l not in set(bad)] + bad[:300]
            with open(b + ".r", "w") as f:
                f.writelines(keep)
            used = sorted({int(re.match(r'\{"g":(\d+)', l).group(1)) for l in keep})
            shrink(c, name, used)
            tables(c, name)
            lr_trace(c, name, ["panic"])
            if name == "fixede":
                c.model("MCDriver", env={"V_TABS": b + ".tab", "V_LEN": c.pick(4, 5)}, name="MCDriver_" + name)
    huge(c, ["huge", "hugee"], ["panic"])
    deep(c, [0, 1], ["panic"], ["panic"])
    return c.finish()


def shrink(c, name, used):
    """keeps only the groups that still have runs, and renumbers"""
    b = c.path(name)
    new = {g: i for i, g in enumerate(used, 1)}
    rows = lines(b + ".g", used)
    with open(b + ".g", "w") as f:
        for g in used:
            f.write(json.dumps(rows[g]) + "\n")
    with open(b + ".r") as f:
        ls = [re.sub(r'^\{"g":(\d+)', lambda m: '{"g":%d' % new[int(m.group(1))], l) for l in f]
    with open(b + ".r", "w") as f:
        f.writelines(ls)
