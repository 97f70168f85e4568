"""Independence of runs over one tokenizer or parser."""
import json, random
from .core import *
from . import lexer, lr


def what(d):
    return f"patterns {d['w'][:5]}" if "w" in d else "grammar " + lr.show(d)[:250]


def solo(c, name, ext):
    b = c.path(name)
    try:
        hang, _ = c.harness("shared", "cmd=solo", f"in={b}.{ext}", f"out={b}.solo")
    except Died as d:
        c.violation(f"{name}: the process died", {"out": d.out})
        return None
    if hang:
        c.violation(f"{name}: does not end: {hang[:300]}", {"hang": hang})
        return None
    return [json.loads(l) for l in open(b + ".solo")]


def choose(c, name, ext, out, r, total, runs, keep, per=1):
    """picks for each group a few inputs whose runs have `total` yield points together"""
    ys = solo(c, name, ext)
    if ys is None:
        return False
    rows = [json.loads(l) for l in open(f"{c.path(name)}.{ext}")]
    made = []
    for d, s in zip(rows, ys):
        size = [sum(y) + len(y) for y in s["y"]]
        ok = [i for i in range(len(size)) if 2 <= size[i] <= total[1] - 2 and not any("panic" in e for e in s["o"][i])]
        if not ok:
            continue
        for _ in range(per):
            best = None
            for _ in range(60):
                pick = [r.choice(ok) for _ in range(r.choice(runs))]
                n = sum(size[i] for i in pick)
                kinds = len(set(pick))
                if total[0] <= n <= total[1] and (best is None or kinds > best[0]):
                    best = (kinds, pick)
            if best:
                made.append((d, best[1]))
    r.shuffle(made)
    with open(f"{c.path(out)}.{ext}", "w") as f:
        for d, pick in made[:keep]:
            d = dict(d)
            d["in"] = [d["in"][i] for i in pick]
            f.write(json.dumps(d) + "\n")
    return len(made) > 0


def play(c, name, ext, nest, harm, simulate=None, keep=20000, live=False):
    b = c.path(name)
    ys = solo(c, name, ext)
    if ys is None:
        return
    env = {"V_GROUPS": b + ".solo", "V_NEST": nest, "V_HARM": harm}
    r = c.tlc("Shared", cfg="Shared" if live else "SharedGen", env=env, name="Shared_" + name, simulate=simulate)
    if not r.ok:
        raise ToolError("Shared failed: " + r.out[-3000:])
    seen = set()
    for t in r.prints("SCHED"):
        m = re.match(r"(\d+), <<(.*)>>$", t)
        seen.add((int(m.group(1)), tuple(int(x) for x in m.group(2).split(",") if x.strip())))
    scheds = sorted(seen)
    c.extra["schedules_generated"] = c.extra.get("schedules_generated", 0) + len(scheds)
    if len(scheds) > keep:
        scheds = sorted(random.Random(c.seed).sample(scheds, keep))
    with open(b + ".sched", "w") as f:
        for g, s in scheds:
            f.write(json.dumps({"g": g, "s": s}) + "\n")
    try:
        hang, _ = c.harness("shared", "cmd=play", f"in={b}.{ext}", f"sched={b}.sched", f"out={b}.play")
    except Died as d:
        c.violation(f"{name}: the process died", {"out": d.out})
        return
    if hang:
        c.violation(f"{name}: does not end: {hang[:400]}", {"hang": hang})
        return
    t = c.tlc("SharedTrace", env=dict(env, V_RUNS=b + ".play"), name="SharedTrace_" + name)
    if not t.ok:
        raise ToolError("SharedTrace failed: " + t.out[-3000:])
    n = count_lines(b + ".play")
    c.traces += n
    rej = rejects(t)
    runs = lines(b + ".play", [x[0] for x in rej[:20]] + [min(n, 50)])
    src = [json.loads(l) for l in open(f"{b}.{ext}")]
    x = runs[min(n, 50)]
    c.sample({"stage": name, "object": what(src[x["g"] - 1])[:200], "inputs": src[x["g"] - 1]["in"], "schedule": x["s"], "observed": [o[:6] for o in x["o"]]})
    for cid, _, _ in rej[:20]:
        x = runs[cid]
        d = src[x["g"] - 1]
        i = next(i for i in range(len(x["o"])) if x["o"][i] != ys[x["g"] - 1]["o"][i][:len(x["o"][i])] or True and x["o"][i][:1] != ys[x["g"] - 1]["o"][i][:1]) if any(x["o"][i] != ys[x["g"] - 1]["o"][i][:len(x["o"][i])] for i in range(len(x["o"]))) else 0
        c.violation(f"{name}: {what(d)} inputs {d['in']} under schedule {x['s']}: run {i + 1} observed {x['o'][i][:12]} but alone {ys[x['g'] - 1]['o'][i][:12]}",
                    {"object": what(d), "inputs": d["in"], "schedule": x["s"], "observed": x["o"], "alone": ys[x["g"] - 1]["o"]})


def cut(c, name, ext, n, length, r):
    p = f"{c.path(name)}.{ext}"
    rows = [json.loads(l) for l in open(p)]
    with open(p, "w") as f:
        for d in rows:
            v = [x for x in d["in"] if len(x) <= length and (x or ext != "pat")]
            r.shuffle(v)
            d["in"] = v[:n]
            if v:
                f.write(json.dumps(d) + "\n")


def C21():
    c = Check("C21")
    c.cargo(["lex", "lr", "shared"])
    r = random.Random(c.seed)
    # tokenizers
    for name, kw in [("lfixed", dict(mode="fixed")), ("lrand", dict(mode="rand", n=c.pick(60, 600)))]:
        lexer.lex_gen(c, name, **kw)
        cut(c, name, "pat", 14, 12, r)
        if choose(c, name, "pat", name + "s", r, (6, 10), [2, 2, 3], c.pick(10, 40)):
            play(c, name + "s", "pat", 2, 1, keep=c.pick(6000, 60000))
        if choose(c, name, "pat", name + "b", r, (12, 60), [2, 3, 4], c.pick(25, 200), per=2):
            play(c, name + "b", "pat", 8, 2, simulate=c.pick(4000, 60000))
    # parsers
    for name, kw in [("pfixed", dict(mode="fixed", conf="none")), ("pfixede", dict(mode="fixed", err=1, conf="any")), ("prand", dict(mode="rand", conf="none", n=c.pick(40, 400))), ("prande", dict(mode="rand", err=1, conf="none", n=c.pick(40, 400)))]:
        lr.lr_gen(c, name, **kw)
        cut(c, name, "gram", 14, 8, r)
        if name != "prand" and choose(c, name, "gram", name + "s", r, (6, 14), [2, 3], c.pick(12, 40)):
            play(c, name + "s", "gram", 2, 1, keep=c.pick(6000, 60000))
        if choose(c, name, "gram", name + "b", r, (14, 90), [2, 3, 4], c.pick(25, 200), per=2):
            play(c, name + "b", "gram", 6, 2, simulate=c.pick(3000, 50000))
    c.assumptions.append("objects, inputs and the longer schedules are sampled; schedules of the small cases are all those with at most two nested entries and one panic or abandoned run")
    return c.finish()
