"""Checks of the composed system: tokenizer feeding parser, and the arithmetic example."""
import json, math, random, select, struct
from .core import *
from .lr import tables, show
from .lexer import text

S, P, B = 1000, 1001, 1002
RULES = [[S, [S, 1, P]], [S, [S, 2, P]], [S, [P]], [P, [P, 3, B]], [P, [P, 4, B]], [P, [B]],
         [B, [0]], [B, [1, 0]], [B, [2, 0]], [B, [5, S, 6]], [B, [7, B]]]


def cls(*r):
    return ["c", [[ord(a), ord(b)] for a, b in r]]


def lit(x):
    return cls((x, x))


def cat(a, *r):
    return ["s", a, cat(*r)] if r else a


def alt(a, *r):
    return ["o", a, alt(*r)] if r else a


def rep(lo, hi, a):
    return ["r", lo, hi, a]


DIG = cls(("0", "9"))
NUMBER = cat(alt(rep(1, -1, DIG), cat(rep(1, -1, DIG), lit("."), rep(0, -1, DIG)), cat(rep(0, -1, DIG), lit("."), rep(1, -1, DIG))),
             rep(0, 1, cat(cls(("E", "E"), ("e", "e")), rep(0, 1, cls(("+", "+"), ("-", "-"))), rep(1, -1, DIG))))
ANY = ["c", [[0, 0xD7FF], [0xE000, 0x10FFFF]]]
PATS = [NUMBER, lit("+"), lit("-"), lit("*"), lit("/"), lit("("), lit(")"), cat(lit("s"), lit("q"), lit("r"), lit("t")), ANY]
MAP = [0, 1, 2, 3, 4, 5, 6, 7, -1]


def number(r):
    k = r.randrange(9)
    d = lambda n: "".join(r.choice("0123456789") for _ in range(n))
    if k == 0:
        return r.choice(["0", "1", "2", "3", "4", "7", "9", "10", "16", "25", "100"])
    if k == 1:
        return d(r.randint(1, 6))
    if k == 2:
        return d(r.randint(1, 3)) + "." + d(r.randint(0, 4))
    if k == 3:
        return "." + d(r.randint(1, 4))
    if k == 4:
        return d(r.randint(1, 3)) + r.choice("eE") + r.choice(["", "+", "-"]) + d(r.randint(1, 2))
    if k == 5:
        return d(1) + "." + d(r.randint(0, 3)) + r.choice("eE") + r.choice(["", "+", "-"]) + d(r.randint(1, 3))
    if k == 6:
        return "." + d(r.randint(1, 3)) + r.choice("eE") + r.choice(["", "+", "-"]) + d(1)
    if k == 7:
        return r.choice(["1e308", "1e309", "1e-320", "0.1", "0.2", "0.3", "123456789012345678901234567890", "4.9e-324", "1e400", "00012", "0.0"])
    return str(r.randint(0, 99))


def block(r, n):
    k = r.randrange(10)
    if n <= 0 or k < 4:
        return r.choice(["", "", "", "-", "+"]) + number(r)
    if k < 8:
        return "(" + summ(r, n - 1) + ")"
    return "sqrt" + r.choice(["", " "]) + block(r, n - 1)


def prod(r, n):
    s = block(r, n)
    while r.randrange(3) == 0:
        s += r.choice("**/") + block(r, n - 1)
    return s


def summ(r, n):
    s = prod(r, n)
    while r.randrange(3) == 0:
        s += r.choice("+-") + prod(r, n - 1)
    return s


NOISE = list("0123456789.eE+-*/()sqrt ") + ["sqrt", "..", "1e", "e5", "1e+", ")", "(", "--", "sq", "qrt", "Sqrt", "é", "λ", "٣", "\t", "\r", "x", "=", "\u3000", "😀", "\u00a0", "\x00", "\x7f", "\u2028"]
FIXED = ["", " ", "1", "-1", "+1", "--1", "-+1", "1-1", "1--1", "1-+1", "1+-1", "1---1", "-(1)", "+(2)", "(-2)", "sqrt4", "sqrt(4)", "sqrt-4", "sqrt+4", "sqrt sqrt 16", "sqrt", "sqrtsqrt16", "sq rt4", "s4", "4s", "1 2", "12", "1.", ".1", ".", "1.5.5", "1..5", "1e5", "1e", "1e+", "1e+5", "1E-2", "1e5.5", "e5", "1e5e5",
         "1+2*3", "(1+2)*3", "2*3+1", "1-2-3", "8/4/2", "8/4*2", "2-3+4", "2*-3", "2*+3", "2/-4", "-2*-3", "2+-3*-4", "1/0", "-1/0", "0/0", "0*-1", "-0", "sqrt-0", "(((((1)))))", "((1)", "(1))", "()", "(", ")", "1+", "*1", "1*", "1+*2", "(1)(2)", "1(2)", "sqrt 4 sqrt 9", "2sqrt4", "sqrt4*9", "sqrt4+5", "sqrt(4+5)", "1+2)", "1+2) garbage (((", "1 + 2 # 3", "1a+b2", "１+1", "1+1=", "= 3", "1e400-1e400", "1e308*10", "0.1+0.2", "1e-400", "3-2*4/8+sqrt(16)-(-5)", "1*2*3*4*5*6*7*8*9*10", "1-2*3-4*5-6", "((1-2)-(3-4))-((5-6)-(7-8))", "2/3/4/5", "9-8/7*6+5-4/3*2+1"]


def lines_for(c):
    r = random.Random(c.seed * 7919 + 5)
    out = list(FIXED)
    for i in range(c.pick(350, 6000)):
        k = i % 4
        if k < 2:
            s = summ(r, r.randint(0, 4))
            if len(s) > 90:
                continue
            if r.randrange(3) == 0:
                s = "".join(x + (" " if r.randrange(6) == 0 and not x.isalnum() else "") for x in s)
        elif k == 2:
            s = summ(r, r.randint(0, 3))[:60]
            for _ in range(r.randint(1, 3)):
                j = r.randrange(len(s) + 1)
                t = r.randrange(3)
                s = s[:j] + r.choice(NOISE) + s[j:] if t == 0 else s[:j] + s[j + 1:] if t == 1 else s[:j] + r.choice(NOISE) + s[j + 1:]
        else:
            s = "".join(r.choice(NOISE) for _ in range(r.randint(1, 12)))
        out.append(s)
    return [s for s in out if "\n" not in s]


def evaluate(prog, line):
    st = []
    for x in prog:
        o = x["o"]
        if o == "num":
            st.append(float(line[x["a"]:x["b"]]))
        elif o == "neg":
            st.append(-st.pop())
        elif o == "sqrt":
            v = st.pop()
            st.append(float("nan") if v < 0 else math.sqrt(v))
        else:
            b = st.pop()
            a = st.pop()
            if o == "add":
                v = a + b
            elif o == "sub":
                v = a - b
            elif o == "mul":
                v = a * b
            elif b == 0:
                v = float("nan") if a == 0 or a != a else math.copysign(float("inf"), a) * math.copysign(1, b)
            else:
                v = a / b
            st.append(v)
    assert len(st) == 1
    return st[0]


def same(a, b):
    return a != a and b != b or struct.pack("d", a) == struct.pack("d", b)


def converse(c, exe, lines, timeout=60):
    """the example's answer to every line, None where it gave none"""
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    out = []
    fd = p.stdout.fileno()
    buf = b""
    end = time.time() + timeout

    def answer(limit):
        nonlocal buf
        stop = min(end, time.time() + limit)
        while b"\n" not in buf:
            left = stop - time.time()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                return None
            d = os.read(fd, 65536)
            if not d:
                return None
            buf += d
        l, buf = buf.split(b"\n", 1)
        return l.decode("utf-8", "replace")

    def say(s):
        try:
            p.stdin.write(s.encode() + b"\n")
            p.stdin.flush()
            return True
        except (BrokenPipeError, OSError):
            return False

    try:
        # whatever it prints before the first answer is not of interest
        say("271828.125")
        while True:
            a = answer(20)
            if a is None or a.strip() == "= 271828.125":
                break
        if a is None:
            return None
        for s in lines:
            a = answer(10) if say(s) else None
            out.append(a)
            if a is None:
                break
    finally:
        p.kill()
        p.wait()
    return out + [None] * (len(lines) - len(out))


def example(c):
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "-p", "example"], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("the example does not build: " + p.stdout[-3000:])
    b = c.path("calc")
    with open(b + ".g", "w") as f:
        f.write(json.dumps({"g": RULES, "st": S, "p": PATS, "map": MAP}) + "\n")
    tables(c, "calc")
    c.model("MCCalc", env={"V_TABS": b + ".tab", "V_LEN": c.pick(6, 8)})
    ls = lines_for(c)
    with open(b + ".r", "w") as f:
        for s in ls:
            f.write(json.dumps({"s": [ord(x) for x in s + "\n"]}) + "\n")
    out = b + ".out"
    os.makedirs(out)
    r = c.tlc("CalcRun", env={"V_GROUPS": b + ".g", "V_TABS": b + ".tab", "V_RUNS": b + ".r", "V_OUT": out}, name="CalcRun")
    if not r.ok:
        raise ToolError("CalcRun failed: " + r.out[-3000:])
    got = converse(c, os.path.join(TARGET, "debug", "example"), ls, c.pick(120, 900))
    if got is None:
        c.violation("example: no answer to the line '271828.125'", {"line": "271828.125"})
        return
    good = 0
    for i, (s, a) in enumerate(zip(ls, got), 1):
        w = json.load(open(f"{out}/{i}.json"))
        want = evaluate(w["prog"], s) if w["ok"] else None
        if a is None:
            c.violation(f"example: no answer to line {s!r}", {"line": s, "want": repr(want)})
            break
        if a.startswith("="):
            try:
                v = float(a[1:].strip())
            except ValueError:
                v = None
        else:
            v = None
        good += w["ok"]
        if (want is None) != (v is None) or (want is not None and not same(want, v)):
            c.violation(f"example: line {s!r} gave {a!r}, expected {'rejection' if want is None else want}", {"line": s, "got": a, "want": repr(want), "program": w["prog"]})
        elif i in (40, 200):
            c.sample({"stage": "example", "line": s, "answer": a})
    c.traces += len(ls)
    c.extra["example_lines"] = {"accepted": good, "rejected": len(ls) - good}


def describe(c, name, run):
    g = lines(c.path(name) + ".g", [run["g"]])[run["g"]]
    return {"grammar": show(g), "patterns": g["w"], "map": g["map"], "text": text(run["s"]), "fault": run["f"],
            "calls": [{"rule": e["r"], "args": e["a"], "chars_read": e["n"], "tokens": e["m"]} for e in run["ev"][:60]],
            "end": run["e"], "value": run["v"], "chars_read": run["n"], "tokens": run["m"]}


def compose(c, name, **kw):
    b = c.path(name)
    c.harness("comp", "cmd=gen", f"out={b}.gram", f"seed={c.seed}", *[f"{k}={v}" for k, v in kw.items()])
    try:
        hang, _ = c.harness("comp", "cmd=run", f"in={b}.gram", f"out={b}.g", f"runs={b}.r")
    except Died as d:
        c.violation(f"{name}: the process died", {"out": d.out, "rc": d.rc})
        return
    if hang:
        c.violation(f"{name}: does not end: {hang[:400]}", {"hang": hang})
        return
    with open(b + ".g") as f:
        for l in f:
            g = json.loads(l)
            if g["b"] != "ok":
                c.violation(f"{name}: patterns {g['w']} grammar {show(g)} do not build: {g['b'][:200]}", {"patterns": g["w"], "grammar": show(g), "build": g["b"]})
    tables(c, name)
    n = count_lines(b + ".r")
    r = c.tlc("CompTrace", env={"V_GROUPS": b + ".g", "V_TABS": b + ".tab", "V_RUNS": b + ".r"}, name="CompTrace_" + name)
    if not r.ok:
        raise ToolError("CompTrace failed: " + r.out[-3000:])
    c.traces += n
    rej = rejects(r)
    runs = lines(b + ".r", [x[0] for x in rej[:50]] + [min(n, 30)])
    d = describe(c, name, runs[min(n, 30)])
    c.sample({"stage": name, "patterns": d["patterns"], "grammar": d["grammar"][:200], "text": d["text"][:60], "calls": [x["rule"] for x in d["calls"]], "end": d["end"], "chars_read": d["chars_read"]})
    for cid, kinds, k in rej[:50]:
        d = describe(c, name, runs[cid])
        c.violation(f"{name}: {'/'.join(kinds)}: patterns {d['patterns']} grammar {d['grammar'][:300]} text {d['text'][:80]!r} gave calls {[x['rule'] for x in d['calls'][:30]]} end {d['end']} after {d['chars_read']} characters", dict(d, kinds=kinds, step=k))


def C20():
    c = Check("C20")
    c.cargo(["comp"])
    compose(c, "comp", n=c.pick(150, 2500), inputs=c.pick(20, 40))
    example(c)
    c.assumptions += ["pattern lists, grammars and texts are sampled; floating-point arithmetic is evaluated by the host's IEEE doubles", "the example's answer is recognised by a leading '='; every other answer counts as a rejection"]
    return c.finish()
