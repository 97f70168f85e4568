"""What the macros accept and announce at compile time."""
import concurrent.futures, json, random
from .core import *
from . import lexer, lr
from .macros import crate, rlit, LOCK

NEED = ("tokenizer", "parser", "tokenizer_generator", "parser_generator")


def artifacts(c):
    """libraries of /repo's current tree, as cargo builds them"""
    d = crate(c, "forms", {"main.rs": "fn main() {}\n"})
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
    p = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if os.environ.get("VERIF_SAVE_LOCK"):
        shutil.copy(d + "/Cargo.lock", LOCK)
    if p.returncode:
        raise ToolError("cargo: " + p.stderr[-3000:])
    out = {}
    for l in p.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] in NEED:
            f = [x for x in m["filenames"] if x.endswith((".rlib", ".so"))]
            if f and "/repo/" in m["target"]["src_path"]:
                out[m["target"]["name"]] = f[0]
    if len(out) < len(NEED):
        raise ToolError("libraries not found: " + str(out))
    return out


def compile_all(c, lib, files):
    """(compiles, what the macro printed, first error) of each source text"""
    d = c.path("src")
    os.makedirs(d)
    ext = [x for n in NEED for x in ("--extern", f"{n}={lib[n]}")]

    def one(i):
        f = f"{d}/f{i}.rs"
        open(f, "w").write(files[i])
        cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", f"f{i}", "--emit=metadata", "-o", f"{d}/f{i}.rmeta", "-Awarnings", "--error-format=json", "-L", f"dependency={TARGET}/debug/deps"] + ext + [f]
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            return None, "", "the compiler did not finish in 120 s"
        text, err = "", ""
        for l in (p.stdout + p.stderr).decode("utf-8", "replace").splitlines():
            if l.startswith("{"):
                try:
                    m = json.loads(l)
                    if m.get("level") == "error" and not err:
                        err = m.get("rendered") or m["message"]
                    continue
                except ValueError:
                    pass
            text += l + "\n"
        return p.returncode == 0, text, err
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(len(files))))


def tok_src(r, w):
    return "tokenizer_generator::tokenizer! {\n pub fn make() -> DFATokenizer {\n  character char;\n  token usize;\n" + "".join("  %s: |_, _| %d;\n" % (rlit(r, p), i) for i, p in enumerate(w)) + " }\n}\n"


def par_src(r, v):
    t = "use parser::enum_index;\nuse parser::enum_index_derive::EnumIndex;\n#[derive(EnumIndex)]\npub enum Tk { Z, %s }\n#[derive(EnumIndex)]\npub enum Nt { Z, %s }\n" % (
        ", ".join("T%d" % i for i in range(len(v["tok"]))), ", ".join("N%d" % i for i in range(len(v["sym"]))))
    name = lambda p, ref: rlit(r, p[1]) if p[0] == "r" else "[%s]" % p[1] if ref else p[1]
    t += "parser_generator::parser! {\n pub fn make() -> LR1Parser {\n  token Tk { %s }\n  symbol Nt { %s }\n  errortype ();\n  start %s;\n" % (
        ", ".join("%s = T%d" % (name(p, False), i) for i, p in enumerate(v["tok"])), ", ".join("%s = N%d" % (s, i) for i, s in enumerate(v["sym"])), v["st"])
    for key, parts in v["ru"]:
        body = " ".join("ERROR" if p[0] == "e" else "<%s>" % p[1] if p[0] == "s" else name(p, True) for p in parts)
        t += "  %s %s : _ => Ok(Nt::Z);\n" % ("|" if key == "|" else "<%s>::=" % key, body)
    return t + " }\n}\n"


IDS = ["a", "b", "Num", "plus", "x1", "T", "E", "list", "Item", "token", "symbol", "start", "ERR", "error", "If", "_t", "Z"]
RAWS = ["+", "*", "a", "b", "Num", "T", "(", ")", "", " ", "if", "::=", "|", "ERROR", "あ", "E"]


def invocation(r, g):
    """a grammar written as an invocation, then possibly one mistake"""
    ts = sorted({x for _, rhs in g["g"] for x in rhs if 0 <= x < 1000})
    ns = sorted({l for l, _ in g["g"]} | {x for _, rhs in g["g"] for x in rhs if x >= 1000} | {g["st"]})
    ids, raws, sy = r.sample(IDS, len(IDS)), r.sample(RAWS, len(RAWS)), r.sample(IDS, len(IDS))
    tn = {t: ["r", raws.pop()] if raws and (r.random() < 0.5 or not ids) else ["n", ids.pop() if ids else "t%d" % t] for t in ts}
    sn = {n: sy.pop() if sy else "S%d" % n for n in ns}
    part = lambda x: ["e", ""] if x == -1 else ["s", sn[x]] if x >= 1000 else tn[x]
    ru, prev = [], None
    for l, rhs in g["g"]:
        ru.append(["|" if l == prev and r.random() < 0.6 else sn[l], [part(x) for x in rhs]])
        prev = l
    v = {"tok": [tn[t] for t in r.sample(ts, len(ts))], "sym": [sn[n] for n in r.sample(ns, len(ns))], "st": sn[g["st"]], "ru": ru}
    k = r.randrange(14)
    spots = lambda kinds: [(i, j) for i, (_, p) in enumerate(ru) for j in range(len(p)) if p[j][0] in kinds]
    how = "none"
    if k == 0 and spots("nr"):
        # a token is not listed
        i, j = r.choice(spots("nr"))
        v["tok"].remove(ru[i][1][j])
        how = "token not listed"
    elif k == 1 and spots("nr"):
        # the name is listed, but as the other kind of token
        i, j = r.choice([(i, j) for i, j in spots("nr")])
        p = ru[i][1][j]
        if p[0] == "n" or p[1].isidentifier() and p[1].isascii():
            ru[i][1][j] = ["r" if p[0] == "n" else "n", p[1]]
            how = "other kind of token"
    elif k == 2 and spots("s"):
        i, j = r.choice(spots("s"))
        v["sym"].remove(ru[i][1][j][1])
        how = "symbol not listed"
    elif k == 3:
        v["st"] = r.choice([x for x in IDS if x not in v["sym"]])
        how = "start not listed"
    elif k == 4:
        ru[0][0] = "|"
        how = "continuation first"
    elif k == 5:
        i = r.randrange(len(ru))
        ru[i][0] = r.choice([x for x in IDS if x not in v["sym"]])
        how = "key not listed"
    elif k == 6 and spots("nr") and spots("s"):
        # a token name used as a symbol
        i, j = r.choice(spots("s"))
        x = r.choice(v["tok"])
        if x[1].isidentifier() and x[1].isascii():
            ru[i][1][j] = ["s", x[1]]
            how = "token as symbol"
    return v, how


def C22():
    c = Check("C22")
    c.cargo(["lex", "lr"])
    lib = artifacts(c)
    r = random.Random(c.seed)
    # parser!
    invs = []
    for name, kw, n in [("fixed", dict(mode="fixed", conf="none"), 22), ("fixedc", dict(mode="fixed", conf="only"), 14), ("fixede", dict(mode="fixed", err=1, conf="any"), 14),
                        ("randc", dict(mode="rand", n=60, conf="only"), 20), ("rande", dict(mode="rand", err=1, n=60, conf="none"), 12), ("randec", dict(mode="rand", err=1, n=40, conf="only"), 10), ("tinyc", dict(mode="tiny", conf="only", n=40), 10)]:
        lr.lr_gen(c, name, **kw)
        rows = [json.loads(l) for l in open(c.path(name) + ".gram")]
        rows = [d for d in rows if len(d["g"]) < 40]
        for _ in range(c.pick(1, 8)):
            invs += [invocation(r, d) for d in r.sample(rows, min(n, len(rows)))]
    b = c.path("form")
    with open(b + ".i", "w") as f:
        for v, _ in invs:
            f.write(json.dumps(v) + "\n")
    os.makedirs(b + ".out")
    t = c.tlc("MacroForm", env={"V_GROUPS": b + ".i", "V_OUT": b + ".out"})
    if not t.ok:
        raise ToolError("MacroForm failed: " + t.out[-3000:])
    want = [json.load(open(f"{b}.out/{i}.json")) for i in range(1, len(invs) + 1)]
    good = [i for i, w in enumerate(want) if w["ok"]]
    with open(b + ".g", "w") as f:
        for i in good:
            f.write(json.dumps({"g": want[i]["m"]["g"], "st": want[i]["m"]["st"]}) + "\n")
    lr.tables(c, "form")
    conf = {i: json.loads(l)["conf"] for i, l in zip(good, open(b + ".tab"))}
    res = compile_all(c, lib, [par_src(r, v) for v, _ in invs])
    res_par = res
    shutil.rmtree(c.path("src"))
    tally = {}
    for i, ((v, how), w, (ok, text, err)) in enumerate(zip(invs, want, res)):
        c.traces += 1
        src = par_src(random.Random(0), v)
        exp = "accepted" if w["ok"] else "refused"
        tally[how + ", " + exp] = tally.get(how + ", " + exp, 0) + 1
        said = "warning" in text.lower()
        d = {"invocation": src, "mistake": how, "printed": text[:2000], "error": err[:2000]}
        if i in (3, 40):
            c.sample({"stage": "parser!", "mistake": how, "expected": exp, "compiles": ok, "announces": said})
        if ok is None or ok != w["ok"]:
            c.violation(f"parser! ({how}): expected to be {exp}, {err[:200] or 'compiled'}: {src[src.index('parser_generator'):][:500]}", d)
        elif ok and said != bool(conf[i]):
            c.violation(f"parser!: conflicts {conf[i][:3]} but the macro printed {text[:200]!r}: {src[src.index('parser_generator'):][:500]}", d)
    # tokenizer!
    rows = []
    for name, kw, n in [("rand", dict(mode="rand", n=200), c.pick(25, 150)), ("pairs", dict(mode="pairs", nodes=2, len=1), c.pick(15, 100)), ("tfixed", dict(mode="fixed"), 12)]:
        lexer.lex_gen(c, name, **kw)
        v = [json.loads(l) for l in open(c.path(name) + ".pat")]
        rows += r.sample([d for d in v if len(json.dumps(d["p"])) < 6000], min(n, len(v) // 2))
    lexer.lex_gen(c, "support", mode="support", n=300)
    sup = [json.loads(l) for l in open(c.path("support") + ".pat")]
    sup = r.sample(sup, c.pick(25, 150))
    with open(c.path("tok.g"), "w") as f:
        for d in rows:
            f.write(json.dumps(d) + "\n")
    t = c.tlc("Overlap", env={"V_GROUPS": c.path("tok.g")}, name="Overlap_tok")
    if not t.ok:
        raise ToolError("Overlap failed " + t.out[-2000:])
    over = {int(x.split(",")[0]) for x in t.prints("PAIR")}
    res = compile_all(c, lib, [tok_src(r, d["w"]) for d in rows + sup])
    shutil.rmtree(c.path("src"))
    for i, (d, (ok, text, err)) in enumerate(zip(rows, res), 1):
        c.traces += 1
        said = "warning" in text.lower()
        if not ok:
            c.violation(f"tokenizer!: patterns {d['w'][:6]} refused: {err[:300]}", {"patterns": d["w"], "error": err[:2000]})
        elif said != (i in over):
            c.violation(f"tokenizer!: patterns {d['w'][:6]} {'overlap' if i in over else 'do not overlap'} but the macro printed {text[:200]!r}", {"patterns": d["w"], "printed": text[:2000]})
    # several invocations in one crate: each of them announces its own
    par = [(par_src(r, invs[i][0]), bool(conf[i])) for i in good if res_par[i][0]]
    tok = [(tok_src(r, d["w"]), i in over) for i, d in enumerate(rows, 1)]
    crates = []
    for k in range(c.pick(24, 150)):
        v = [r.choice(r.choice([par, tok])) for _ in range(r.randrange(2, 5))]
        if k % 4 == 0:
            v = [r.choice([x for x in v2 if x[1] == (k % 8 == 0)] or v2) for v2 in (r.choice([par, tok]),) * 3]
        crates.append(v)
    for v, (ok, text, err) in zip(crates, compile_all(c, lib, ["".join("pub mod m%d {\n%s}\n" % (i, x[0]) for i, x in enumerate(v)) for v in crates])):
        c.traces += 1
        want, said = sum(x[1] for x in v), sum("warning" in l.lower() for l in text.splitlines())
        d = {"invocations": [x[0] for x in v], "announce": [x[1] for x in v], "printed": text[:2000], "error": err[:2000]}
        if not ok:
            c.violation(f"{len(v)} well-formed invocations in one crate do not compile: {err[:300]}", d)
        elif said < want or (said and not want):
            c.violation(f"{len(v)} invocations in one crate, {want} of them with something to announce, but {said} lines announce something", d)
    c.extra["crates_of_several_invocations"] = len(crates)
    with open(c.path("sup.v"), "w") as f:
        for d, (ok, text, err) in zip(sup, res[len(rows):]):
            f.write(json.dumps({"p": d["p"], "v": "ok" if ok else "error"}) + "\n")
    t = c.tlc("Support", env={"V_GROUPS": c.path("sup.v")}, name="Support_macro")
    if not t.ok:
        raise ToolError("Support failed " + t.out[-2000:])
    c.traces += len(sup)
    for g, kinds, _ in rejects(t):
        c.violation(f"tokenizer!: patterns {sup[g - 1]['w'][:6]}: {'compiles' if kinds == ('ok',) else 'refused: ' + res[len(rows) + g - 1][2][:300]}", {"patterns": sup[g - 1]["w"]})
    c.extra["parser_invocations"] = tally
    c.extra["overlapping"] = len(over)
    c.assumptions.append("an announcement is any line printed during compilation that contains the word 'warning'; invocations are sampled; every listed symbol has a rule")
    return c.finish()
