"""Checks of the compile-time generators: crates with tokenizer! and parser! invocations are written and compiled by the check."""
import json, random, re
from .core import *
from . import lexer, lr

LOCK = os.path.join(HARNESS, "macros.lock")
CARGO = """[package]
name = "%s"
version = "0.1.0"
edition = "%s"
[dependencies]
harness = { path = "%s" }
tokenizer = { path = "/repo/tokenizer" }
parser = { path = "/repo/parser" }
tokenizer_generator = { path = "/repo/tokenizer_generator" }
parser_generator = { path = "/repo/parser_generator" }
[workspace]
[profile.dev]
opt-level = 0
debug = false
[profile.dev.package."*"]
opt-level = 1
"""


def crate(c, name, files, edition="2021"):
    d = c.path(name)
    os.makedirs(d + "/src/bin", exist_ok=True)
    with open(d + "/Cargo.toml", "w") as f:
        f.write(CARGO % (name.lower(), edition, HARNESS))
    if os.path.exists(LOCK):
        shutil.copy(LOCK, d + "/Cargo.lock")
    for p, t in files.items():
        os.makedirs(os.path.dirname(d + "/src/" + p), exist_ok=True)
        with open(d + "/src/" + p, "w") as f:
            f.write(t)
    return d


def cargo_bins(c, d):
    """builds every bin of the crate on its own; returns (built names, output)"""
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
    p = subprocess.run(["cargo", "build", "--offline", "--bins", "--keep-going", "--message-format=json"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    built, msgs = {}, {}
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m.get("executable"):
            built[m["target"]["name"]] = m["executable"]
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            msgs.setdefault(m["target"]["name"], []).append(m["message"]["rendered"])
    return built, msgs, p.stderr


def rlit(r, s):
    """s as a Rust string literal in one of the forms Rust has"""
    if r.random() < 0.35 and "\r" not in s:
        n = 0
        while '"' + "#" * n in s:
            n += 1
        n += r.choice([0, 0, 1])
        return "r" + "#" * n + '"' + s + '"' + "#" * n
    out = '"'
    esc = r.random() < 0.5
    for ch in s:
        o = ord(ch)
        if ch in '"\\':
            out += "\\" + ch
        elif ch == "\n":
            out += r.choice(["\\n", "\n"])
        elif ch == "\t":
            out += r.choice(["\\t", "\t"])
        elif ch == "\r":
            out += "\\r"
        elif o == 0:
            out += "\\0"
        elif o < 32 or o == 127:
            out += "\\x%02x" % o
        elif esc and r.random() < 0.15:
            out += "\\u{%x}" % o if r.random() < 0.5 or o > 126 else "\\x%02X" % o
        else:
            out += ch
    return out + '"'


CHR = [("char", "chars"), ("Item", "with"), ("(usize, char)", "with"), ("Box<(char, u32)>", "with"), ("harness::lex::Item", "with"), ("std::primitive::char", "chars")]


def tok_mod(r, i, w):
    ty, mode = CHR[i % len(CHR)]
    t = "mod m%d {\n    use super::*;\n    tokenizer_generator::tokenizer! {\n        %sfn make() -> DFATokenizer {\n            character %s;\n            token %s;\n" % (
        i, r.choice(["pub ", "pub(crate) ", "pub(super) "]), ty, r.choice(["TokW", "(usize, Vec<u32>, Vec<u32>)", "harness::lex::TokW"]))
    for k, p in enumerate(w):
        cb = r.choice(["|s, v| callback(%d, s, v)", "|s: &str, v: Vec<" + ty + ">| -> TokW { let n = %d; callback(n, s, v) }", "{ let n = %d; move |s, v| callback(n, s, v) }", "cb::<%d>"])
        if cb.startswith("cb::"):
            cb = "(|s: &str, v| callback(%d, s, v))"
        t += "            %s: %s%s\n" % (rlit(r, p), cb % k, ";" if k + 1 < len(w) or r.random() < 0.5 else "")
    return t + "        }\n    }\n}\n", mode


def same_file(c, name, path, what):
    """Same.tla over recorded pairs (run time, generated)"""
    r = c.tlc("Same", env={"V_GROUPS": path}, name="Same_" + name)
    if not r.ok:
        raise ToolError("Same failed " + r.out[-2000:])
    n = count_lines(path)
    c.traces += n
    rej = rejects(r)
    rows = lines(path, [x[0] for x in rej[:50]])
    for i, _, _ in rej[:50]:
        d = rows[i]
        c.violation(f"{name}: {what(d['g'])}: built at run time {d['o'][0][:400]} generated {d['o'][1][:400]}", {"source": what(d["g"]), "run_time": d["o"][0], "generated": d["o"][1]})
    return n


def run_bin(c, exe, *args):
    try:
        p = subprocess.run([exe] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    except subprocess.TimeoutExpired:
        raise ToolError(exe + " did not finish")
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode == 3 and "HANG" in out:
        return "does not end: " + out[out.index("HANG"):][:600]
    if p.returncode != 0:
        return "died: " + (out + p.stderr.decode("utf-8", "replace"))[-1500:]
    return None


def C18():
    c = Check("C18")
    lexer.lex_bins(c)
    r = random.Random(c.seed)
    cases = []
    for name, kw, n in [("fixed", dict(mode="fixed"), 100), ("rand", dict(mode="rand", n=400, inputs=6), c.pick(50, 300)), ("pairs", dict(mode="pairs", nodes=2, len=3), c.pick(10, 60)), ("stress", dict(mode="stress", big=200), 100)]:
        lexer.lex_gen(c, name, **kw)
        rows = [json.loads(l) for l in open(c.path(name) + ".pat")]
        rows = [d for d in rows if len(json.dumps(d["p"])) < 6000 and "{1" not in "".join(x for x in d["w"] if name == "stress")]
        r.shuffle(rows)
        cases += [d for d in rows if all("\\w" not in x or len(d["w"]) < 3 for x in d["w"])][:n]
    # many rules, blanks at the ends of patterns, quotes, escapes, the empty expression, no rules at all
    x = lambda *w: {"p": [], "w": list(w), "k": "extra", "in": [[ord(ch) for ch in s] for s in EXTRA_IN]}
    cases += [x(" a", "a ", "a", " "), x("\"", "\\\\", "\\n", "\n", "\t", "[\"\\\\]+"), x(), x(""), x("a|", "b"), x("\u3042+", "[\U0001F600-\U0001F64F]", "\\u{1F600}x"), x("a*", "b*"), x("(?i:ab)", "(?x: a b c # comment\n)", "(?s:.)"),
              x(*[chr(97 + k % 26) + chr(97 + (k * 7) % 26) for k in range(70)]), x(*[chr(97 + k % 26) + chr(97 + k // 26) for k in range(300)], "[a-z]"), x("//[^\\n]*\\n?", "/\\*(?:[^*]|\\*[^/])*\\*/", "/", "[ \\n]+", ".")]
    with open(c.path("cases"), "w") as f:
        for d in cases:
            f.write(json.dumps(d) + "\n")
    with open(c.path("spec.g"), "w") as f:
        for d in cases:
            f.write(json.dumps({"p": d["p"], "w": d["w"], "b": "ok", "warn": []}) + "\n")
    src, arms = "", ""
    for i, d in enumerate(cases):
        m, mode = tok_mod(r, i, d["w"])
        src += m
        arms += f'            {i} => pair({i + 1}, &j, m{i}::make(), "{mode}", &mut ro, &mut so),\n'
    main = TOK_MAIN % arms + src
    # one program per list: does the macro accept what the run-time build accepts?
    files = {"main.rs": main}
    sup = []
    lexer.lex_gen(c, "support", mode="support", n=60)
    rows = [json.loads(l) for l in open(c.path("support") + ".pat")]
    r.shuffle(rows)
    rows = rows[:c.pick(12, 60)]
    with open(c.path("support") + ".pat", "w") as f:
        for d in rows:
            d["in"] = []
            f.write(json.dumps(d) + "\n")
    ok = lexer.lex_run(c, "support")
    if ok:
        sup = [json.loads(l) for l in open(c.path("support") + ".g")]
        for i, d in enumerate(sup):
            files[f"bin/s{i}.rs"] = "use harness::lex::*;\n" + tok_mod(r, i, d["w"])[0] + "fn main() {}\n"
    d = crate(c, "macros", files)
    built, msgs, err = cargo_bins(c, d)
    if os.environ.get("VERIF_SAVE_LOCK"):
        shutil.copy(d + "/Cargo.lock", LOCK)
    if not built and "could not compile" not in err:
        raise ToolError("cargo: " + err[-3000:])
    if "macros" not in built:
        c.violation("a generated tokenizer does not compile: " + "".join(msgs.get("macros", [err]))[:500], {"messages": msgs.get("macros", [err])[:5]})
        return c.finish()
    c.builds += len(cases)
    bad = run_bin(c, built["macros"], c.path("cases"), c.path("spec.r"), c.path("same"))
    if bad:
        c.violation("a generated tokenizer " + bad, {"out": bad})
        return c.finish()
    pats = lambda g: f"patterns {cases[g - 1]['w'][:8]}"
    same_file(c, "tokens", c.path("same"), pats)
    with open(c.path("same2"), "w") as f:
        for i, s in enumerate(sup):
            v = "accepted" if s["b"] == "ok" else "rejected"
            f.write(json.dumps({"g": i + 1, "o": [v, "accepted" if f"s{i}" in built else "rejected"]}) + "\n")
    if sup:
        same_file(c, "accept", c.path("same2"), lambda g: f"patterns {sup[g - 1]['w'][:8]}")
        c.sample({"stage": "accept", "patterns": sup[0]["w"][:5], "compiles": "s0" in built})
    # the generated tokenizers' streams as behaviours of the specification
    keep = [l for l in open(c.path("spec.r")) if cases[json.loads(l)["g"] - 1]["p"]]
    with open(c.path("spec.r"), "w") as f:
        f.writelines(keep)
    t = c.tlc("LexTrace", env={"V_GROUPS": c.path("spec.g"), "V_RUNS": c.path("spec.r"), "V_F1": "member", "V_F2": "longest", "V_F3": "tile"}, name="LexTrace_macro")
    if not t.ok:
        raise ToolError("LexTrace failed " + t.out[-2000:])
    c.stages.append({"generated_streams": len(keep), "not_behaviours_of_the_specification": len(rejects(t))})
    for l in keep[:40:20]:
        x = json.loads(l)
        c.sample({"stage": "tokens", "patterns": cases[x["g"] - 1]["w"][:4], "input": lexer.text(x["s"])[:60], "tokens": [(k["p"], lexer.text(k["x"])[:20]) for k in x["t"][:8]]})
    c.extra["programs"] = len(cases)
    c.assumptions.append("macro invocations are sampled; a deviation both builds share is not a violation of this property")
    return c.finish()


EXTRA_IN = ["", "albknlmlolzkaa", "a", " a", "a ", " a a", "\"\\\n\t", "ab", "aab", "AB", "Abc", "あああ", "😀x", "😀", "zz", "ahbcd", "// x\n/* a * / */ y / z\n", "bo", "aabb", "\\n"]
TOK_MAIN = """use harness::lex::*;
use harness::util::J;
use std::io::{BufRead, Write};
fn main() {
    harness::util::watchdog(120);
    let a: Vec<String> = std::env::args().collect();
    let f = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut ro = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    let mut so = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
    for (i, l) in f.lines().enumerate() {
        let j = J::parse(&l.unwrap());
        match i {
%s            _ => {}
        }
    }
    ro.flush().unwrap();
    so.flush().unwrap();
}
"""

PAR_MAIN = """use harness::lr::*;
use harness::util::J;
use parser::enum_index;
use parser::enum_index_derive::EnumIndex;
use parser_generator::parser;
use parser::Symbol;
use std::io::{BufRead, Write};
fn main() {
    harness::util::watchdog(120);
    let a: Vec<String> = std::env::args().collect();
    let f = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut ro = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    let mut so = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
    for (i, l) in f.lines().enumerate() {
        let j = J::parse(&l.unwrap());
        match i {
%s            _ => {}
        }
    }
    ro.flush().unwrap();
    so.flush().unwrap();
}
"""


def par_mod(r, i, g):
    rules, st = g["g"], g["st"]
    ts = sorted({x for _, rhs in rules for x in rhs if 0 <= x < 1000} | {x for w in g["in"] for x in w})
    ns = sorted({l for l, _ in rules} | {x for _, rhs in rules for x in rhs if x >= 1000} | {st})
    tv = {t: "T%d" % t for t in ts}
    nv = {n: "N%d" % (n - 1000) for n in ns}
    # enums: any order, with variants the grammar does not use
    to, no = list(ts), list(ns)
    if r.random() < 0.8:
        r.shuffle(to)
        r.shuffle(no)
    brace = {t: r.random() < 0.3 for t in ts}
    braceN = {n: r.random() < 0.3 for n in ns}

    def enum(name, order, v, br, trait, acc):
        vs = []
        for k, x in enumerate(order):
            if r.random() < 0.2:
                vs.append("Unused%d" % k)
            vs.append("%s { i: usize }" % v[x] if br[x] else "%s(usize)" % v[x])
        t = "    #[derive(Debug, EnumIndex)]\n    #[allow(dead_code)]\n    pub enum %s { %s }\n" % (name, ", ".join(vs))
        pat = " | ".join("%s::%s { i }" % (name, v[x]) if br[x] else "%s::%s(i)" % (name, v[x]) for x in order) or "_"
        un = any(z.startswith("Unused") for z in vs)
        t += "    impl %s for %s {\n        fn %s {\n            match self { %s => %s%s }\n        }\n    }\n" % (
            trait, name, acc[0], pat, acc[1], ", _ => unreachable!()" if un else "")
        return t
    t = "mod g%d {\n    use super::*;\n" % i
    t += enum("Tk", to, tv, brace, "Kind", ("i(&self) -> usize", "*i"))
    t += enum("Nt", no, nv, braceN, "Val", ("id(&mut self) -> &mut usize", "i"))

    def make(name, v, br, x, val):
        return "%s%s" % (name, "%s { i: %s }" % (v[x], val) if br[x] else "%s(%s)" % (v[x], val))
    t += "    pub fn tk(x: i64, i: usize) -> Tk {\n        match x { %s_ => unreachable!(\"{} {}\", x, i) }\n    }\n" % "".join("%d => %s, " % (x, make("Tk::", tv, brace, x, "i")) for x in ts)
    t += "    pub fn nt(x: i64, i: usize) -> Nt {\n        match x { %s_ => unreachable!(\"{} {}\", x, i) }\n    }\n" % "".join("%d => %s, " % (x, make("Nt::", nv, braceN, x, "i")) for x in ns)
    # names inside the macro: identifiers and strings, the same text may be used as both
    raws = ["+", "*", "(", ")", "if", "::=", "|", "\"", "\\", "", " ", "Num", "あ", ":", ";", "<a>", "a b", "\n"]
    r.shuffle(raws)
    idents = ["Num", "A", "B", "X1", "r#type", "token", "symbol", "start", "number", "Number", "_x", "errortype", "Q", "Plus", "Minus", "I", "K", "ERR", "E", "F"]
    idents = [x for x in idents if x != "r#type"]
    r.shuffle(idents)
    key, use = {}, {}
    for k, x in enumerate(ts):
        if r.random() < 0.5 and raws:
            s = raws.pop()
            key[x] = rlit(r, s)
            use[x] = rlit(r, s)
        else:
            n = idents.pop() if idents and r.random() < 0.5 else "tok%d" % x
            key[x] = n
            use[x] = "[%s]" % n
    nk = {}
    nid = ["E", "T", "Num", "expr", "List", "start", "token", "S", "Z9", "Item"]
    r.shuffle(nid)
    for n in ns:
        nk[n] = nid.pop() if nid and r.random() < 0.5 else "Sym%d" % (n - 1000)
    lt, ln = list(ts), list(ns)
    if r.random() < 0.8:
        r.shuffle(lt)
        r.shuffle(ln)
    comma = lambda: r.choice([",", ""])
    t += "    parser! {\n        %sfn make() -> LR1Parser {\n" % r.choice(["pub ", "pub(crate) ", "pub(super) "])
    t += "            token %s {\n%s            }\n" % (r.choice(["Tk", "self::Tk"]), ",\n".join("                %s = %s" % (key[x], make("", tv, brace, x, "0")) for x in lt) + comma() + "\n")
    t += "            symbol %s {\n%s            }\n" % (r.choice(["Nt", "self::Nt"]), ",\n".join("                %s = %s" % (nk[x], make("", nv, braceN, x, "0")) for x in ln) + comma() + "\n")
    t += "            errortype %s;\n            start %s;\n" % (r.choice(["usize", "std::primitive::usize"]), nk[st])
    prev = None
    for k, (l, rhs) in enumerate(rules):
        head = "|" if l == prev and r.random() < 0.6 else "<%s>::=" % nk[l]
        prev = l
        body = " ".join("ERROR" if x == -1 else ("<%s>" % nk[x] if x >= 1000 else use[x]) for x in rhs)
        mk = "Nt::%s" % nv[l] if not braceN[l] else "|i| Nt::%s { i }" % nv[l]
        n = len(rhs)
        form = r.randrange(4)
        if form == 0 or n > 12 or (n == 0 and form > 1):
            pat, ex = "a", "rec(%d, a).map(%s)" % (k + 1, mk)
        elif form == 1:
            pat, ex = "a @ [%s]" % ", ".join(["_"] * n), "rec(%d, a).map(%s)" % (k + 1, mk)
        elif form == 2:
            pat = "[%s]" % ", ".join("x%d" % q for q in range(n))
            ex = "rec_v(%d, &mut [%s]).map(%s)" % (k + 1, ", ".join("x%d" % q for q in range(n)), mk)
        else:
            kinds = ", ".join("x%d @ Symbol::%s(_)" % (q, "Error" if x == -1 else "NonTerminal" if x >= 1000 else "Terminal") for q, x in enumerate(rhs))
            pat, ex = "[%s]" % kinds, "{ let v = rec_v(%d, &mut [%s])?; Ok((%s)(v)) }" % (k + 1, ", ".join("x%d" % q for q in range(n)), mk)
        t += "            %s %s : %s => %s;\n" % (head, body, pat, ex)
    return t + "        }\n    }\n}\n"


def wide(r):
    """statements that begin with one of 90 keywords and end with one of 90"""
    n = 90
    rules = [[1000, [1000, 1001]], [1000, []]]
    for i in range(n):
        rules.append([1001, [i, 1002 + i % 3, (i * 7) % n + n]])
        rules.append([1001, [i, -1, (i * 7) % n + n]] if i % 9 == 4 else [1001, [i, (i * 7 + 1) % n + n]])
    rules += [[1002, [2 * n]], [1003, [1002, 2 * n]], [1004, [2 * n, 1003]]]
    ins = []
    for k in range(40):
        w = []
        for _ in range(r.randrange(1, 6)):
            i = r.randrange(n)
            w += [i] + [2 * n] * (i % 3 + 1 if i % 3 else 1) + [(i * 7) % n + n]
        if k % 2:
            w[r.randrange(len(w))] = r.randrange(2 * n + 1)
        ins.append(w)
    return {"g": rules, "st": 1000, "k": "wide", "in": ins}


def C19():
    c = Check("C19")
    lr.lr_bins(c)
    r = random.Random(c.seed)
    cases = []
    for name, kw, n in [("fixed", dict(mode="fixed", conf="none"), 60), ("fixedc", dict(mode="fixed", conf="only"), 60), ("fixede", dict(mode="fixed", err=1, conf="any"), 60),
                        ("rand", dict(mode="rand", n=60, conf="none"), c.pick(14, 60)), ("randc", dict(mode="rand", n=60, conf="only"), c.pick(8, 60)),
                        ("rande", dict(mode="rand", err=1, n=60, conf="none"), c.pick(16, 60)), ("randec", dict(mode="rand", err=1, n=60, conf="only"), c.pick(6, 60)),
                        ("rival", dict(mode="nest", rival=1, n=40, conf="only"), c.pick(10, 40)), ("rivale", dict(mode="nest", rival=1, err=1, n=40, conf="only"), c.pick(5, 40)),
                        ("chain", dict(mode="nest", chain=1, n=40, conf="any"), c.pick(4, 40)),
                        ("tinye", dict(mode="tiny", err=1, conf="none", step=700, len=4), c.pick(6, 60))]:
        lr.lr_gen(c, name, **kw)
        rows = [json.loads(l) for l in open(c.path(name) + ".gram")]
        r.shuffle(rows)
        rows = [d for d in rows if len(d["g"]) < 60][:n]
        for d in rows:
            if len(d["in"]) > 60:
                d["in"] = r.sample(d["in"], 60)
            if r.random() < 0.4:
                # another order of the rules is another program
                r.shuffle(d["g"])
            cases.append(d)
    # hundreds of states, tokens and rules
    cases.append(wide(r))
    c.stages.append({"macro_invocations": len(cases)})
    with open(c.path("cases"), "w") as f, open(c.path("m.g"), "w") as h:
        for d in cases:
            f.write(json.dumps(d) + "\n")
            h.write(json.dumps({"g": d["g"], "st": d["st"], "k": "m", "b": "ok", "warn": []}) + "\n")
    src, arms = "", ""
    for i, d in enumerate(cases):
        src += par_mod(r, i, d)
        arms += f"            {i} => pair({i + 1}, &j, g{i}::make(), g{i}::tk, g{i}::nt, &mut ro, &mut so),\n"
    d = crate(c, "macros", {"main.rs": PAR_MAIN % arms + src})
    built, msgs, err = cargo_bins(c, d)
    if os.environ.get("VERIF_SAVE_LOCK"):
        shutil.copy(d + "/Cargo.lock", LOCK)
    if not built and "could not compile" not in err:
        raise ToolError("cargo: " + err[-3000:])
    if "macros" not in built:
        c.violation("a generated parser does not compile: " + "".join(msgs.get("macros", [err]))[:900], {"messages": msgs.get("macros", [err])[:5]})
        return c.finish()
    c.builds += len(cases)
    bad = run_bin(c, built["macros"], c.path("cases"), c.path("m.r"), c.path("same"))
    if bad:
        c.violation("a generated parser " + bad, {"out": bad})
        return c.finish()
    same_file(c, "parses", c.path("same"), lambda g: "grammar " + lr.show(cases[g - 1]))
    # the wide one is compared with the run-time build only: its tables are costly to specify
    with open(c.path("m.r")) as f:
        keep = [l for l in f if '{"g":%d,' % len(cases) not in l[:20]]
    with open(c.path("m.r"), "w") as f:
        f.writelines(keep)
    with open(c.path("m.g")) as f:
        keep = f.readlines()[:-1]
    with open(c.path("m.g"), "w") as f:
        f.writelines(keep)
    lr.tables(c, "m")
    t = c.tlc("LRTrace", env={"V_TABS": c.path("m.tab"), "V_RUNS": c.path("m.r"), "V_F1": "order", "V_F2": "args", "V_F3": "result", "V_F4": "span"}, name="LRTrace_macro")
    if not t.ok:
        raise ToolError("LRTrace failed " + t.out[-2000:])
    c.stages.append({"generated_parses": count_lines(c.path("m.r")), "not_behaviours_of_the_specification": len(rejects(t))})
    for i in (5, 300):
        x = lines(c.path("m.r"), [i]).get(i)
        if x:
            c.sample({"stage": "parses", "grammar": lr.show(cases[x["g"] - 1])[:200], "input": x["s"], "calls": [e["r"] for e in x["ev"]], "end": x["e"]})
    c.extra["programs"] = len(cases)
    c.assumptions.append("macro invocations are sampled; each token and symbol is listed once; a deviation both builds share is not a violation of this property")
    return c.finish()
