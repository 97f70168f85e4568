"""Shared plumbing: build the harness, run TLC, collect violations, write evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "work", "target")
REPO = "/repo"
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


OWN = re.compile(r"^(parser|tokenizer|parser_generator|tokenizer_generator|example|harness|toks|macros|pars|forms|[a-z0-9_]*_w)-[0-9a-f]{16}$")


def fresh_target():
    """Cargo goes by file times; what was built from another content of the tree is thrown away whatever its time."""
    h = hashlib.sha256()
    for root in (REPO, HARNESS):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "work"))
            for n in sorted(fs):
                if n.endswith((".rs", ".toml")) or "rust-toolchain" in n:
                    p = os.path.join(d, n)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as f:
                        h.update(f.read())
    stamp = os.path.join(TARGET, "tree.sha256")
    try:
        if open(stamp).read() == h.hexdigest():
            return
    except OSError:
        pass
    fp = os.path.join(TARGET, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if OWN.match(n):
                shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    os.makedirs(TARGET, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(h.hexdigest())


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "work", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.states = 0
        self.trans = 0
        self.traces = 0
        self.samples = []
        self.stages = []
        self.assumptions = []
        self.viol = []
        self.known = []
        self.extra = {}
        self.builds = 0
        fresh_target()

    def path(self, name):
        return os.path.join(self.work, name)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- building -------------------------------------------------------
    def cargo(self, bins, must=True, manifest=HARNESS):
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
        cmd = ["cargo", "build", "--offline", "--quiet"]
        for b in bins:
            cmd += ["--bin", b]
        p = subprocess.run(cmd, cwd=manifest, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            if must:
                raise ToolError("harness does not build:\n" + p.stdout[-4000:])
            return False
        return True

    def bin(self, name):
        return os.path.join(TARGET, "debug", name)

    def harness(self, name, *args, timeout=600):
        """Runs a harness binary; returns (hang description or None, stdout)."""
        cmd = [self.bin(name)] + [str(a) for a in args]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"{cmd} did not finish in {timeout}s")
        out = p.stdout.decode("utf-8", "replace")
        if p.returncode == 3 and "HANG" in out:
            return out[out.index("HANG"):].strip()[:2000], out
        if p.returncode < 0 or p.returncode == 101 or p.returncode == 134:
            # the process died: stack overflow, abort or a harness panic
            raise Died(cmd, p.returncode, (out + p.stderr.decode("utf-8", "replace"))[-3000:])
        if p.returncode != 0:
            raise ToolError(f"{cmd} exited {p.returncode}: {out[-1000:]} {p.stderr[-2000:]}")
        return None, out

    # ---- TLC --------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, name=None, workers=8, xmx="6g", timeout=3000, count=True, simulate=None):
        name = name or module
        meta = self.path("meta_" + name)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + xmx, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-noGenerateSpecTE", "-metadir", meta, "-config", (cfg or module) + ".cfg", module + ".tla"]
        if simulate:
            # random behaviours instead of all of them
            cmd[cmd.index("-workers") + 1] = "1"
            cmd[-1:-1] = ["-simulate", f"num={simulate}", "-depth", "400", "-seed", str(self.seed)]
        e = dict(os.environ)
        for k, v in (env or {}).items():
            e[k] = str(v)
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC on {name} did not finish in {timeout}s")
        shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout.decode("utf-8", "replace")
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if simulate and "Error" not in out:
            n = [int(x.replace(",", "")) for x in re.findall(r"The number of states generated: ([\d,]+)", out)]
            self.trans += n[-1] if n else 0
            self.stages.append({"tlc": name, "random_behaviours": simulate, "transitions": n[-1] if n else 0, "s": round(time.time() - t, 1)})
            return TlcResult(name, out, True, 0, n[-1] if n else 0)
        if "Model checking completed. No error has been found." not in out or not m:
            log = self.path(name + ".tlc.log")
            open(log, "w").write(out)
            r = TlcResult(name, out, False, 0, 0)
            r.log = log
            return r
        gen, dist = [int(x.replace(",", "")) for x in m[-1]]
        if count:
            self.states += dist
            self.trans += gen
        self.stages.append({"tlc": name, "distinct_states": dist, "transitions": gen, "s": round(time.time() - t, 1)})
        return TlcResult(name, out, True, dist, gen)

    def model(self, module, cfg=None, env=None, name=None, **kw):
        """A pure model check: must succeed, its failure is an error of the specification."""
        r = self.tlc(module, cfg, env, name, **kw)
        if not r.ok:
            raise ToolError(f"model {name or module} failed, see {r.log}\n" + r.out[-3000:])
        return r

    def refuted(self, module, cfg, inv):
        """a variant of the model known to be wrong: TLC has to find that out"""
        r = self.tlc(module, cfg, name=cfg)
        if f"Invariant {inv} is violated" not in r.out:
            raise ToolError(f"{cfg} was expected to violate {inv}\n" + r.out[-2000:])
        self.stages.append({"tlc": cfg, "wrong_variant_refuted_by": inv})

    # ---- results -----------------------------------------------------------
    def violation(self, what, detail):
        n = len(self.viol) + 1
        p = os.path.join(self.replays, f"{self.pid}-{n}.json")
        if n <= 20:
            with open(p, "w") as f:
                json.dump({"property": self.pid, "what": what, "seed": self.seed, "tier": self.tier, "case": detail}, f, indent=1)
        self.viol.append((what, p))

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def finish(self):
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
               "samples": self.samples, "stages": self.stages}
        cov.update(self.extra)
        if self.level == "translation_validation":
            cov.setdefault("programs", self.builds)
            cov.setdefault("disagreements_checked", self.traces)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        shutil.rmtree(self.work, ignore_errors=True)
        if self.viol:
            for what, p in self.viol[:5]:
                print(f"  {what}"[:600])
            print(f"VIOLATION property={self.pid} replay={self.viol[0][1]}")
            return 1
        print(f"OK {self.pid}: {self.states} states, {self.traces} recorded executions validated, {round(time.time() - self.t0, 1)} s")
        return 0


class Died(Exception):
    def __init__(self, cmd, rc, out):
        super().__init__(f"{cmd} died with {rc}: {out}")
        self.cmd, self.rc, self.out = cmd, rc, out


class TlcResult:
    def __init__(self, name, out, ok, dist, gen):
        self.name, self.out, self.ok, self.dist, self.gen = name, out, ok, dist, gen
        self.log = None

    def prints(self, tag):
        """PrintT tuples whose first element is tag, as raw text without the tag"""
        start = re.compile(r'<<\s*"%s",\s*' % tag)
        res = []
        acc = None
        for line in self.out.splitlines():
            if acc is None:
                if start.match(line):
                    acc = line
            else:
                acc += " " + line.strip()
            if acc is not None and acc.count("<<") == acc.count(">>"):
                t = re.sub(r"\s+", " ", acc[start.match(acc).end():]).rstrip()
                t = t[:-2].rstrip()
                t = re.sub(r"<< ", "<<", t)
                t = re.sub(r" >>", ">>", t)
                t = re.sub(r"\{ ", "{", t)
                t = re.sub(r" \}", "}", t)
                res.append(t)
                acc = None
        return res


def rejects(r):
    """(case, set of kinds, step) of every REJECT line"""
    out = []
    for t in r.prints("REJECT"):
        m = re.match(r"(\d+), \{(.*)\}, (-?\d+)$", t)
        out.append((int(m.group(1)), sorted(re.findall(r'"([^"]+)"', m.group(2))), int(m.group(3))))
    return sorted(set((a, tuple(b), c) for a, b, c in out))


def lines(path, wanted):
    """the given 1-based lines of a file, parsed"""
    wanted = set(wanted)
    out = {}
    with open(path) as f:
        for i, l in enumerate(f, 1):
            if i in wanted:
                out[i] = json.loads(l)
    return out


def count_lines(path):
    with open(path, "rb") as f:
        return sum(1 for _ in f)
