#!/usr/bin/env python3
"""Decides one property: model checks its bounded models with TLC, drives the
real code (built from /repo's working tree) and has TLC judge what it did.

exit 0: held on everything explored; exit 1: VIOLATION line; 3: no answer."""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import CHECKS

REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.23.12"


def go_env(scratch):
    e = dict(os.environ)
    e.update(GOROOT=GOROOT, PATH=GOROOT + "/bin:" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off", GOENV="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", CGO_ENABLED="1", TZ="UTC")
    cache = "/root/.cache/go-build"
    try:
        os.makedirs(cache, exist_ok=True)
        t = os.path.join(cache, f".verif{os.getpid()}")
        open(t, "w").close()
        os.unlink(t)
    except OSError:
        cache = os.path.join(scratch, "gocache")
    e["GOCACHE"] = cache
    return e


class Trouble(Exception):
    """No answer can be given."""


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rand = random.Random(seed)
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=os.environ.get("TMPDIR", "/tmp"))
        self.env = go_env(self.scratch)
        self.states = self.transitions = self.traces = 0
        self.models, self.samples, self.skips = [], [], {}
        self.violations = []
        self.cov = {}
        self.bins = {}

    def log(self, *a):
        print(*a, flush=True)

    # ---- building ----
    def build(self, race=False, catseed=None, repo=None, scale=1.0, fresh=0, progs=None, sched=None):
        """The harness.  With sched: with a copy of the package whose operations
        on shared state are scheduled (sched/), and the types of the plan sched
        ("-": no plan); None if that cannot be built."""
        catseed = self.seed if catseed is None else catseed
        key = (race, catseed, repo, scale, fresh, progs, sched)
        if key in self.bins:
            return self.bins[key]
        if sched:
            repo = self.instrumented()
            if not repo:
                return None
        d = os.path.join(self.scratch, f"h{len(self.bins)}")
        os.makedirs(d)
        for f in os.listdir(os.path.join(VERIF, "harness")):
            if f.endswith(".go") and f not in ("catalog_gen.go", "prog_gen.go"):
                shutil.copy(os.path.join(VERIF, "harness", f), d)
        with open(os.path.join(d, "catalog_gen.go"), "w") as f:
            subprocess.run([sys.executable, os.path.join(VERIF, "tools/gencat.py"), str(catseed), str(scale), str(fresh)], stdout=f, check=True)
        with open(os.path.join(d, "prog_gen.go"), "w") as f:
            subprocess.run([sys.executable, os.path.join(VERIF, "tools/genprog.py"), *([progs] if progs else [])], stdout=f, check=True)
        with open(os.path.join(d, "go.mod"), "w") as f:
            f.write("module verifharness\n\ngo 1.23\n\nrequire github.com/wI2L/jettison v0.0.0\n\n"
                    f"replace github.com/wI2L/jettison => {repo or REPO}\n")
            if sched:
                f.write(f"\nrequire vsched v0.0.0\n\nreplace vsched => {VERIF}/sched/vsched\n")
        if sched:
            with open(os.path.join(d, "sched_gen.go"), "w") as f:
                subprocess.run([sys.executable, os.path.join(VERIF, "tools/gensched.py"), "/dev/null" if sched == "-" else sched], stdout=f, check=True)
        self.extra_requires(d, repo or REPO)
        out = os.path.join(d, "vh")
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + (["-tags", "vsched"] if sched else []) + ["."]
        r = subprocess.run(cmd, cwd=d, env=self.env, capture_output=True, text=True)
        if r.returncode and sched:
            self.cov["schedules_skipped"] = "the scheduled copy of the package does not build: " + r.stderr[-600:]
            out = None
        elif r.returncode:
            raise Trouble("the harness does not build:\n" + r.stderr[-3000:])
        self.bins[key] = out
        return out

    def instrumented(self):
        """a copy of the package whose operations on shared state are scheduled"""
        if "instrumented" not in self.bins:
            d = os.path.join(self.scratch, "instrumented")
            tool = os.path.join(self.scratch, "instr")
            r = subprocess.run(["go", "build", "-o", tool, "."], cwd=os.path.join(VERIF, "sched/instr"), env=self.env, capture_output=True, text=True)
            if r.returncode:
                raise Trouble("sched/instr does not build:\n" + r.stderr[-2000:])
            r = subprocess.run([tool, REPO, d], env=self.env, capture_output=True, text=True)
            if r.returncode:
                self.cov["schedules_skipped"] = "no scheduled copy of the package: " + r.stderr[-600:]
                d = None
            self.bins["instrumented"] = d
        return self.bins["instrumented"]

    def extra_requires(self, d, repo):
        """the dependencies /repo itself needs"""
        try:
            txt = open(os.path.join(repo, "go.mod")).read()
        except OSError:
            raise Trouble("no go.mod in " + repo)
        reqs = re.findall(r"^\s*(?:require\s+)?([\w./-]+\.[\w./-]+)\s+(v\S+)", txt, re.M)
        with open(os.path.join(d, "go.mod"), "a") as f:
            for m, v in reqs:
                if m != "github.com/wI2L/jettison":
                    f.write(f"\nrequire {m} {v} // indirect\n")
        if os.path.exists(os.path.join(repo, "go.sum")):
            shutil.copy(os.path.join(repo, "go.sum"), d)

    # ---- TLC ----
    def tlc(self, module, cfg, env=None, workers=2, timeout=600, heap="2g", args=()):
        m = tempfile.mkdtemp(dir=self.scratch)
        e = dict(self.env)
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = f"-Xss64m -Xmx{heap} -XX:+UseParallelGC -XX:ParallelGCThreads=4 -Djava.io.tmpdir={m}"
        cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", m + "/m", *args,
               "-config", os.path.join(VERIF, "spec", cfg), os.path.join(VERIF, "spec", module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=m, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Trouble(f"TLC took more than {timeout} s on {module}")
        out = r.stdout
        shutil.rmtree(m, ignore_errors=True)
        return r.returncode, out

    @staticmethod
    def counts(out):
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

    def model_env(self):
        none = os.path.join(self.scratch, "notypes.json")
        with open(none, "w") as f:
            f.write("[]")
        return {"JT_PLAN": "", "JT_SEED": str(self.seed), "JT_TYPES": none}

    def model(self, module, cfg=None, workers=8, timeout=800, env=None, args=()):
        """Model checks a bounded model of the specification alone."""
        cfg = cfg or module + ".cfg"
        t = time.time()
        rc, out = self.tlc(module, cfg, env={**self.model_env(), **(env or {})}, workers=workers, timeout=timeout, heap="6g", args=args)
        gen, dist = self.counts(out)
        if rc or "No error has been found" not in out:
            raise Trouble(f"{module} ({cfg}) does not check:\n" + out[-3000:])
        self.states += dist
        self.transitions += gen
        self.models.append({"model": cfg[:-4], "states": dist, "transitions": gen, "wall_s": round(time.time() - t, 1)})
        self.log(f"model {cfg[:-4]}: {dist} states, {gen} transitions, {time.time()-t:.1f}s")
        return out

    def cfg(self, module, cfg):
        """the configuration for the tier of this run"""
        cfg = cfg or module
        if self.tier == "thorough" and os.path.exists(os.path.join(VERIF, "spec", cfg + "Big.cfg")):
            cfg += "Big"
        return cfg + ".cfg"

    def refuted(self, module, cfg):
        """A design with a mistake in it: TLC must find it."""
        rc, out = self.tlc(module, cfg, env=self.model_env(), workers=8, heap="6g")
        if not re.search(r"Invariant \S+ is violated|Deadlock reached|properties were violated", out):
            raise Trouble(f"{module} ({cfg}) should have been refuted:\n" + out[-2000:])
        self.cov.setdefault("wrong_designs_refuted", []).append(cfg[:-4])

    def planned(self, module, cfg=None, step=1, procs=4, types=None, workers=8, judge_workers=2, kinds=None):
        """Model checks a bounded model, and replays the plan it writes (every
        step-th line of it, of the given kinds) into the code."""
        if self.violations:
            return
        plan = os.path.join(self.scratch, f"plan{len(os.listdir(self.scratch))}")
        self.model(module, cfg, workers=workers, env={"JT_PLAN": plan, **({"JT_TYPES": types} if types else {})})
        self.replay_plan(plan, step, procs, judge_workers=judge_workers, kinds=kinds)

    def schedules(self, draws, cfg="MC_Sched.cfg", piece=2500):
        """Plays schedules back with the code: those of MC_Sched, and the orders
        of behaviours of JCache drawn by TLC."""
        if self.violations or not self.instrumented():
            return
        plan = os.path.join(self.scratch, "schedules")
        self.model("MC_Sched", cfg, env={"JT_PLAN": plan}, args=["-seed", str(self.seed)])
        t = time.time()
        rc, out = self.tlc("MC_CacheSim", "MC_CacheSim.cfg", workers=1, heap="4g", timeout=700,
                           args=["-simulate", f"num={draws}", "-seed", str(self.seed)])
        lines = [json.loads(m.group(1)) for m in re.finditer(r'^("PLAN .*")$', out, re.M)]
        if rc or len(lines) < draws // 2:
            raise Trouble("MC_CacheSim:\n" + out[-2000:])
        n = max(int(x) for x in re.findall(r"(\d+) states checked|states generated: (\d+)", out) for x in x if x)
        self.states += n
        self.transitions += n
        self.models.append({"model": "MC_CacheSim", "behaviours": len(lines), "states": n, "transitions": n, "wall_s": round(time.time() - t, 1)})
        self.log(f"model MC_CacheSim: {len(lines)} behaviours, {n} states, {time.time()-t:.1f}s")
        lines = open(plan).readlines() + [l[5:] + "\n" for l in lines]
        self.rand.shuffle(lines)
        for k in range(0, len(lines), piece):
            part = f"{plan}{k}"
            with open(part, "w") as f:
                f.writelines(lines[k:k + piece])
            n = min(piece, len(lines) - k)
            if not self.build(sched=part):
                return
            self.cov["schedules"] = self.cov.get("schedules", 0) + n
            self.calls(n, prop="plan", extra=["-plan", part], sched=part)
            if self.violations:
                return

    def pairs(self, cfg="MC_Pairs.cfg"):
        """Plays the schedules of MC_Pairs back with the code."""
        if self.violations or not self.instrumented() or not self.build(sched="-"):
            return
        plan = os.path.join(self.scratch, "pairs")
        self.model("MC_Pairs", cfg, env={"JT_PLAN": plan})
        lines = open(plan).readlines()
        self.rand.shuffle(lines)
        with open(plan, "w") as f:
            f.writelines(lines)
        self.cov["pairs_of_calls"] = len(lines)
        self.calls(len(lines), prop="plan", extra=["-plan", plan], sched="-")

    def replay_plan(self, plan, step=1, procs=4, progs=None, judge_workers=2, kinds=None, extra=()):
        lines = [l for l in open(plan) if not kinds or json.loads(l)["z"] in kinds]
        lines = lines[self.seed % step::step]
        self.rand.shuffle(lines)
        with open(plan, "w") as f:
            f.writelines(lines)
        self.cov["plan_lines"] = self.cov.get("plan_lines", 0) + len(lines)
        if self.tier == "thorough":
            procs, judge_workers = 8, 1
        piece = 4000
        for k in range(0, len(lines), piece):
            self.calls(min(piece, len(lines) - k), first=k, procs=procs, prop="plan", extra=["-plan", plan, *extra], progs=progs, workers=judge_workers)

    def programs(self, cfg="MC_Programs.cfg", step=1):
        """Struct programs enumerated by MC_Programs: their fields resolved
        both ways by MC_Fields, their values encoded by the code."""
        if self.violations:
            return
        types = self.program_types(cfg)
        self.model("MC_Fields", env={"JT_TYPES": types})
        n = len([1 for t in json.load(open(types)) if t["k"] == "struct"])
        plan = os.path.join(self.scratch, "programs.plan")
        with open(plan, "w") as f:
            f.writelines(json.dumps({"z": "prog", "s": i}) + "\n" for i in range(n))
        self.cov["programs"] = n
        self.replay_plan(plan, step, progs=types)

    def program_types(self, cfg, module="MC_Programs"):
        """the table of types that MC_Programs (or MC_Table) writes"""
        self.progcfg = cfg
        types = os.path.join(self.scratch, module + ".json")
        rc, out = self.tlc(module, cfg, env={"JT_PLAN": "", "JT_SEED": str(self.seed), "JT_TYPES": types}, heap="4g")
        if rc:
            raise Trouble(module + ": " + out[-2000:])
        return types

    def values(self, cfg="MC_Table.cfg", step=1):
        """The values of MC_Values, of the types of MC_Table: what the
        specification says of them is checked, and the code encodes them."""
        if self.violations:
            return
        types = self.program_types(cfg, "MC_Table")
        plan = os.path.join(self.scratch, "values.plan")
        self.model("MC_Values", env={"JT_TYPES": types, "JT_PLAN": plan})
        self.cov["value_types"] = len(json.load(open(types)))
        self.replay_plan(plan, step, extra=["-table", types])

    def plan_of(self, args, case):
        """the line of the plan that a case came from, for replay files"""
        if "-plan" not in args or not str(case).isdigit():
            return {}
        lines = open(args[args.index("-plan") + 1]).readlines()
        l = lines[int(case)]
        return {"plan": l, **({"cfg": self.progcfg} if '"prog"' in l else {}), **({"table": self.progcfg} if "-table" in args else {}),
                **({"sched": True} if '"sched"' in l or '"pairs"' in l else {})}

    # ---- driving the code ----
    def drive(self, bin, name, args, env=None, timeout=400):
        """Runs the harness once; (directory, None) or (directory, crash)."""
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        e = dict(self.env)
        e.update(env or {})
        e.setdefault("GOMAXPROCS", "4")
        err = open(os.path.join(d, "stderr"), "wb")
        try:
            r = subprocess.run([bin, "-seed", str(self.seed), "-out", d, *args], cwd=d, env=e,
                               stdout=err, stderr=err, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            r = 97
        err.close()
        if r == 0:
            return d, None
        txt = open(os.path.join(d, "stderr"), errors="replace").read()
        if r in (3, -15):
            raise Trouble(f"harness failed ({r}): {txt[-2000:]}")
        case = ""
        try:
            case = open(os.path.join(d, "journal")).readline().strip()
        except OSError:
            pass
        return d, {"exit": r, "case": case, "args": args, "stderr": txt[:6000]}

    def judge(self, d, module="TraceCalls", workers=2, timeout=700):
        """TLC judges the events of directory d; returns the rejected ones."""
        ev = os.path.join(d, "events.ndjson")
        n = sum(1 for _ in open(ev, "rb"))
        if n == 0:
            return 0, []
        rc, out = self.tlc(module, module + ".cfg", workers=workers, timeout=timeout,
                           env={"JT_TYPES": os.path.join(d, "types.json"), "JT_EVENTS": ev}, heap="3g")
        if rc or f'<<"JUDGED", {n}>>' not in out:
            i = out.find("Error")
            raise Trouble(f"TLC did not judge the events of {d}:\n" + out[max(0, i):][:3000])
        gen, dist = self.counts(out)
        self.states += dist
        self.transitions += gen
        rej = []
        for m in re.finditer(r'^"REJECT (\d+) (.*)"$', out, re.M):
            rej.append((int(m.group(1)), json.loads(m.group(2).replace('\\"', '"').replace("\\\\", "\\"))))
        return n, sorted(rej, key=lambda x: x[0])

    def calls(self, n, procs=4, first=0, race=False, env=None, timeout=400, extra=(), catseed=None, judge="TraceCalls", workers=2, prop=None, progs=None, judge_procs=None, sched=None, fresh=0):
        """n cases of the property's driver, in several processes, judged."""
        if self.violations:
            return
        bin = self.build(race=race, catseed=catseed, progs=progs, sched=sched, fresh=fresh)
        per = (n + procs - 1) // procs
        tag = f"r{len(os.listdir(self.scratch))}"

        def one(k):
            a = ["-prop", prop or self.prop, "-from", str(first + k * per), "-n", str(per), *extra]
            d, crash = self.drive(bin, f"{tag}_{k}", a, env=env, timeout=timeout)
            return a, d, crash

        with ThreadPoolExecutor(procs) as ex:
            runs = list(ex.map(one, range(procs)))
        for a, d, crash in runs:
            if crash:
                self.crash(bin, a, d, crash, env, timeout)
        if self.violations:
            return
        with ThreadPoolExecutor(judge_procs or procs) as ex:
            judged = list(ex.map(lambda x: self.judge(x[1], judge, workers), runs))
        for (a, d, _), (cnt, rej) in zip(runs, judged):
            self.traces += cnt
            st = json.load(open(os.path.join(d, "stats.json")))
            for k, v in st["skips"].items():
                self.skips[k] = self.skips.get(k, 0) + v
            for k in ("cases", "events", "types"):
                self.cov[k] = self.cov.get(k, 0) + st[k]
            self.pick_samples(d, cnt)
            if rej:
                self.rejected(a, d, rej)
            shutil.rmtree(d, ignore_errors=True)

    def histories(self, n, chunk, orders, first=0, race=False, fresh=0, catseed=None, scale=1.0, timeout=300, procs=8, env=None):
        """n cases, the calls of each made by several processes in different
        orders (or at once); the records of a call are judged together."""
        bin = self.build(race=race, catseed=catseed, fresh=fresh, scale=scale)
        turns = None
        if any(o >= 100 for o in orders):
            turns = self.build(catseed=catseed, fresh=fresh, scale=scale, sched="-")
            if not turns:
                orders = [o for o in orders if o < 100]
        e = {"GORACE": "halt_on_error=1 exitcode=66", **(env or {})}
        tag = f"r{len(os.listdir(self.scratch))}"
        jobs = [(c, o) for c in range(first, first + n, chunk) for o in orders]

        def one(j):
            c, o = j
            a = ["-prop", self.prop, "-from", str(c), "-n", str(chunk), "-order", str(o)]
            d, crash = self.drive(turns if o >= 100 else bin, f"{tag}_{c}_{o}", a, env=e, timeout=timeout)
            return a, d, crash

        with ThreadPoolExecutor(procs) as ex:
            runs = list(ex.map(one, jobs))
        for a, d, crash in runs:
            if crash:
                self.crash(turns if int(a[-1]) >= 100 else bin, a, d, crash, e, timeout)
                if len(self.violations) > 3:
                    return
        if self.violations:
            return
        merged, order = {}, []
        for a, d, _ in runs:
            for l in open(os.path.join(d, "events.ndjson")):
                ev = json.loads(l)
                k = (ev["id"], ev["seq"])
                if k in merged:
                    for m in ("rs", "kept", "pure"):
                        merged[k][m] += ev[m]
                else:
                    merged[k] = ev
                    order.append(k)
            st = json.load(open(os.path.join(d, "stats.json")))
            self.cov["cases"] = self.cov.get("cases", 0) + st["cases"]
            types = os.path.join(d, "types.json")
        parts = [[] for _ in range(4)]
        for i, k in enumerate(order):
            parts[i * 4 // len(order)].append(merged[k])

        def jd(i):
            d = os.path.join(self.scratch, f"{tag}_j{i}")
            os.makedirs(d)
            shutil.copy(types, d)
            with open(os.path.join(d, "events.ndjson"), "w") as f:
                for ev in parts[i]:
                    f.write(json.dumps(ev) + "\n")
            return d, self.judge(d)

        self.cov["calls"] = self.cov.get("calls", 0) + sum(len(m["rs"]) for m in merged.values())
        self.cov["orders"] = len(orders)
        with ThreadPoolExecutor(4) as ex:
            judged = list(ex.map(jd, range(4)))
        for d, (cnt, rej) in judged:
            self.traces += cnt
            self.pick_samples(d, cnt)
            if rej:
                self.rejected(["-prop", self.prop, "histories"], d, rej)
        for a, d, _ in runs:
            shutil.rmtree(d, ignore_errors=True)
        for d, _ in judged:
            shutil.rmtree(d, ignore_errors=True)

    def replay(self, rep):
        """runs the cases of a replay file again"""
        seen = set()
        for v in rep["violations"]:
            a = list(v["args"])
            key = (tuple(a), v.get("case"))
            if key in seen:
                continue
            seen.add(key)
            if "plan" in v:
                types = self.program_types(v["cfg"]) if v.get("cfg") else None
                plan = os.path.join(self.scratch, f"plan{len(seen)}")
                with open(plan, "w") as f:
                    f.write(v["plan"] * (int(v["case"]) + 1))      # the number of the case seeds its choices
                a = ["-prop", "plan", "-plan", plan, "-from", str(int(v["case"])), "-n", "1"]
                if v.get("table"):
                    a += ["-table", self.program_types(v["table"], "MC_Table")]
                bin = self.build(progs=types, sched=("-" if '"pairs"' in v["plan"] else plan) if v.get("sched") else None)
                if not bin:
                    raise Trouble(self.cov["schedules_skipped"])
            else:
                bin = self.build()
            if "plan" not in v and str(v.get("case", "")).isdigit() and "-n" in a and "stderr" not in v:
                a[a.index("-from") + 1], a[a.index("-n") + 1] = str(v["case"]), "1"
            d, crash = self.drive(bin, f"p{len(seen)}", a)
            if crash:
                self.crash(bin, a, d, crash, None, 400)
                continue
            cnt, rej = self.judge(d)
            self.traces += cnt
            self.rejected(a, d, rej)
        return "replay"

    def pick_samples(self, d, n):
        if len(self.samples) >= 4:
            return
        want = {n // 3, 2 * n // 3}
        for i, l in enumerate(open(os.path.join(d, "events.ndjson"))):
            if i in want and len(l) < 6000:
                self.samples.append(readable(json.loads(l)))

    def crash(self, bin, args, d, crash, env, timeout):
        """The program died or hung: does it again?"""
        again = 0
        for k in range(2):
            _, c = self.drive(bin, os.path.basename(d) + f"_again{k}", args, env=env, timeout=timeout)
            if c:
                again += 1
                break
        alone = None
        if crash["case"].isdigit() and "-n" in args:
            b = list(args)
            b[b.index("-from") + 1], b[b.index("-n") + 1] = crash["case"], "1"
            _, alone = self.drive(bin, os.path.basename(d) + "_alone", b, env=env, timeout=120)
        if not again and not alone and crash["exit"] == 97:
            raise Trouble("a call took very long once, but not again:\n" + crash["stderr"][:1500])
        what = "a call does not return" if crash["exit"] == 97 else "the program died"
        self.violations.append({"what": what, "reproduced": again + (1 if alone else 0),
                                "alone": bool(alone), **crash, **self.plan_of(args, crash["case"])})

    def rejected(self, args, d, rej):
        lines = {}
        want = {n for n, _ in rej}
        for i, l in enumerate(open(os.path.join(d, "events.ndjson")), 1):
            if i in want:
                lines[i] = json.loads(l)
        for n, what in rej:
            ev = lines[n]
            if any(w[0] == "calibrate" for w in what):
                raise Trouble("the specification disagrees with encoding/json on case "
                              f"{ev['id']}: {json.dumps(readable(ev))[:1500]} {json.dumps(what)[:600]}")
            self.violations.append({"what": [[w[0], text(w[1])] for w in what], "case": ev["id"], "args": args, "event": readable(ev), **self.plan_of(args, ev["id"])})

    # ---- the end ----
    def finish(self, levelinfo):
        known = load_known(self.prop)
        new, seen = [], []
        for v in self.violations:
            k = next((k for k in known if k in json.dumps(v)), None)
            (seen if k else new).append(v)
        for k in known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:4], "models": self.models, **self.cov,
                           "not_judged": self.skips, "what": levelinfo},
              "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            p = os.path.join("evidence", self.prop + "-replay.json")
            with open(os.path.join(VERIF, p), "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "count": len(new),
                           "how": f"./check.sh {self.prop} --replay {p}", "violations": new[:20]}, f, indent=1)
            for v in new[:3]:
                self.log("--", json.dumps(v)[:1500])
            print(f"VIOLATION property={self.prop} replay={p}")
            return 1
        self.log(f"{self.prop}: held; {self.traces} recorded calls judged, {self.states} states, {time.time()-self.t0:.1f}s")
        return 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            if l.startswith(f"finding: property={prop} "):
                out.append(l.split("match=", 1)[1].strip())
    except OSError:
        pass
    return out


def text(x):
    """byte sequences as text"""
    if isinstance(x, list) and x and all(type(c) is int and -3 <= c < 256 for c in x):
        return "".join(chr(c) if 32 <= c < 127 else f"\\x{c:02x}" if c >= 0 else "?<|>"[-c] for c in x)
    if isinstance(x, list):
        return [text(y) for y in x]
    if isinstance(x, dict):
        return {k: text(v) for k, v in x.items()}
    return x


def readable(ev):
    e = {}
    for k, v in ev.items():
        if k in ("vs", "gs"):
            s = json.dumps(text(v))
            e[k] = s if len(s) < 1500 else s[:1500] + "..."
        elif k in ("g", "std", "a"):
            e[k] = text(v["b"]) if v["ok"] else {"err": v["e"]}
        elif k in ("v", "nodes"):
            s = json.dumps(text(v))
            e[k] = s if len(s) < 1500 else s[:1500] + "..."
        elif k in ("o", "ly", "deep"):
            continue
        else:
            e[k] = text(v)
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.replay:
        rep = json.load(open(os.path.join(VERIF, a.replay) if not os.path.isabs(a.replay) else a.replay))
        a.seed, a.tier = rep["seed"], rep["tier"]
    run = Run(a.prop or "build", a.tier, a.seed)
    try:
        if a.build:
            run.build()
            print("the harness builds")
            sys.exit(0)
        if a.replay:
            info = run.replay(rep)
        else:
            info = CHECKS[a.prop](run)
        rc = run.finish(info)
    except Trouble as t:
        print("no answer:", t)
        rc = 3
        if run.violations:      # what was found before the trouble counts
            rc = run.finish("incomplete")
    finally:
        run.close()
    sys.exit(rc)


if __name__ == "__main__":
    main()
