"""Shared machinery of the checks: compile interpreters, run TLC (model checking, generation,
trace validation), bind the two, write evidence, report violations."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 4
LIBS = {"opencv": ["-I/usr/include/opencv4"], }

class CheckError(Exception): pass

class Variant:
    """One build of an interpreter: numeric type, other numeric type, extra defines."""
    def __init__(self, ft="double", gt=None, defs=(), flags=(), libs=(), name=None):
        self.ft = ft
        self.gt = gt or {"double": "float", "float": "double", "long double": "double"}[ft]
        self.defs, self.flags, self.libs = list(defs), list(flags), list(libs)
        self.name = name or "_".join([ft.replace(" ", "")] + [d.replace("HOMOG2D_", "").lower() for d in self.defs])

D = Variant("double")
F = Variant("float")
L = Variant("long double")

class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.rng = random.Random(seed * 7919 + int(pid[1:]))
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        self.wd = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(VERIF, "build"))
        self.bins, self.pending = {}, []
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.states = self.transitions = 0
        self.validated = self.events = self.executed = 0
        self.mc_runs, self.samples, self.violations, self.known_hit = [], [], [], []
        self.notes = {}
        self.assumptions = []
        self.ntr = 0
        self.known = load_known(pid)
        self.lock = threading.Lock()

    @property
    def quick(self): return self.tier == "quick"
    def pick(self, q, t): return q if self.quick else t
    def log(self, *a): print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------ compile
    def build(self, name, variants):
        """compile harness/<name>.cpp for every variant, in parallel"""
        def one(v):
            out = os.path.join(self.wd, name + "." + v.name)
            cmd = ["g++", "-std=c++17", "-O1", "-w", "-I" + REPO, "-I" + HARN, "-DFT=" + v.ft, "-DGT=" + v.gt]
            cmd += ["-D" + d for d in v.defs] + v.flags + [os.path.join(HARN, name + ".cpp"), "-o", out] + v.libs
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                # the interpreter only uses the public interface: it compiles on every tree that provides it
                with self.lock:
                    self.violation(dict(harness=name, variant=v.name, errors=p.stderr[:3000]),
                                   "using the public interface does not compile (%s, %s):\n%s" % (name, v.name, p.stderr[:1500]))
                raise CheckError("interpreter %s (%s) does not compile" % (name, v.name))
            return (name, v.name), out
        self.pending.append((name, [v.name for v in variants], [self.pool.submit(one, v) for v in variants]))

    def builds(self):
        """waits for the compilations under way"""
        while self.pending:
            name, vs, fs = self.pending.pop(0)
            for f in fs:
                k, o = f.result()
                self.bins[k] = o
            self.log("built", name, vs)

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, args=(), workers=NCPU, timeout=1200, tag="", nolog=False):
        meta = tempfile.mkdtemp(prefix="meta", dir=self.wd)
        cfgfile = cfg
        if "\n" in cfg:
            cfgfile = os.path.join(self.wd, "c%d.cfg" % self.nextid())
            open(cfgfile, "w").write(cfg)
        cmd = ["tlc", "-config", cfgfile, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *args,
               os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        outf = os.path.join(self.wd, "tlc%d.out" % self.nextid())
        t = time.time()
        with open(outf, "w") as f:
            try:
                p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=SPEC)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -9
        shutil.rmtree(meta, ignore_errors=True)
        out = open(outf, errors="replace").read()
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        gen, dist = (0, 0)
        if m:
            gen, dist = [int(x.replace(",", "")) for x in m[-1]]
        return dict(rc=rc, out=out, gen=gen, dist=dist, wall=time.time() - t)

    def nextid(self):
        with self.lock:
            self.ntr += 1
            return self.ntr

    def model_check(self, module, cfg, args=(), what="", workers=NCPU, timeout=1200, count=True):
        """exhaustive model checking (or simulation): returns the JSON lines it printed"""
        r = self.tlc(module, cfg, args=args, workers=workers, timeout=timeout)
        if r["rc"] != 0 or "No error has been found" not in r["out"] and "-simulate" not in args:
            i = r["out"].find("Error:")
            raise CheckError("TLC on %s failed (rc %s): %s" % (module, r["rc"], r["out"][i if i >= 0 else -3000:][:3000]))
        lines = [json.loads(json.loads(x)) for x in r["out"].splitlines() if x.startswith('"[')]
        gen, dist = r["gen"], r["dist"]
        if "-simulate" in args:
            m = re.findall(r"The number of states generated: ([\d,]+)", r["out"])
            gen = int(m[-1].replace(",", "")) if m else 0
            dist = 0
        if count:
            self.states += dist
            self.transitions += gen
        self.mc_runs.append(dict(module=module, what=what, states=dist, generated=gen, emitted=len(lines), wall_s=round(r["wall"], 1)))
        self.log("TLC", module, what, "generated", gen, "distinct", dist, "emitted", len(lines), "%.1fs" % r["wall"])
        return lines

    def simulate(self, module, cfg, num, depth, what="", jobs=4):
        """random histories of the model, generated by several TLC processes with seeds of their own"""
        jobs = min(jobs, max(1, num // 20))
        with cf.ThreadPoolExecutor(jobs) as ex:
            fs = [ex.submit(self.model_check, module, cfg, ["-simulate", "num=%d" % (-(-num // jobs)), "-depth", str(depth),
                            "-seed", str(self.seed * 1000 + 17 * k + hash_int(what) % 1000)], "%s (%d/%d)" % (what, k + 1, jobs), 1) for k in range(jobs)]
            return [lines_of(h) for f in fs for h in f.result()]

    # ------------------------------------------------------------ run the real code
    def execute(self, name, variant, episodes, scale=1.0):
        """run the episodes (lists of lines) in the interpreter; returns a list of event-line lists"""
        b = self.bins[(name, variant.name)]
        n = self.nextid()
        scen, tr = os.path.join(self.wd, "s%d.txt" % n), os.path.join(self.wd, "t%d.ndjson" % n)
        starts, ln = [], 0
        with open(scen, "w") as f:
            for ep in episodes:
                starts.append(ln)
                for x in ep:
                    f.write(x + "\n")
                ln += len(ep)
        frm, crashes = 0, 0
        while True:
            p = subprocess.run([b, scen, tr, repr(scale), str(frm)], capture_output=True, text=True, timeout=800, cwd=self.wd)
            if p.returncode == 0:
                break
            if p.returncode != 77:
                raise CheckError("interpreter %s ended with %d: %s" % (name, p.returncode, p.stderr[-500:]))
            crashes += 1
            if crashes > 60:
                self.log("too many crashes, stopping this batch")
                break
            m = re.search(r"crash at line (\d+)", p.stderr)
            at = int(m.group(1))
            nxt = [s for s in starts if s >= at]
            if not nxt:
                break
            frm = nxt[0]
        res, cur = [], None
        with open(tr) as f:
            for line in f:
                if line.startswith('{"op":"begin"'):
                    cur = []
                    res.append(cur)
                cur.append(line)
        os.unlink(tr)
        os.unlink(scen)
        return res, crashes

    def validate(self, module, traces, env=None):
        """traces: list of event-line lists. Returns {trace index: rejected event index}"""
        total = sum(len(t) for t in traces)
        cap = max(4000, min(25000, total // 6 + 1))
        chunks, cur, sz = [], [], 0
        for k, t in enumerate(traces):
            if cur and sz + len(t) > cap:
                chunks.append(cur); cur, sz = [], 0
            cur.append(k); sz += len(t)
        if cur: chunks.append(cur)
        rej = {}
        with cf.ThreadPoolExecutor(6) as ex:
            for r in ex.map(lambda ch: self.validate_chunk(module, traces, ch, env), chunks):
                rej.update(r)
        return rej

    def validate_chunk(self, module, traces, ch, env, depth=0):
        n = self.nextid()
        tf = os.path.join(self.wd, "v%d.ndjson" % n)
        pos, rej, ln = [], {}, 0
        with open(tf, "w") as f:
            for k in ch:
                pos.append((ln + 1, ln + len(traces[k]), k))
                ln += len(traces[k])
                f.writelines(traces[k])
        r = self.tlc(module, os.path.join(SPEC, "Trace.cfg"), env=dict(env or {}, TRACE=tf), workers=2)
        os.unlink(tf)
        if "No error has been found" not in r["out"]:
            # an observation the specification cannot even evaluate (e.g. a wild value that overflows): rejected
            i = r["out"].find("Error:")
            ls = [int(x) for x in re.findall(r"^/\\ l = (\d+)", r["out"], re.M)]
            if not ls or r["rc"] == -9:
                raise CheckError("trace validation with %s failed: %s" % (module, r["out"][i if i >= 0 else -3000:][:4000]))
            b = ls[-1] + 1
            for a, z, k in pos:
                if a <= b - 1 <= z:
                    self.log("not evaluable by the specification: " + traces[k][min(b - a, z - a)].strip()[:300])
                    rej[k] = min(b - a, z - a)
                    rest = [x for x in ch if x != k]
                    if rest and depth < 6:
                        rej.update(self.validate_chunk(module, traces, rest, env, depth + 1))
                    return rej
            raise CheckError("trace validation with %s failed: %s" % (module, r["out"][i if i >= 0 else -3000:][:4000]))
        bad = sorted(int(x) for x in re.findall(r'<<"REJECT", (\d+)>>', r["out"]))
        skipped = 0
        for b in bad:
            for a, z, k in pos:
                if a <= b <= z:
                    if k not in rej:
                        rej[k] = b - a
                        skipped += z - b + 1
                    break
        if r["dist"] != ln - skipped:      # every event must have been consumed
            raise CheckError("trace validation with %s consumed %d of %d events" % (module, r["dist"], ln - skipped))
        with self.lock:
            self.events += r["dist"]
        return rej

    def conform(self, name, module, episodes, configs, env=None, what="", sample=True, minimize=True):
        """Run the episodes in every (variant, scale) configuration, validate all distinct traces.
        configs: list of (variant, scale) or (variant, scale, fraction of the episodes)"""
        self.builds()
        if not episodes:
            return
        uniq, order = {}, []
        def one(c):
            v, sc = c[0], c[1]
            eps = episodes
            if len(c) > 2 and c[2] < 1:
                step = max(1, round(1 / c[2]))
                off = hash_int(v.name + str(sc)) % step
                eps = episodes[off::step]
            res, crashes = self.execute(name, v, eps, sc)
            return c, eps, res
        with cf.ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(one, configs))
        for c, eps, res in results:
            self.executed += len(res)
            for k, t in enumerate(res):
                key = "".join(t)
                if key not in uniq:
                    uniq[key] = len(order)
                    order.append((t, c, eps[k] if len(res) == len(eps) else None, eps))
        traces = [o[0] for o in order]
        rej = self.validate(module, traces, env)
        self.validated += len(traces)
        if sample and traces:
            t = traces[len(traces) // 2]
            self.samples.append(dict(what=what, trace=[json.loads(x) for x in t[:6]]))
        self.log("conform", what or name, "episodes", len(episodes), "configs", len(configs), "distinct traces", len(traces),
                 "events", sum(len(t) for t in traces), "rejected", len(rej))
        for k, evi in sorted(rej.items()):
            t, c, ep, eps = order[k]
            if ep is None:
                ep = self.episode_of(t)
            self.report(name, module, c, ep, t, evi, env, what)
            if len(self.violations) >= 5:
                break

    def agree(self, name, episodes, base, others, scale=1.0, what="", prefix=True):
        """Run the episodes in the base build and in the others: spec/Config.tla judges the pair of runs.
        Builds without run-time checks are given the histories without the requests that the base build refuses."""
        self.builds()
        if not episodes:
            return
        ref, _ = self.execute(name, base, episodes, scale)
        refused = lambda x: '"r":"throw"' in x or '"r":"crash"' in x or '"k":"throw"' in x or '"invalid"' in x or "-7777777" in x or re.search(r'"\w+T":true', x)
        eps, refs = episodes, ref
        while any("NOCHECKS" in d for v in others for d in v.defs):
            cut = [[l for l, x in zip(ep, t) if not refused(x)] for ep, t in zip(eps, refs)]
            done = all(len(a) == len(b) for a, b in zip(cut, eps))
            eps = cut
            refs, _ = self.execute(name, base, eps, scale)
            if done:
                break
        for v in others:
            nochk = any("NOCHECKS" in d for d in v.defs)
            e2, r2 = (eps, refs) if nochk else (episodes, ref)
            res, _ = self.execute(name, v, e2, scale)
            traces = []
            for a, b in zip(r2, res):
                t = ['{"op":"begin","x":%s,"y":%s}\n' % (a[0].strip(), b[0].strip())]
                for k in range(1, max(len(a), len(b))):
                    t.append('{"op":"step","x":%s,"y":%s}\n' % (a[k].strip() if k < len(a) else "{}", b[k].strip() if k < len(b) else "{}"))
                traces.append(t)
            rej = self.validate("ConfigTrace", traces)
            self.executed += len(res)
            self.validated += len(traces)
            self.log("agree", what or name, base.name, "/", v.name, "episodes", len(e2), "events", sum(len(t) for t in traces), "rejected", len(rej))
            for k, evi in sorted(rej.items())[:3]:
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                path = os.path.join(VERIF, "replays", "%s-%d.json" % (self.pid, len(self.violations) + 1))
                json.dump(dict(property=self.pid, what=what, harness=name, builds=[dict(numeric_type=w.ft, defines=w.defs) for w in (base, v)], scale=scale, spec_module="ConfigTrace",
                               scenario=e2[k], rejected_event_index=evi, rejected_event=json.loads(traces[k][evi])), open(path, "w"), indent=1)
                self.violations.append(path)
                self.log("builds %s and %s differ: %s" % (base.name, v.name, traces[k][evi][:500]))
                self.log("   scenario: " + " ; ".join(e2[k])[:600])
                print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
                if len(self.violations) >= 5:
                    return

    def episode_of(self, t):
        out = []
        for x in t:
            e = json.loads(x)
            out.append(" ".join([e["op"]] + [str(y) for y in e["a"]]))
        return out

    def report(self, name, module, c, ep, t, evi, env, what):
        v, sc = c[0], c[1]
        ev = t[evi].strip()
        kf = self.match_known(ev, ep)
        if kf:
            if kf not in self.known_hit:
                self.known_hit.append(kf)
            return
        # a rejection counts only if it is repeated
        res, _ = self.execute(name, v, [ep], sc)
        rej = self.validate(module, res, env)
        if not rej:
            self.log("NOT REPRODUCED alone: %s" % ev[:300])
            return
        rid = "%s-%d" % (self.pid, len(self.violations) + 1)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", rid + ".json")
        cut = min(rej.values())
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, what=what, harness=name, numeric_type=v.ft, defines=v.defs, scale=sc, spec_module=module,
                           env=env, scenario=ep, rejected_event_index=cut, rejected_event=json.loads(res[0][cut]),
                           trace=[json.loads(x) for x in res[0][:cut + 1]]), f, indent=1)
        self.violations.append(path)
        self.log("rejected (%s, scale %s): %s" % (v.name, sc, ev[:400]))
        self.log("   scenario: " + " ; ".join(ep)[:600])
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def violation(self, info, text):
        """a violation found otherwise than by a rejected trace (e.g. it does not compile)"""
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (self.pid, len(self.violations) + 1))
        json.dump(dict(property=self.pid, text=text, info=info), open(path, "w"), indent=1)
        self.violations.append(path)
        print(text)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def match_known(self, ev, ep):
        e = json.loads(ev)
        line = " ".join([e["op"]] + [str(x) for x in e["a"]])
        for k in self.known:
            if re.fullmatch(k["key"], line):
                return k["text"]
        return None

    # ------------------------------------------------------------ end
    def finish(self):
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.validated, samples=self.samples[:6],
                                episodes_executed=self.executed, events_validated=self.events,
                                tlc_runs=self.mc_runs, **self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(self.wd, ignore_errors=True)
        self.log("states %d transitions %d traces %d events %d violations %d" %
                 (self.states, self.transitions, self.validated, self.events, len(self.violations)))
        return 1 if self.violations else 0

def hash_int(s):
    return int(hashlib.sha1(s.encode()).hexdigest()[:8], 16)

def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=/(.*?)/ (.*)", line)
            if m and m.group(1) == pid:
                out.append(dict(key=m.group(2), text=m.group(3).strip()))
    return out

def lines_of(hist):
    """a history emitted by TLC ([[op, int...], ...]) as scenario lines"""
    return [" ".join(str(x) for x in o) for o in hist]

def pts(q):
    return [len(q)] + [c for p in q for c in p]

def line(*a):
    out = []
    def flat(x):
        for y in x:
            if isinstance(y, (list, tuple)): flat(y)
            else: out.append(str(int(y)) if isinstance(y, bool) else str(y))
    flat(a)
    return " ".join(out)
