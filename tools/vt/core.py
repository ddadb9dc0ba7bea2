"""Common driver of all checks.

A check of a property P with specification module S does, in this order:
  1. TLC model-checks S exhaustively under small constants (the property's invariants and action
     properties) and prints every transition  core --act/obs--> core'.
  2. spec -> code: walks that cover every (state, action) of that graph are executed by the real
     code, and each observation must be one the specification allows at that point.
  3. code -> spec: longer seeded random histories over larger domains are executed by the real code,
     recorded as ndjson, and TLC decides whether the specification accepts the recorded trace.
"""
import importlib, json, os, random, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import build as B, tlc as T
from .walks import Graph, key

VERIF = B.VERIF
ToolError = B.ToolError
NPROC = 8


class Violation(Exception):
    pass


# ---------------------------------------------------------------- harness processes

def scratch_env(d):
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "LANG", "TERM") or k.startswith("VERIF_")}
    env.update(HOME=d + "/home", TMPDIR=d + "/tmp", XDG_DATA_HOME=d + "/data",
               XDG_CONFIG_HOME=d + "/config", XDG_CACHE_HOME=d + "/cache", XDG_STATE_HOME=d + "/state",
               XDG_RUNTIME_DIR=d + "/run", LANG="C.UTF-8", RUST_BACKTRACE="0",
               GIT_CEILING_DIRECTORIES=d, GIT_CONFIG_NOSYSTEM="1", NO_PROXY="*", no_proxy="*",
               PATH="/usr/local/bin:/usr/bin:/bin")
    for s in ("home", "tmp", "data", "config", "cache", "state", "run", "work"):
        os.makedirs(os.path.join(d, s), exist_ok=True)
    return env


class Shard:
    def __init__(self, vh, module, root, n):
        self.vh, self.module, self.dir = vh, module, os.path.join(root, "shard%d" % n)

    def run(self, runs, timeout):
        """runs: list of dict(cfg, acts). Returns list of obs lists (shorter when the process died)."""
        res = [None] * len(runs)
        i = 0
        deadline = time.time() + timeout
        while i < len(runs):
            shutil.rmtree(self.dir, ignore_errors=True)
            env = scratch_env(self.dir)
            p = subprocess.Popen([self.vh, self.module], cwd=self.dir + "/work", env=env,
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=open(self.dir + "/stderr", "wb"), start_new_session=True)
            batch = runs[i:]

            def feed(p=p, batch=batch):
                try:
                    for r in batch:
                        p.stdin.write((json.dumps(r) + "\n").encode())
                    p.stdin.close()
                except (BrokenPipeError, OSError):
                    pass
            th = threading.Thread(target=feed, daemon=True)
            th.start()
            killer = threading.Timer(max(5, deadline - time.time()), lambda: kill_group(p))
            killer.start()
            cur = []
            for line in p.stdout:
                line = line.decode("utf-8", "surrogateescape")
                if not line.startswith("@@"):
                    continue
                if line.startswith("@@o "):
                    cur.append(json.loads(line[4:]))
                elif line.startswith("@@end"):
                    res[i] = cur
                    cur = []
                    i += 1
            rc = p.wait()
            killer.cancel()
            kill_group(p)
            if i < len(runs):
                if time.time() >= deadline:
                    raise ToolError("harness %s timed out on run %d: %s" % (self.module, i, json.dumps(runs[i])[:400]))
                err = open(self.dir + "/stderr", "rb").read()[-600:].decode("utf-8", "replace")
                cur.append({"died": "exit status %s" % rc, "stderr": err})
                res[i] = cur
                i += 1
        shutil.rmtree(self.dir, ignore_errors=True)
        return res


def kill_group(p):
    try:
        os.killpg(p.pid, 9)
    except (ProcessLookupError, PermissionError):
        pass


class Check:
    """Base class: subclasses (tools/props/*.py) give the specification, the constants and the binding."""
    pid = None
    spec = None
    module = None            # harness module name
    level = "model_checking"
    walk_len = 40
    nshards = NPROC
    assumptions = []

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%s/%s" % (self.pid, tier, seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % self.pid)
        self.states = self.transitions = self.traces = 0
        self.steps = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known = load_known(self.pid)
        self.known_hit = []

    # ---- to be overridden
    def configs(self):
        """list of dict(consts, invariants, properties, emit=True, max_steps=None)"""
        raise NotImplementedError

    def random_histories(self):
        """list of dict(cfg, acts[, consts key])"""
        return []

    def trace_consts(self):
        return {}

    def run_cfg(self, init):
        """harness configuration of a walk that starts in core state `init`"""
        return {}

    def concretize(self, act, ctx):
        return act

    def abstract(self, obs, ctx):
        return obs

    def new_ctx(self, rng):
        return None

    # ---- execution of histories on the real code
    def execute(self, runs):
        """runs: [dict(cfg, acts)] abstract; returns list of obs lists (abstract)."""
        ctxs = []
        conc = []
        for r in runs:
            c = self.new_ctx(random.Random(self.rng.random()))
            ctxs.append(c)
            conc.append(dict(cfg=r["cfg"], acts=[self.concretize(a, c) for a in r["acts"]]))
        res = self.run_harness(conc)
        return [[self.abstract(o, c) if not ("panic" in o or "died" in o) else o for o in obs]
                for obs, c in zip(res, ctxs)]

    def run_harness(self, conc):
        n = min(self.nshards, max(1, len(conc)))
        shards = [[] for _ in range(n)]
        idx = [[] for _ in range(n)]
        load = [0] * n
        for i in sorted(range(len(conc)), key=lambda i: -len(conc[i]["acts"])):
            j = load.index(min(load))
            shards[j].append(conc[i]); idx[j].append(i); load[j] += len(conc[i]["acts"]) + 3
        out = [None] * len(conc)
        with ThreadPoolExecutor(n) as ex:
            futs = [ex.submit(Shard(self.bin["vh"], self.module, self.work, j).run, shards[j],
                              700 if self.quick else 6000) for j in range(n)]
            for j, f in enumerate(futs):
                for k, o in zip(idx[j], f.result()):
                    out[k] = o
        return out

    # ---- reporting
    def violate(self, what, detail):
        self.violations.append(dict(what=what, detail=detail))

    # ---- phases
    def phase_model(self):
        self.graphs = []
        for n, c in enumerate(self.configs()):
            r = T.model_check(c.get("spec", self.spec), c["consts"], c.get("invariants", []), c.get("properties", []),
                              os.path.join(self.work, "mc%d" % n), emit=c.get("emit", True),
                              constraint=c.get("constraint"), timeout=c.get("timeout", 600 if self.quick else 5000))
            if not r["ok"]:
                raise ToolError("the specification %s breaks its own property:\n%s" % (self.spec, r["out"][-5000:]))
            self.states += r["distinct"]
            self.transitions += r["generated"]
            self.log("TLC %s#%d: %d distinct states, %d transitions (%.1fs)" %
                     (self.spec, n, r["distinct"], r["generated"], r["wall"]))
            if c.get("emit", True):
                self.graphs.append((c, Graph(r["inits"], r["edges"]), r["inits"]))

    def phase_spec_to_code(self):
        for c, g, inits in self.graphs:
            idinit = {g.sid(s): s for s in inits}
            walks, cov, tot = g.covering_walks(self.rng, c.get("walk_len", self.walk_len), c.get("max_steps"))
            runs = [dict(cfg=self.run_cfg(idinit[w[0][3]]), acts=[e[1] for e in w[1:]]) for w in walks]
            t = time.time()
            res = self.execute(runs)
            self.log("replayed %d walks, %d steps (%d of %d state/action pairs) in %.1fs" %
                     (len(walks), sum(len(r["acts"]) for r in runs), cov, tot, time.time() - t))
            self.extra["spec_pairs_total"] = self.extra.get("spec_pairs_total", 0) + tot
            self.extra["spec_pairs_replayed"] = self.extra.get("spec_pairs_replayed", 0) + cov
            for w, r, obs in zip(walks, runs, res):
                self.check_walk(g, w, r, obs)
            self.traces += len(walks)
            self.steps += sum(len(o) for o in res)
            if walks and len(self.samples) < 4:
                k = self.rng.randrange(len(walks))
                self.samples.append(dict(kind="walk of the specification replayed on the code", cfg=runs[k]["cfg"],
                                         acts=runs[k]["acts"][:12], obs=res[k][:12]))

    def check_walk(self, g, w, r, obs):
        cur = {w[0][3]}
        for i, e in enumerate(w[1:]):
            if i >= len(obs):
                self.violate("no observation", dict(cfg=r["cfg"], acts=r["acts"][:i + 1]))
                return
            ko = key(obs[i])
            nxt, allowed = set(), []
            for s in cur:
                for ak, a, o, t in g.out[s]:
                    if ak == e[0]:
                        allowed.append(o)
                        if key(o) == ko:
                            nxt.add(t)
            if not nxt:
                self.violate("the code's observation is not one the specification allows",
                             dict(cfg=r["cfg"], acts=r["acts"][:i + 1], observed=obs[i], allowed=allowed[:4]))
                return
            cur = nxt
            if e[3] not in cur:
                return            # legal, but off the planned walk
        return

    def phase_code_to_spec(self):
        hist = self.random_histories()
        if not hist:
            return
        t = time.time()
        res = self.execute(hist)
        self.log("recorded %d random histories, %d steps in %.1fs" %
                 (len(hist), sum(len(o) for o in res), time.time() - t))
        self.steps += sum(len(o) for o in res)
        self.validate(hist, res)
        self.traces += len(hist)
        if hist:
            k = self.rng.randrange(len(hist))
            self.samples.append(dict(kind="recorded history accepted by the specification", cfg=hist[k]["cfg"],
                                     acts=hist[k]["acts"][:12], obs=res[k][:12]))

    def trace_groups(self, hist, res):
        """[(spec, consts, [indices])]"""
        return [(self.spec, self.trace_consts(), list(range(len(hist))))]

    def reset_obs(self, h):
        return {}

    def reset_act(self, h):
        return {"op": "reset"}

    def validate(self, hist, res):
        t = time.time()
        jobs = []
        for spec, consts, ids in self.trace_groups(hist, res):
            n = max(1, min(NPROC, sum(len(hist[i]["acts"]) for i in ids) // 400 + 1))
            for j in range(n):
                jobs.append((spec, consts, ids[j::n]))
        with ThreadPoolExecutor(NPROC) as ex:
            outs = list(ex.map(lambda a: self.validate_job(hist, res, *a[1], n=a[0]), enumerate(jobs)))
        self.log("TLC validated %d recorded steps in %.1fs" %
                 (sum(len(h["acts"]) for h in hist), time.time() - t))
        # negative control: a corrupted trace must be rejected
        for spec, consts, ids in jobs[:1]:
            k = [i for i in ids if len(res[i]) > 0 and self.corrupt(res[i][-1]) is not None]
            if k:
                i = k[0]
                lines = self.lines(hist[i], res[i])
                lines[-1] = dict(act=lines[-1]["act"], obs=self.corrupt(lines[-1]["obs"]))
                ok, _, _ = T.validate_trace(spec, consts, lines, os.path.join(self.work, "neg"))
                if ok and not self.violations:
                    raise ToolError("negative control: the specification accepted a corrupted observation")
                self.extra["negative_controls_rejected"] = 1

    def corrupt(self, o):
        """an observation the specification must reject, or None"""
        o = json.loads(json.dumps(o))
        return corrupt_any(o)

    def lines(self, h, obs):
        ls = [dict(act=self.reset_act(h), obs=self.reset_obs(h))]
        for a, o in zip(h["acts"], obs):
            ls.append(dict(act=a, obs=o))
        return ls

    def validate_job(self, hist, res, spec, consts, ids, n=0):
        lines, owner = [], []
        bad = []
        for i in ids:
            obs = res[i]
            ok = True
            for k, o in enumerate(obs):
                if "panic" in o or "died" in o:
                    self.violate("the code panicked or died",
                                 dict(cfg=hist[i]["cfg"], acts=hist[i]["acts"][:k + 1], observed=o))
                    obs = obs[:k]
                    ok = False
                    break
            if ok and len(obs) < len(hist[i]["acts"]):
                self.violate("no observation", dict(cfg=hist[i]["cfg"], acts=hist[i]["acts"][:len(obs) + 1]))
            ls = self.lines(hist[i], obs)
            lines += ls
            owner += [(i, k) for k in range(-1, len(ls) - 1)]
        while lines:
            ok, at, r = T.validate_trace(spec, consts, lines, os.path.join(self.work, "tv%d" % n),
                                         timeout=700 if self.quick else 5000)
            self.extra["trace_lines_checked_by_tlc"] = self.extra.get("trace_lines_checked_by_tlc", 0) + \
                (len(lines) if ok else at)
            if ok:
                return
            i, k = owner[at]
            d = dict(cfg=hist[i]["cfg"], acts=hist[i]["acts"][:k + 1], observed=res[i][k], step=k, spec=spec)
            if len(self.violations) < 4:
                d["allowed"] = T.explain(spec, consts, lines[at - k - 1:at + 1], os.path.join(self.work, "ex%d" % n))
            self.violate("TLC: the recorded history is not a behaviour of the specification", d)
            if len(self.violations) > 5:
                return
            # go on with the histories after the rejected one
            nxt = next((j for j in range(at, len(owner)) if owner[j][0] != i), len(owner))
            lines, owner = lines[nxt:], owner[nxt:]

    def phase_extra(self):
        """known-finding probes and anything a property adds"""

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.pid, time.time() - self.t0, msg), flush=True)

    def main(self):
        rc = 2
        try:
            self.bin = B.build()
            self.log("built harness from %s (%.1fs)" % (B.REPO, self.bin["wall"]))
            self.setup()
            self.phase_model()
            self.phase_spec_to_code()
            self.phase_code_to_spec()
            self.phase_extra()
            rc = self.finish()
        except ToolError as e:
            print("TOOL-ERROR property=%s %s" % (self.pid, e))
            if self.violations:
                rc = self.finish()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)
        return rc

    def setup(self):
        pass

    def finish(self):
        for k in self.known:
            if k["id"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                impl_steps=self.steps, samples=self.samples[:6], **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            rp = os.path.join(VERIF, "evidence", "replay-%s.json" % self.pid)
            with open(rp, "w") as f:
                json.dump(self.violations[:20], f, indent=1)
            v = self.violations[0]
            print(v["what"])
            d = dict(v["detail"])
            if len(json.dumps(d)) > 2500 and d.get("acts"):
                d["acts_before"] = len(d["acts"]) - 1
                d["acts"] = d["acts"][-1:]
            print(json.dumps(d)[:3000])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        self.log("held on everything explored")
        return 0


def corrupt_any(o):
    if isinstance(o, bool):
        return not o
    if isinstance(o, int):
        return o + 1
    if isinstance(o, str):
        return o + "~"
    if isinstance(o, dict):
        for k in sorted(o):
            c = corrupt_any(o[k])
            if c is not None:
                o[k] = c
                return o
        return None
    if isinstance(o, list):
        for i, x in enumerate(o):
            c = corrupt_any(x)
            if c is not None:
                o[i] = c
                return o
        return None
    return None


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]
