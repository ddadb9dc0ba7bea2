"""Run TLC: exhaustive model checking with emission of the transition graph, and trace validation."""
import json, os, re, shutil, subprocess, tempfile, time
from .build import ToolError, VERIF

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


def run_tlc(module_text, module, cfg, workdir, workers="8", env=None, heap="6g", timeout=800,
            extra=(), on_line=None, mute=True):
    os.makedirs(workdir, exist_ok=True)
    with open(os.path.join(workdir, module + ".tla"), "w") as f:
        f.write(module_text)
    with open(os.path.join(workdir, module + ".cfg"), "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["timeout", str(timeout), "java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC",
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + workdir, "-cp", CP, "tlc2.TLC", "-config", module + ".cfg",
           "-workers", str(workers), "-deadlock", "-metadir", os.path.join(workdir, "md"), *extra,
           module + ".tla"]
    p = subprocess.Popen(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace")
    out = []
    for line in p.stdout:
        if on_line and on_line(line):
            continue
        out.append(line)
        if len(out) > 20000:
            del out[5000:10000]
    p.wait()
    shutil.rmtree(os.path.join(workdir, "md"), ignore_errors=True)
    text = "".join(out)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return dict(rc=p.returncode, out=text, generated=gen, distinct=dist)


def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=repr)) + "}"
    if isinstance(v, dict):
        if not v:
            return "[x \\in {} |-> 0]"
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


def constdef(k, v):
    """definition that replaces constant k; the operator constant Acts(_) gets the core state"""
    return "mc_%s%s == %s" % (k, "(core)" if k == "Acts" else "", v)


def model_check(spec, consts, invariants, properties, workdir, emit=True, constraint=None,
                workers="8", timeout=800, heap="8g", max_edges=400000):
    """Exhaustive TLC run of `spec` under `consts` (name -> TLA expression text).

    The instance is a generated module that EXTENDS the spec, replaces the constants, and (emit)
    prints every transition core --act/obs--> core' as JSON from an ACTION_CONSTRAINT.  The VIEW
    hides act/obs so that the explored graph is the graph of core states."""
    mod = "MC_" + spec
    lines = ["---- MODULE %s ----" % mod, "EXTENDS %s, Json, TLC" % spec]
    for k, v in consts.items():
        lines.append(constdef(k, v))
    lines.append("mc_view == Core")
    lines.append('mc_emit == PrintT("@@E " \\o ToJson([s |-> Core, a |-> act\', o |-> obs\', t |-> Core\']))')
    lines.append('mc_first == (TLCGet("level") = 1) => PrintT("@@I " \\o ToJson([s |-> Core]))')
    lines.append("====")
    cfg = ["SPECIFICATION Spec", "VIEW mc_view"]
    if consts:
        cfg.append("CONSTANTS")
        cfg += ["  %s <- mc_%s" % (k, k) for k in consts]
    if emit:
        cfg.append("ACTION_CONSTRAINT mc_emit")
        cfg.append("INVARIANT mc_first")
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    for i in invariants:
        cfg.append("INVARIANT " + i)
    for i in properties:
        cfg.append("PROPERTY " + i)
    edges, inits = [], []

    def on_line(line):
        if line.startswith('"@@E '):
            edges.append(json.loads(json.loads(line)[4:]))
            return True
        if line.startswith('"@@I '):
            inits.append(json.loads(json.loads(line)[4:])["s"])
            return True
        return False

    t = time.time()
    r = run_tlc("\n".join(lines) + "\n", mod, "\n".join(cfg) + "\n", workdir, workers=workers,
                on_line=on_line, timeout=timeout, heap=heap)
    r["wall"] = time.time() - t
    r["edges"], r["inits"] = edges, inits
    if "Model checking completed. No error has been found." in r["out"]:
        r["ok"] = True
    elif re.search(r"Error: (Invariant|Action property|Temporal propert|Property|Assumption)", r["out"]) or \
            "is violated" in r["out"]:
        r["ok"] = False
    else:
        raise ToolError("TLC failed on %s:\n%s" % (spec, r["out"][-4000:]))
    return r


TRACE_TMPL = """---- MODULE TV_%(spec)s ----
EXTENDS %(spec)s, Json, IOUtils, TLC
%(consts)s
VARIABLE tvl
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
TVInit == Init /\\ tvl = 1
TVNext == /\\ tvl <= Len(Trace)
          /\\ tvl' = tvl + 1
          /\\ IF Trace[tvl].act.op = "reset" THEN ResetAct
             ELSE Do(Trace[tvl].act) /\\ %(match)s
TVView == <<Core, tvl>>
TVDone == PrintT("@@D " \\o ToString(TLCGet("stats").diameter))
====
"""


MATCH = "obs' = Trace[tvl].obs"
EXPLAIN = """(IF tvl = Len(Trace) THEN PrintT("@@E " \\o ToJson(obs')) ELSE %s)""" % MATCH


def explain(spec, consts, lines, workdir, timeout=120):
    """what the specification allows to be observed at the last of the lines"""
    out = []

    def on_line(line):
        if line.startswith('"@@E '):
            out.append(json.loads(json.loads(line)[4:]))
            return True
        return False
    try:
        validate_trace(spec, consts, lines, workdir, timeout, match=EXPLAIN, more=on_line)
    except ToolError:
        pass
    return out[:4]


def validate_trace(spec, consts, lines, workdir, timeout=800, heap="4g", match=MATCH, more=None):
    """lines: list of {"act":..., "obs":...}. Returns (ok, index of first rejected line or None, result)."""
    os.makedirs(workdir, exist_ok=True)
    tp = os.path.join(workdir, "trace.ndjson")
    with open(tp, "w") as f:
        for x in lines:
            f.write(json.dumps(x, ensure_ascii=True) + "\n")
    txt = TRACE_TMPL % dict(spec=spec, match=match, consts="\n".join(constdef(*kv) for kv in consts.items()))
    cfg = ["INIT TVInit", "NEXT TVNext", "VIEW TVView", "POSTCONDITION TVDone"]
    if consts:
        cfg.append("CONSTANTS")
        cfg += ["  %s <- mc_%s" % (k, k) for k in consts]
    diam = []

    def on_line(line):
        if line.startswith('"@@D '):
            diam.append(int(json.loads(line)[4:]))
            return True
        return bool(more and more(line))

    r = run_tlc(txt, "TV_" + spec, "\n".join(cfg) + "\n", workdir, workers="1", timeout=timeout,
                heap=heap, env={"VT_TRACE": tp}, on_line=on_line)
    if not diam:
        raise ToolError("TLC trace validation failed on %s:\n%s" % (spec, "\n".join(re.findall("Error: .*\n.*", r["out"]))[:1500] + r["out"][-3000:]))
    n = diam[-1] - 1          # lines accepted
    return (n >= len(lines)), (None if n >= len(lines) else n), r
