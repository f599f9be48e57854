#!/usr/bin/env python3
"""check.py <property id>: decides one property by bounded model checking of bytedata's real code.

The harnesses of the property (kani/src/h/pNN.rs) are compiled together with /repo's current source
by Kani to CBMC's intermediate form, which CBMC executes symbolically up to the stated unwinding and
hands to a SAT solver. A failing assertion comes with a model; its values are replayed against a
native build of the same harness and the same /repo source, and only what the real code reproduces
is reported. See DESIGN.md.
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import gotopatch

KANI_HOME = os.path.expanduser("~/.kani")
CBMC = (glob.glob(KANI_HOME + "/kani-*/bin/cbmc") or ["cbmc"])[0]
PINNED = "nightly-2025-03-06"
CRATE = os.path.join(ROOT, "kani")
BUILD = os.path.join(ROOT, ".build")
FS = "512"  # arrays up to this size are tracked element by element
KNOWN_FILE = os.path.join(ROOT, "known_findings.jsonl")

PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if "--tier" in sys.argv:
    TIER = sys.argv[sys.argv.index("--tier") + 1]
ONLY = [a[7:] for a in sys.argv if a.startswith("--only=")]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NUM = PID[1:]
T0 = time.time()
# leave room for replays within the 900 s a check gets
BUDGET = 660 if TIER == "quick" else 6 * 3600
HARNESS_TIMEOUT = 240 if TIER == "quick" else 3600
EXTRA = ["thorough"] if TIER != "quick" else []
MEM = 10 << 30
MAXFAIL = 4  # failing properties per harness whose models are tried
log_lock = threading.Lock()


def say(*a):
    with log_lock:
        print(*a, flush=True)


def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.update(kw)
    return e


# ------------------------------------------------------------------ harnesses

class Harness:
    def __init__(self, mod, name, unwind, doc):
        self.mod, self.name, self.unwind, self.doc = mod, name, unwind, doc
        toks = set()
        for t in name.split("_"):
            if t not in ("th", "rej", "big", "known"):
                break
            toks.add(t)
        self.thorough = "th" in toks
        self.rej = "rej" in toks
        self.big = "big" in toks
        self.known = "known" in toks
        self.id = f"h::{mod}::{name}"


def harnesses():
    out = []
    for path in sorted(glob.glob(f"{CRATE}/src/h/p{NUM}*.rs")):
        mod = os.path.basename(path)[:-3]
        src = open(path).read()
        i = src.find("harnesses! {")
        body = src[i:]
        pat = re.compile(r"((?:^[ \t]*(?:///|#\[)[^\n]*\n)*)^[ \t]*fn (\w+) \[(\d+)\]", re.M)
        for m in pat.finditer(body):
            doc = " ".join(l.strip()[3:].strip() for l in m.group(1).splitlines() if l.strip().startswith("///"))
            out.append(Harness(mod, m.group(2), int(m.group(3)), doc))
    return out


# ------------------------------------------------------------------ Kani

def target_dir(kind):
    return os.path.join(BUILD, f"kani-{PID}-{kind}")


def codegen(kind, shard, hs):
    """Compiles the harnesses and /repo's source to goto programs. Returns ({harness id: goto file}, log)."""
    td = target_dir(kind) + ("" if TIER == "quick" else "-thorough") + f"-{shard}"
    os.makedirs(td, exist_ok=True)
    for d in glob.glob(f"{td}/kani/*/*/build/bdv"):
        shutil.rmtree(d, ignore_errors=True)
    cmd = ["cargo", "kani", "--target-dir", td, "--lib", "--features", ",".join(sorted({h.mod for h in hs}) + EXTRA),
           "--exact", "-Z", "unstable-options", "--no-assertion-reach-checks", "--only-codegen"]
    for h in hs:
        cmd += ["--harness", h.id]
    flags = "--cfg bdv_slots" if kind == "big" else "--cfg bdv_small_nodes --cfg bdv_slots"
    for fl in (flags, flags.replace("--cfg bdv_slots", "").strip()):
        r = subprocess.run(cmd, cwd=CRATE, env=env(RUSTFLAGS=fl), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        # the slot hook covers the part of MaybeUninit that a queue needs; code that uses more of it is
        # checked without the hook, only more slowly
        if r.returncode == 0 or "could not compile `bytedata`" not in r.stdout:
            break
    out = {}
    for f in glob.glob(f"{td}/kani/*/*/build/bdv/*/out/*.kani-metadata.json"):
        for m in json.load(open(f))["proof_harnesses"]:
            g = re.sub(r"\.symtab\.out$", ".out", m["goto_file"])
            if os.path.exists(g):
                out[m["pretty_name"]] = (g, m["mangled_name"])
    return out, r.stdout


LAYOUTS = ("C05", "C06", "C07", "C18")   # the properties that judge with which layout blocks are given back
ALLOC_LOCK = threading.Lock()


def link(g, fn):
    """The steps Kani itself takes from its compiler's output to what CBMC reads."""
    tool = lambda t: os.path.join(os.path.dirname(CBMC), t)
    alloc = []
    if PID in LAYOUTS:
        gb = os.path.join(os.path.dirname(g), "alloc.gb")
        with ALLOC_LOCK:
            if not os.path.exists(gb):
                subprocess.run([tool("goto-cc"), "-c", os.path.join(CRATE, "alloc.c"), "-o", gb],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        fns = ["__rust_alloc", "__rust_alloc_zeroed", "__rust_dealloc", "__rust_realloc"]
        r = subprocess.run([tool("goto-instrument")] + [x for f in fns for x in ("--remove-function-body", f)] + [g, g],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0 and os.path.exists(gb):
            alloc = [gb]
    body = ["--generate-function-body-options", "assert-false-assume-false", "--generate-function-body", ".*", "--drop-unused-functions"]
    for c in ([tool("goto-cc"), g, *alloc, "--function", fn, "-o", g],
              [tool("goto-instrument"), "--add-library", "--no-malloc-may-fail", g, g],
              [tool("goto-instrument"), *body, g, g],
              [tool("goto-instrument"), "--ensure-one-backedge-per-target", g, g]):
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            say(f"[{PID}] {os.path.basename(c[0])}: {r.stdout[-500:]}")
            return False
    return True


def costs():
    try:
        return json.load(open(os.path.join(ROOT, "bin", "costs.json"))).get(PID, {})
    except (OSError, ValueError):
        return {}


# ------------------------------------------------------------------ direct CBMC

def cbmc_cmd(goto, unwind, extra):
    return [CBMC, "--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check",
            "--nan-check", "--no-self-loops-to-assumptions", "--no-pointer-primitive-check",
            "--object-bits", "16", "--unwind", str(unwind),
            "--max-field-sensitivity-array-size", FS] + extra + [goto, "--json-ui"]


def left():
    return BUDGET - (time.time() - T0)


def cbmc_json(goto, unwind, extra, timeout):
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    try:
        r = subprocess.run(cbmc_cmd(goto, unwind, extra), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           timeout=timeout, preexec_fn=lim)
    except subprocess.TimeoutExpired:
        return None
    try:
        return json.loads(r.stdout)
    except ValueError:
        return None


def results_of(js):
    for m in js or []:
        if isinstance(m, dict) and "result" in m:
            return m["result"]
    return None


def stats_of(js):
    st = {}
    for m in js or []:
        t = m.get("messageText", "") if isinstance(m, dict) else ""
        for key, rx in (("symex", r"Runtime Symex: ([\d.e-]+)s"), ("steps", r"size of program expression: (\d+) steps"),
                        ("solver", r"Runtime Solver: ([\d.e-]+)s"), ("vccs", r"Generated (\d+) VCC"),
                        ("remaining", r"VCC\(s\), (\d+) remaining")):
            g = re.search(rx, t)
            if g:
                st[key] = st.get(key, 0) + float(g.group(1)) if key == "solver" else float(g.group(1))
    return st


RAW = re.compile(r"any_raw")


def value_bytes(v):
    """Little-endian bytes of a CBMC trace value."""
    if v is None:
        return b""
    if "elements" in v:
        return b"".join(value_bytes(e.get("value", e)) for e in v["elements"])
    if "members" in v:
        return b"".join(value_bytes(e.get("value", e)) for e in v["members"])
    if "binary" in v:
        bits = v["binary"]
        n = int(bits, 2)
        return n.to_bytes((len(bits) + 7) // 8, "little")
    if v.get("data") in ("TRUE", "true", True):
        return b"\x01"
    if v.get("data") in ("FALSE", "false", False):
        return b"\x00"
    return b""


def trace_values(trace):
    """The values handed out by kani::any, in order, as one byte string."""
    out = []
    for s in trace or []:
        if s.get("stepType") != "assignment" or "lhs" not in s:
            continue
        fn = (s.get("sourceLocation") or {}).get("function", "") or ""
        if not RAW.search(fn):
            continue
        lhs = s["lhs"]
        # the whole returned value; assignments to single elements repeat it
        if "goto_symex$$return_value" in lhs and "any_raw" in lhs and not lhs.endswith("]"):
            out.append(value_bytes(s.get("value")))
    return b"".join(out)


def model_for(goto, unwind, prop, timeout=300, leak=False):
    extra = ["--trace", "--property", prop]
    if leak:
        extra.append("--memory-leak-check")
    js = cbmc_json(goto, unwind, extra, timeout)
    for r in results_of(js) or []:
        if r.get("property") == prop and r.get("trace"):
            return trace_values(r["trace"])
    return None


# ------------------------------------------------------------------ native replay

BINS, BIN_LOCK = {}, threading.Lock()


def replay_bin(h, kind):
    """kind: dev, release, asan. Returns the path of the replay binary or None."""
    key = (h.mod, kind, h.big)
    with BIN_LOCK:
        if key in BINS:
            return BINS[key]
        td = os.path.join(BUILD, f"native-{kind}{'-big' if h.big else ''}{'-th' if EXTRA else ''}")
        flags = "" if h.big else "--cfg bdv_small_nodes"
        cmd = ["cargo", "build", "--target-dir", td, "--features", ",".join([h.mod] + EXTRA), "--bin", "replay"]
        if kind == "release":
            cmd.append("--release")
        if kind == "asan":
            flags += " -Zsanitizer=address --cfg bdv_asan"
            cmd += ["--target", "x86_64-unknown-linux-gnu"]
        r = subprocess.run(cmd, cwd=CRATE, env=env(RUSTUP_TOOLCHAIN=PINNED, RUSTFLAGS=flags.strip()),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        p = None
        if r.returncode == 0:
            sub = {"dev": "debug", "release": "release", "asan": "x86_64-unknown-linux-gnu/debug"}[kind]
            src = os.path.join(td, sub, "replay")
            p = os.path.join(td, f"replay-{h.mod}-{kind}{'-big' if h.big else ''}")
            shutil.copy2(src, p)
        else:
            say(f"[{PID}] native {kind} build failed:\n" + r.stdout[-3000:])
        BINS[key] = p
        return p


REPLAY_KINDS = ("dev", "release", "asan")


def run_replay(h, kind, hexs, timeout=20):
    """Returns (verdict, text). verdict: pass, skip, fail, none."""
    b = replay_bin(h, kind)
    if not b:
        return "none", "no binary"
    e = env(ASAN_OPTIONS="detect_leaks=1:abort_on_error=1:allocator_may_return_null=1", RUST_BACKTRACE="0")
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if kind != "asan":
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        r = subprocess.run([b, f"{h.mod}::{h.name}", hexs], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=e, preexec_fn=lim, cwd="/tmp")
    except subprocess.TimeoutExpired:
        return "fail", f"no result within {timeout} s (does not terminate)"
    txt = (r.stdout + r.stderr).decode("utf-8", "replace").strip()[-1500:]
    if r.returncode == 0:
        return "pass", txt
    if r.returncode == 77:
        return "skip", txt
    return "fail", f"exit {r.returncode}: {txt}"


def replay_model(h, hexs):
    """The first native configuration in which the model's values break the harness."""
    for kind in REPLAY_KINDS:
        v, t = run_replay(h, kind, hexs)
        if v == "fail":
            return kind, t
    if TIER == "thorough" or True:
        v, t = run_miri(h, hexs)
        if v == "fail":
            return "miri", t
    return None, None


MIRI_OK = [None]


def run_miri(h, hexs):
    td = os.path.join(BUILD, f"miri{'-big' if h.big else ''}")
    flags = "" if h.big else "--cfg bdv_small_nodes"
    flags += " --cfg bdv_asan"
    with BIN_LOCK:
        if MIRI_OK[0] is False:
            return "none", ""
        try:
            r = subprocess.run(["cargo", "+nightly", "miri", "run", "-q", "--target-dir", td, "--features", ",".join([h.mod] + EXTRA), "--bin",
                                "replay", "--", f"{h.mod}::{h.name}", hexs], cwd=CRATE,
                               env=env(RUSTFLAGS=flags.strip(), MIRIFLAGS="-Zmiri-ignore-leaks"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return "none", "timeout"
    if "Undefined Behavior" in r.stdout:
        return "fail", r.stdout[-2500:]
    if r.returncode in (0, 77):
        return "pass", ""
    if "could not compile" in r.stdout or "failed to" in r.stdout:
        MIRI_OK[0] = False
    return "none", r.stdout[-500:]


# ------------------------------------------------------------------ judging

def prop_class(c):
    return c.get("category") or ""


def interesting(h, desc, cls, release=False):
    """Is a failing solver property of this harness a candidate violation?"""
    if cls == "cover" or desc == "REACH":
        return False
    if cls == "unwind" or "unwinding assertion" in desc:
        return True
    if "is not currently supported" in desc or cls == "unsupported_construct":
        return False
    if not h.rej:
        return True
    if desc.startswith("VIOL"):
        return True
    if "never freed" in desc:
        return False
    if "unsafe precondition" in desc or "ndefined behavior" in desc.lower():
        return True
    if cls in ("pointer_dereference", "safety_check", "precondition_instance", "array_bounds", "bounds",
               "pointer_arithmetic", "pointer_primitives", "memory-leak"):
        return True
    return False


def list_props(goto, extra=()):
    r = subprocess.run([CBMC, "--show-properties", "--json-ui", "--no-malloc-may-fail", "--no-undefined-shift-check",
                        "--no-signed-overflow-check", "--nan-check", "--no-pointer-primitive-check", *extra, goto],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    try:
        js = json.loads(r.stdout)
    except ValueError:
        return []
    for m in js:
        if "properties" in m:
            return m["properties"]
    return []


class Verdict:
    def __init__(self, h):
        self.h = h
        self.status = "undecided"   # held, violated, undecided
        self.reached = False
        self.why = ""
        self.stats = {}
        self.queries = 0
        self.checks = 0
        self.functions = set()
        self.replay = None
        self.witness = None
        self.notes = []
        self.goto = None
        self.release = None
        self.kani_s = 0.0


def cbmc_run(h, goto, unwind, timeout, release=False):
    """Runs CBMC. Returns None or (candidate failures [(property, description, class)], reached, checks,
    functions of /repo, unsupported descriptions, statistics)."""
    timeout = min(timeout, left())
    if timeout < 2:
        return None
    js = cbmc_json(goto, unwind, ["--slice-formula"] + ([] if h.rej else ["--memory-leak-check"]), timeout)
    rs = results_of(js)
    if rs is None or any(r.get("status") not in ("SUCCESS", "FAILURE") for r in rs):
        return None   # no answer, or an incomplete one: the solver gave up or ran out of memory
    bad, reached, n, fns, unsup = [], False, 0, set(), []
    for r in rs:
        cls = r["property"].rsplit(".", 2)[-2] if "." in r["property"] else ""
        desc, st = r["description"], r["status"]
        loc = r.get("sourceLocation") or {}
        if "/repo/src" in loc.get("file", "") and loc.get("function"):
            f = loc["function"]
            fns.add(re.sub(r"::<.*", "", f) if f.count("<") > 3 else f)
        if desc == "REACH" or cls == "cover":
            reached |= st == "FAILURE" and desc == "REACH"
            continue
        n += 1
        if st == "FAILURE":
            if "not currently supported" in desc or cls == "unsupported_construct":
                unsup.append((r["property"], desc, cls))
            elif interesting(h, desc, cls, release):
                bad.append((r["property"], desc, cls))
    return bad, reached, n, fns, unsup, stats_of(js)


def rank(b):
    d = b[1]
    return 0 if d.startswith("VIOL") else 2 if "unwind" in d else 3 if "never freed" in d else 1


def confirm(v, goto, unwind, bad, tag=""):
    """Extracts models of failing properties and replays them. Returns True if one reproduces."""
    h = v.h
    tried = set()
    for prop, desc, cls in sorted(bad, key=rank)[:MAXFAIL]:
        hexs = model_for(goto, unwind, prop, leak="never freed" in desc)
        if hexs is None:
            v.notes.append(f"no model for {desc!r}")
            continue
        hexs = hexs.hex()
        if hexs in tried:
            continue
        tried.add(hexs)
        kind, text = replay_model(h, hexs)
        if kind:
            v.status = "violated"
            v.why = f"{desc} {tag}"
            v.replay = dict(property=PID, harness=h.id, solver_property=prop, description=desc, values_hex=hexs,
                            confirmed_by=kind, output=text,
                            command=f"replay {h.mod}::{h.name} {hexs}")
            return True
        v.notes.append(f"solver counterexample to {desc!r} {tag} did not reproduce: {hexs[:200]}")
    return False


def judge(h, goto, fn):
    v = Verdict(h)
    v.goto = goto
    t = time.time()
    if left() < 10 or not link(goto, fn):
        v.why = "not started: time budget used up" if left() < 10 else "linking failed"
        return v
    unwind = h.unwind
    r = cbmc_run(h, goto, unwind, HARNESS_TIMEOUT)
    v.kani_s = time.time() - t
    v.queries = 1
    if r is None:
        v.why = "no answer from the solver (time or memory used up)"
        return v
    bad, v.reached, v.checks, v.functions, unsup, v.stats = r
    if unsup:
        # The encoding stops there, but the values that lead there may break the real code all the same.
        if not confirm(v, goto, unwind, unsup + bad):
            v.why = "reaches a construct Kani does not encode: " + unsup[0][1]
        return v
    if bad:
        first = bad
        if confirm(v, goto, unwind, bad):
            return v
        while bad and all("unwind" in b[1] for b in bad) and unwind < 4 * h.unwind:
            unwind *= 2
            v.queries += 1
            r = cbmc_run(h, goto, unwind, HARNESS_TIMEOUT)
            if r is None:
                break
            bad, v.reached = r[0], r[1]
            if bad and confirm(v, goto, unwind, bad):
                return v
        if bad:
            v.why = "solver counterexample not reproduced by the real code: " + first[0][1]
            return v
        v.notes.append(f"needed {unwind} unwindings")
    v.status = "held"
    if h.rej:
        # the same harness under the semantics of a build without overflow checks
        rel = goto + ".release"
        n = gotopatch.patch(goto, rel)
        r = cbmc_run(h, rel, unwind, HARNESS_TIMEOUT, True)
        v.queries += 1
        if r is None:
            v.status, v.why = "undecided", "no answer under release semantics"
            return v
        v.release = dict(overflow_checks_removed=n, **r[5])
        if r[0]:
            v.status = "undecided"
            if not confirm(v, rel, unwind, r[0], "(without overflow checks)"):
                v.why = "solver counterexample under release semantics not reproduced: " + r[0][0][1]
            return v
    if v.status == "held" and not v.reached:
        v.status, v.why = "undecided", "vacuous: the end of the harness is not reachable"
    return v


def witness(v):
    """Replays the solver's reachability witness of a harness that held against the real code."""
    h = v.h
    if not v.goto or h.known:
        return
    cov = [p["name"] for p in list_props(v.goto) if p["description"] == "REACH"]
    if not cov:
        return
    hexs = model_for(v.goto, h.unwind, cov[0], timeout=60)
    if hexs is None:
        return
    verdict, text = run_replay(h, "dev", hexs.hex())
    v.witness = dict(values_hex=hexs.hex(), verdict=verdict, output=text)


# ------------------------------------------------------------------ main

def known_findings():
    out = []
    if os.path.exists(KNOWN_FILE):
        for l in open(KNOWN_FILE):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return [k for k in out if k.get("property") == PID and k.get("status") == "known"]


def main():
    hs = harnesses()
    if ONLY:
        hs = [h for h in hs if h.name in ONLY]
    elif TIER == "quick":
        hs = [h for h in hs if not h.thorough]
    if not hs:
        say("no harnesses")
        return 2
    groups = {}
    for h in hs:
        groups.setdefault("big" if h.big else "small", []).append(h)
    pool = cf.ThreadPoolExecutor(8)
    shards = []
    for k, g in groups.items():
        n = max(1, min(7, len(g) // 4))
        shards += [(k, i, g[i::n]) for i in range(n)]
    jobs = [pool.submit(codegen, *s) for s in shards]
    # the native build runs next to the code generation
    warm = pool.submit(replay_bin, hs[0], "dev")
    verdicts, futs, broken, todo = [], [], [], []
    for (k, i, g), j in zip(shards, jobs):
        gotos, log = j.result()
        for h in g:
            if h.id in gotos:
                todo.append((h, *gotos[h.id]))
            else:
                broken.append(h.id)
        if not all(h.id in gotos for h in g):
            say("\n".join(l for l in log.splitlines() if not l.startswith("warning"))[-4000:])
    warm.result()
    cost = costs()
    todo.sort(key=lambda t: -cost.get(t[0].name, 30))
    futs = [pool.submit(judge, *t) for t in todo]
    for f in futs:
        verdicts.append(f.result())
    kani_done = time.time() - T0
    # validate reachability witnesses of the cheapest harnesses
    held = sorted((v for v in verdicts if v.status == "held"), key=lambda v: v.kani_s)
    nw = 4 if TIER == "quick" else 16
    list(pool.map(witness, held[:nw]))
    for v in held[:nw]:
        if v.witness and v.witness["verdict"] == "fail":
            v.status = "violated"
            v.why = "the solver's own witness fails on the real code"
            v.replay = dict(property=PID, harness=v.h.id, values_hex=v.witness["values_hex"], confirmed_by="dev",
                            output=v.witness["output"], description=v.why,
                            command=f"replay {v.h.mod}::{v.h.name} {v.witness['values_hex']}")
    known = known_findings()
    rc = 0
    nviol = 0
    for v in sorted(verdicts, key=lambda v: v.h.name):
        t = f"{v.kani_s:.1f}s"
        k = next((k for k in known if k.get("harness") == v.h.name), None)
        if v.status == "violated":
            if k:
                say(f"KNOWN-FINDING: property={PID} {k['what']}")
                continue
            nviol += 1
            d = os.path.join(ROOT, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{PID}-{v.h.name}.json")
            json.dump(v.replay, open(path, "w"), indent=1)
            say(f"[{PID}] {v.h.name}: {v.why}\n    values {v.replay['values_hex'][:400]}\n    real code ({v.replay['confirmed_by']}): {v.replay['output'][-600:]}")
            say(f"VIOLATION property={PID} replay={path}")
            rc = 1
        elif v.status == "held":
            say(f"[{PID}] {v.h.name}: held ({t}, {v.checks} checks{', release semantics too' if v.release else ''})")
        else:
            say(f"[{PID}] {v.h.name}: UNDECIDED {v.why} ({t}) {'; '.join(v.notes)[:600]}")
    nheld = sum(v.status == "held" for v in verdicts)
    undec = [v for v in verdicts if v.status == "undecided"]
    if rc == 0 and (broken or nheld == 0 or nheld * 2 < len(hs)):
        rc = 2
    ev = dict(property=PID, tier=TIER, seed=SEED, level="model_checking", wall_s=round(time.time() - T0, 1),
              violations=nviol,
              coverage=dict(
                  states=int(sum(v.stats.get("steps", 0) for v in verdicts)),
                  transitions=int(sum(v.stats.get("vccs", 0) for v in verdicts)),
                  traces_validated_against_impl=sum(1 for v in verdicts if (v.witness and v.witness["verdict"] == "pass") or v.replay),
                  samples=[dict(harness=v.h.id, values_hex=v.witness["values_hex"][:400], real_code=v.witness["verdict"])
                           for v in verdicts if v.witness][:6],
                  states_meaning="steps of the symbolically executed (unrolled) programs, each standing for every value of the symbolic inputs",
                  transitions_meaning="verification conditions generated over those steps",
                  traces_meaning="solver models (reachability witnesses, or counterexamples) replayed natively against /repo's code with the predicted outcome",
                  harnesses_decided=nheld, harnesses_total=len(hs),
                  undecided=[dict(harness=v.h.id, reason=v.why, notes=v.notes) for v in undec],
                  solver_queries=sum(v.queries for v in verdicts),
                  solver_checks=sum(v.checks for v in verdicts),
                  vccs_after_simplification=int(sum(v.stats.get("remaining", 0) for v in verdicts)),
                  solver_time_s=round(sum(v.stats.get("solver", 0) for v in verdicts), 2),
                  symex_time_s=round(sum(v.stats.get("symex", 0) for v in verdicts), 2),
                  functions_encoded=sorted(set().union(*[v.functions for v in verdicts]) if verdicts else []),
                  bounds=[dict(harness=v.h.id, unwinding=v.h.unwind, covers=v.h.doc, node_size=15 if v.h.big else 3,
                               result=v.status, seconds=v.kani_s, release_semantics=v.release, notes=v.notes) for v in verdicts],
              ),
              assumptions=["outside the stated sizes and unwindings nothing is claimed (every unwinding bound is itself checked)",
                           "memory allocation does not fail", "single thread",
                           "Kani's and CBMC's encoding of Rust and their bundled SAT solver are trusted",
                           "queue blocks hold 3 chunks instead of 15 (cfg bdv_small_nodes) except in harnesses named big_*"])
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{PID}.json"), "w"), indent=1)
    say(f"[{PID}] {nheld}/{len(hs)} harnesses held, {nviol} violated, {len(undec)} undecided, {time.time()-T0:.0f}s")
    return rc


if __name__ == "__main__":
    sys.exit(main())
