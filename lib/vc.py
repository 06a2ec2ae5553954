#!/usr/bin/env python3
"""Deductive verification driver for wla-dx.

Every unit compiles the REAL source file(s) from /repo's current tree together
with a contract file from /verif/contracts, and lets goto-instrument --dfcc and
cbmc generate and discharge the obligations.  See DESIGN.md.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CONTRACTS = os.path.join(VERIF, "contracts")

LINK_SOURCES = ["wlalink/%s.c" % x for x in "main memory parse files check analyze write compute discard listfile".split()] + ["hashmap.c", "crc32.c", "printf.c"]
ASM_SOURCES = "main.c parse.c phase_1.c phase_2.c phase_3.c phase_4.c stack.c include.c printf.c mersenne.c hashmap.c crc32.c listfile.c".split()

NOCHECKS = ["--no-standard-checks", "--no-pointer-check", "--no-bounds-check", "--drop-unused-functions", "--verbosity", "8"]
CBMC_BASE = ["--no-standard-checks", "--bounds-check", "--pointer-check", "--drop-unused-functions", "--verbosity", "8"]


class Timeout(Exception):
    pass


def run(cmd, timeout, cwd=None, out=None, mem_gb=12):
    """run a command; returns (rc, stdout+stderr). Raises Timeout."""
    if DEADLINE[0]:
        timeout = min(timeout, DEADLINE[0] - time.time())
        if timeout <= 1:
            raise Timeout()
    def limits():
        import resource
        os.setsid()
        b = mem_gb * (1 << 30)
        try:
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        except Exception:
            pass
    f = open(out, "wb") if out else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=f, stderr=(subprocess.PIPE if out else subprocess.STDOUT),
                         cwd=cwd, preexec_fn=limits if mem_gb else os.setsid)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
        p.communicate()
        raise Timeout()
    finally:
        if out:
            f.close()
    txt = (e if out else o) or b""
    return p.returncode, txt.decode("utf-8", "replace")


# ---------------------------------------------------------------- injection

def find_function(src, name):
    """(start of body '{' index, end index) of the definition of `name`, or None"""
    for m in re.finditer(r"(?m)^[A-Za-z_][^;{}()#\n]*\b%s\s*\(" % re.escape(name), src):
        i = src.index("(", m.end() - 1)
        depth = 0
        j = i
        while j < len(src):
            if src[j] == "(":
                depth += 1
            elif src[j] == ")":
                depth -= 1
                if depth == 0:
                    break
            j += 1
        k = j + 1
        while k < len(src) and src[k] in " \t\r\n":
            k += 1
        if k < len(src) and src[k] == "{":
            d = 0
            e = k
            while e < len(src):
                c = src[e]
                if c == '"':
                    e += 1
                    while src[e] != '"':
                        e += 2 if src[e] == "\\" else 1
                elif c == "'":
                    e += 1
                    while src[e] != "'":
                        e += 2 if src[e] == "\\" else 1
                elif src.startswith("/*", e):
                    e = src.index("*/", e) + 1
                elif c == "{":
                    d += 1
                elif c == "}":
                    d -= 1
                    if d == 0:
                        return k, e
                e += 1
    return None


class Attach(Exception):
    pass


def inject(src, func, nth, contract, ghost):
    """Add a loop contract after the header of the nth loop of func, and ghost code at the
    start of its body.  Nothing else in the text changes."""
    loc = find_function(src, func)
    if loc is None:
        raise Attach("function %s not found" % func)
    b, e = loc
    # blank out comments and strings for searching
    body = list(src[b:e])
    i = 0
    while i < len(body):
        if body[i] == "/" and i + 1 < len(body) and body[i + 1] == "*":
            while not (body[i] == "*" and body[i + 1] == "/"):
                if body[i] != "\n":
                    body[i] = " "
                i += 1
            body[i] = body[i + 1] = " "
        elif body[i] in "\"'":
            q = body[i]
            i += 1
            while body[i] != q:
                st = 2 if body[i] == "\\" else 1
                for t in range(st):
                    body[i + t] = " "
                i += st
        i += 1
    body = "".join(body)
    loops = []
    for m in re.finditer(r"\b(for|while)\s*\(", body):
        i = m.end() - 1
        depth = 0
        while True:
            if body[i] == "(":
                depth += 1
            elif body[i] == ")":
                depth -= 1
                if depth == 0:
                    break
            i += 1
        loops.append((m.start(), i + 1))
    if nth >= len(loops):
        raise Attach("loop %d of %s not found" % (nth, func))
    pos = loops[nth][1]
    after = body[pos:]
    st = re.match(r"\s*", after).end()
    if ghost:
        if after[st] == "{":
            ins = contract + after[:st] + "{ " + ghost + " "
            return src[:b + pos] + ins + src[b + pos + st + 1:]
        # single statement body
        end = after.index(";", st) + 1
        ins = contract + " { " + ghost + " " + src[b + pos:b + pos + end] + " }"
        return src[:b + pos] + ins + src[b + pos + end:]
    return src[:b + pos] + " " + contract + " " + src[b + pos:]


_tree_lock = threading.Lock()


def make_tree(wdroot, namelen, caps=None):
    """A copy of /repo's sources in which only the capacity of the name buffers
    (MAX_NAME_LENGTH, shared.h) and of the tables a unit names in `caps` is reduced, so that
    the verifier's bit-level encoding of the structures stays small.  namelen None and no
    caps: the sources exactly as they are."""
    if namelen is None and not caps:
        return REPO
    caps = dict(caps or {})
    if namelen is not None:
        caps["MAX_NAME_LENGTH"] = namelen
    with _tree_lock:
        dst = os.path.join(wdroot, "tree" + "_".join("%s%d" % kv for kv in sorted(caps.items())))
        if os.path.isdir(dst):
            return dst
        tmp = dst + ".tmp"
        for sub in ("", "wlalink", "wlab"):
            d = os.path.join(REPO, sub)
            os.makedirs(os.path.join(tmp, sub), exist_ok=True)
            if os.path.isdir(d):
                for f in os.listdir(d):
                    if f.endswith((".c", ".h")) and os.path.isfile(os.path.join(d, f)):
                        shutil.copyfile(os.path.join(d, f), os.path.join(tmp, sub, f))
        for macro, val in caps.items():
            n = 0
            for h in ("shared.h", "defines.h", "wlalink/defines.h"):
                sh = os.path.join(tmp, h)
                src = open(sh, encoding="latin-1").read()
                new, k = re.subn(r"(#define\s+%s\s+)\d+" % macro, lambda m: m.group(1) + str(val), src)
                n += k
                open(sh, "w", encoding="latin-1").write(new)
            if n == 0:
                raise Attach("%s not found in the headers" % macro)
        os.rename(tmp, dst)
        return dst


def build_overlay(unit, wd, loops):
    """the source tree this unit is compiled from"""
    tree = make_tree(os.path.dirname(wd), unit.get("namelen", 23), unit.get("caps"))
    ents = unit.get("loops", []) if loops else []
    if not ents:
        return tree
    own = os.path.join(wd, "tree")
    if os.path.isdir(own):
        shutil.rmtree(own)
    if tree == REPO:
        for sub in ("", "wlalink", "wlab"):
            os.makedirs(os.path.join(own, sub), exist_ok=True)
            for f in os.listdir(os.path.join(REPO, sub)):
                if f.endswith((".c", ".h")):
                    shutil.copyfile(os.path.join(REPO, sub, f), os.path.join(own, sub, f))
    else:
        shutil.copytree(tree, own)
    byfile = {}
    for ent in ents:
        byfile.setdefault(ent["file"], []).append(ent)
    for f, es in byfile.items():
        p = os.path.join(own, f)
        src = open(p, encoding="latin-1").read()
        for ent in sorted(es, key=lambda x: -x["nth"]):
            src = inject(src, ent["func"], ent["nth"], ent["contract"], ent.get("ghost", ""))
        open(p, "w", encoding="latin-1").write(src)
    return own


# ---------------------------------------------------------------- one unit

def functions_in(gb):
    rc, o = run(["goto-instrument", "--list-goto-functions", gb], 60)
    return o


def unit_flags(unit):
    fl = ["-DUNIX", "-DNDEBUG"]
    for d in unit.get("defs", []):
        fl.append("-D" + d)
    return fl


def gen_files(unit, wd):
    for f, text in unit.get("gen", {}).items():
        open(os.path.join(wd, f), "w").write(text)


def compile_unit(unit, wd, name, extra_defs, loops=True):
    tree = build_overlay(unit, wd, loops)
    gen_files(unit, wd)
    out = os.path.join(wd, name + ".a.gb")
    cmd = ["goto-cc", "--function", "harness", "-DVCBMC"] + unit_flags(unit) + extra_defs + \
        ["-I", tree, "-I", CONTRACTS, "-I", wd, os.path.join(CONTRACTS, unit["file"]), "-o", out]
    rc, o = run(cmd, 120)
    if rc != 0 or not os.path.exists(out):
        raise Attach("goto-cc failed: " + tail(o))
    return out


def tail(o, n=600):
    lines = [l for l in o.splitlines() if "warning" not in l.lower()]
    return "\n".join(lines)[-n:]


def defined_functions(gb):
    rc, o = run(["goto-instrument", "--list-goto-functions", gb], 120)
    names = set()
    for l in o.splitlines():
        m = re.match(r"^([A-Za-z_][\w$:.]*)\s*(/\*.*\*/)?\s*(\(body.*\))?\s*$", l.strip())
        if m:
            names.add(m.group(1))
    return names, o


def instrument(unit, wd, name, a, enforce=True, loops=True):
    if unit.get("kind") == "plain" and not unit.get("replace") and not unit.get("nobody"):
        if not (loops and unit.get("loops")):
            return a
        b = os.path.join(wd, name + ".b.gb")
        rc, o = run(["goto-instrument", "--apply-loop-contracts", a, b], 300)
        if rc != 0 or not os.path.exists(b):
            raise Attach("goto-instrument failed: " + tail(o))
        return b
    names, listing = defined_functions(a)
    b = os.path.join(wd, name + ".b.gb")
    cur = a
    nobody = [f for f in unit.get("nobody", []) if f in names]
    if nobody:
        c = os.path.join(wd, name + ".n.gb")
        cmd = ["goto-instrument"]
        for f in nobody:
            cmd += ["--remove-function-body", f]
        rc, o = run(cmd + [cur, c], 120)
        if rc != 0:
            raise Attach("goto-instrument failed: " + tail(o))
        cur = c
    if nobody and unit.get("stubs"):
        # the removed callees are replaced by their contracts, written as stub bodies; the
        # units that establish those contracts are named in the stub file
        so, c2 = os.path.join(wd, name + ".s.gb"), os.path.join(wd, name + ".l.gb")
        tree = make_tree(os.path.dirname(wd), unit.get("namelen", 23), unit.get("caps"))
        cmd = ["goto-cc", "-c", "-DVCBMC"] + unit_flags(unit) + ["-I", tree, "-I", CONTRACTS,
               os.path.join(CONTRACTS, unit["stubs"]), "-o", so]
        rc, o = run(cmd, 120)
        if rc == 0:
            rc, o = run(["goto-cc", "--function", "harness", cur, so, "-o", c2], 120)
        if rc != 0:
            raise Attach("linking callee contracts failed: " + tail(o))
        cur = c2
    rep = [f for f in unit.get("replace", []) if f in names]
    missing = [f for f in unit.get("replace", []) if f not in names]
    if missing:
        unit.setdefault("_notes", []).append("callee(s) %s no longer exist; bodies inlined" % ",".join(missing))
    need = (enforce and unit.get("enforce")) or rep or (loops and unit.get("loops"))
    if not need:
        return cur
    cmd = ["goto-instrument", "--dfcc", "harness"]
    if enforce and unit.get("enforce"):
        if unit["enforce"] not in names:
            raise Attach("function %s does not exist" % unit["enforce"])
        cmd += ["--enforce-contract", unit["enforce"]]
    for f in rep:
        cmd += ["--replace-call-with-contract", f]
    if loops and unit.get("loops"):
        cmd += ["--apply-loop-contracts"]
        if unit.get("loops_no_unwind"):
            cmd += ["--loop-contracts-no-unwind"]
    rc, o = run(cmd + [cur, b], 300)
    if rc != 0 or not os.path.exists(b):
        raise Attach("goto-instrument failed: " + tail(o))
    return b


def cbmc(unit, gb, timeout, trace=False, unwind=None, props=None):
    cmd = ["cbmc", gb] + unit.get("checks", CBMC_BASE) + unit.get("cbmc", [])
    uw = unwind if unwind is not None else unit.get("unwind", 1)
    cmd += ["--unwind", str(uw)]
    if unit.get("unwindset") and unwind is None:
        cmd += ["--unwindset", ",".join(unit["unwindset"])]
    cmd += ["--no-unwinding-assertions"] if trace else ["--unwinding-assertions"]
    if trace:
        cmd += ["--trace"]
    for p in props or []:
        cmd += ["--property", p]
    cmd += ["--json-ui"]
    outf = gb + (".trace" if trace else "") + ".json"
    t0 = time.time()
    rc, err = run(cmd, timeout, out=outf, mem_gb=unit.get("mem_gb", 6))
    dt = time.time() - t0
    try:
        data = json.load(open(outf, encoding="latin-1"))
    except Exception:
        raise Attach("cbmc gave no result (rc=%s): %s" % (rc, tail(err)))
    finally:
        try:
            os.unlink(outf)
        except OSError:
            pass
    res = {"results": None, "solver_s": 0.0, "backend": "", "cmd": " ".join(cmd), "wall": dt, "errors": []}
    for item in data:
        if "result" in item:
            res["results"] = item["result"]
        t = item.get("messageText", "")
        if item.get("messageType") == "ERROR":
            res["errors"].append(t)
        m = re.match(r"Runtime Solver: ([0-9.e+-]+)s", t)
        if m:
            res["solver_s"] += float(m.group(1))
        m = re.match(r"Running (propositional reduction|SMT2? .*)", t) or re.match(r"Passing problem to (.*)", t)
        if m and not res["backend"]:
            res["backend"] = "cbmc: " + m.group(1).replace("propositional reduction", "SAT (" + solver_name(unit) + ")")
    if res["results"] is None:
        raise Attach("cbmc gave no result: " + "; ".join(res["errors"])[-500:])
    return res


def solver_name(unit):
    c = unit.get("cbmc", [])
    if "--sat-solver" in c:
        return c[c.index("--sat-solver") + 1]
    return "MiniSat 2.2.1"


def classify(r):
    p, d = r["property"], r["description"]
    if d.startswith("REACH"):
        return "reach"
    if d.startswith("CHECK"):
        return "check"
    if ".unwind." in p or "unwinding assertion" in d:
        return "unwind"
    if "postcondition" in p or "ensures clause" in d:
        return "post"
    if ".assigns." in p or "is assignable" in d or "inclusion" in d.lower() and "assign" in d.lower():
        return "frame"
    if "loop_invariant" in p or "invariant" in d:
        return "invariant"
    if "precondition" in p or "requires clause" in d:
        return "pre"
    if "no-body" in p or "no body" in d:
        return "nobody"
    if "__CPROVER_contracts" in p:
        return "frame"
    if "decreases" in d or "variant" in d:
        return "invariant"
    return "safety"


def trace_inputs(trace):
    out = []
    for st in trace:
        if st.get("stepType") == "input":
            tag = st.get("inputID", "?")
            vals = st.get("values", [])
            if vals:
                v = vals[0]
                out.append((tag, value_of(v)))
    return out


def value_of(v):
    name = v.get("name", "")
    if name == "float":
        b = v.get("binary")
        if b and len(b) == 64:
            import struct
            return repr(struct.unpack(">d", int(b, 2).to_bytes(8, "big"))[0])
        return v.get("data", "0")
    b = v.get("binary")
    if b:
        x = int(b, 2)
        w = len(b)
        t = v.get("type", "")
        if not t.startswith("unsigned") and b[0] == "1" and "unsigned" not in t:
            x -= 1 << w
        return str(x)
    return str(v.get("data", "0"))


def native_build(unit, wd, name):
    exe = os.path.join(wd, name + ".native")
    if os.path.exists(exe):
        return exe
    gcc = ["gcc", "-w", "-g", "-O0", "-fwrapv", "-fsanitize=address", "-DVNATIVE"]
    fl = unit_flags(unit) + ["-I", REPO, "-I", CONTRACTS, "-I", wd]
    gen_files(unit, wd)
    objs = []
    # the program's other files are linked too, so that a function the harness does not include is
    # still the real one; main() is renamed, and the harness's own definitions win
    have = re.findall(r'#include "([a-z_0-9/]+\.c)"', open(os.path.join(CONTRACTS, unit["file"])).read())
    srcs = LINK_SOURCES if any(s.startswith("wlalink/") for s in have) else ASM_SOURCES
    defs = [x for x in unit_flags(unit) if "=" not in x]
    for s in srcs:
        if s in have or s in unit.get("native_src", []) or not os.path.exists(os.path.join(REPO, s)):
            continue
        o = os.path.join(wd, s.replace("/", "_") + ".o")
        if not os.path.exists(o):
            rc, t = run(["gcc", "-w", "-g", "-O0", "-fwrapv", "-fsanitize=address", "-Dmain=wla_main"] + defs +
                        ["-I", REPO, "-c", os.path.join(REPO, s), "-o", o], 120, mem_gb=0)
            if rc != 0:
                raise Attach("native build failed: " + tail(t))
        objs.append(o)
    objs += ["-Wl,-z,muldefs", "-Wl,--unresolved-symbols=ignore-all"]
    cmd = gcc + fl + [os.path.join(CONTRACTS, unit["file"]), os.path.join(CONTRACTS, "native_main.c")] + \
        [os.path.join(REPO, s) for s in unit.get("native_src", [])] + objs + ["-lm", "-o", exe]
    rc, o = run(cmd, 120, mem_gb=0)
    if rc != 0:
        raise Attach("native build failed: " + tail(o))
    return exe


def native_run(exe, infile):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0")
    p = subprocess.Popen(["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", exe, infile] if False else [exe, infile],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=os.path.dirname(exe))
    try:
        o, _ = p.communicate(timeout=20)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return "hang", "the real code did not terminate within 20 s on this input"
    o = o.decode("utf-8", "replace")
    if p.returncode == 0:
        return "pass", o
    if p.returncode in (78, 79, 80):
        return "invalid", o
    if re.search(r"pc 0x0{8,} ", o):
        return "invalid", o + "\n(a function without a definition was called)"
    return "confirmed", o


def find_random(unit, wd, name, log):
    """a unit whose loops are summarised by contracts has no trace to replay: the real code is run
    on seeded random inputs that meet the precondition"""
    try:
        exe = native_build(unit, wd, name)
    except (Attach, Timeout) as ex:
        log.append("native replay unavailable: %s" % ex)
        unit["_nonative"] = True
        return None
    f = os.path.join(wd, name + ".in")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        rc, o = run([exe, "--random", str(seed), str(unit["random"]), f], 200, mem_gb=0, cwd=wd)
    except Timeout:
        log.append("random search: out of time")
        return None
    if rc != 77:
        log.append("random search: %d runs, no violation" % unit["random"])
        return None
    st, o = native_run(exe, f)
    log.append("random search: violation found, native replay -> %s" % st)
    if st not in ("confirmed", "hang"):
        return None
    ins = [tuple(l.split()[:2]) for l in open(f) if len(l.split()) >= 2]
    m = re.search(r"REPLAY-CONFIRMED: (.*)", o)
    return {"what": m.group(1) if m else "the real code crashed", "inputs": ins, "output": o[-3000:]}


def find_cex(unit, wd, name, timeout, log):
    """Search a concrete failing input with the plain harness and replay it on the real code."""
    if unit.get("random"):
        return find_random(unit, wd, name, log), None
    small = dict(unit)
    small.update(unit.get("cex", {}))
    small["loops"] = []
    small["cbmc"] = [x for x in small.get("cbmc", []) if x not in ("--sat-solver", "cadical")]
    extra = ["-DVC_CEX"]
    try:
        a = compile_unit(small, wd, name + ".cex", extra, loops=False)
        g = instrument(small, wd, name + ".cex", a, enforce=False, loops=False)
        r = cbmc(small, g, timeout, trace=True, unwind=unit.get("cex", {}).get("unwind"))
    except (Attach, Timeout) as ex:
        log.append("counterexample search: %s" % (str(ex) or "timeout"))
        return None, None
    fails = [x for x in r["results"] if x["status"] == "FAILURE" and classify(x) in ("check", "safety", "post", "pre")]
    if not fails:
        log.append("counterexample search: no failing input within the bounds of the plain harness")
        return None, fails
    try:
        exe = native_build(small, wd, name)
    except (Attach, Timeout) as ex:
        log.append("native replay unavailable: %s" % ex)
        unit["_nonative"] = True
        return None, None
    fails.sort(key=lambda x: 0 if classify(x) == "check" else 1)
    for x in fails[:8]:
        ins = trace_inputs(x.get("trace", []))
        f = os.path.join(wd, name + ".in")
        with open(f, "w") as fh:
            for t, v in ins:
                fh.write("%s %s\n" % (t, v))
        st, o = native_run(exe, f)
        log.append("candidate for '%s': native replay -> %s" % (x["description"], st))
        if st == "pass":
            unit["_passed"] = True
        if st in ("confirmed", "hang"):
            return {"what": x["description"], "inputs": ins, "output": o[-3000:]}, fails
    return None, fails


STOP = threading.Event()      # a violation has been confirmed: the rest need not run
DEADLINE = [None]


def run_unit(unit, tier, wdroot):
    r = run_unit1(unit, tier, wdroot)
    if r["status"] == "violation" and tier == "quick":
        STOP.set()
    return r


def run_unit1(unit, tier, wdroot):
    """returns a result record"""
    u = dict(unit)
    name = u["id"]
    if STOP.is_set() or (DEADLINE[0] and time.time() > DEADLINE[0] - 10):
        return {"unit": name, "functions": u.get("functions", []), "kind": "bounded" if u.get("bound") else "proof", "bound": u.get("bound"),
                "obligations": 0, "discharged": 0, "solver_s": 0.0, "status": "skipped", "backend": "", "cmd": "", "trusted": [],
                "log": ["not run: " + ("a violation was already confirmed" if STOP.is_set() else "out of time")], "wall_s": 0.0}
    wd = os.path.join(wdroot, name)
    os.makedirs(wd, exist_ok=True)
    tmo = u.get("timeout", 200) * (3 if tier == "thorough" else 1)
    rec = {"unit": name, "functions": u.get("functions", []), "kind": "bounded" if u.get("bound") else "proof",
           "bound": u.get("bound"), "obligations": 0, "discharged": 0, "solver_s": 0.0, "status": None, "log": [],
           "backend": "", "cmd": "", "trusted": u.get("trusted", [])}
    t0 = time.time()

    def attempt(uu, loops):
        ex = ["-DVC_DFCC"] if uu.get("enforce") else []
        a = compile_unit(uu, wd, name, ex, loops=loops)
        g = instrument(uu, wd, name, a, loops=loops)
        r = cbmc(uu, g, tmo)
        uw = [x for x in r["results"] if x["status"] == "FAILURE" and classify(x) == "unwind"]
        if uw and uu.get("unwind2"):
            rec["log"].append("unwinding bound %s too small, retrying with %s" % (uu.get("unwind"), uu["unwind2"]))
            r = cbmc(uu, g, tmo, unwind=uu["unwind2"])
        return r

    try:
        r = attempt(u, True)
    except Timeout:
        rec["status"], rec["log"] = "undecided", rec["log"] + ["verifier timeout after %ds" % tmo]
        r = None
    except Attach as ex:
        rec["status"], rec["log"] = "undecided", rec["log"] + [str(ex)]
        r = None

    def judge(r, uu):
        res = r["results"]
        rec["solver_s"] += r["solver_s"]
        rec["backend"] = r["backend"]
        rec["cmd"] = r["cmd"].replace(wd + "/", "")
        reach = [x for x in res if classify(x) == "reach"]
        obl = [x for x in res if classify(x) != "reach"]
        rec["obligations"] = len(obl)
        rec["discharged"] = len([x for x in obl if x["status"] == "SUCCESS"])
        fails = [x for x in obl if x["status"] != "SUCCESS"]
        rec["failed"] = ["%s: %s" % (x["property"], x["description"]) for x in fails][:20]
        if not fails:
            if not reach or any(x["status"] != "FAILURE" for x in reach):
                return "vacuous", fails
            if not obl:
                return "vacuous", fails
            return "ok", fails
        return "fail", fails

    def fallback(why):
        fb = u.get("fallback")
        if not fb:
            return False
        uu = dict(u)
        uu.update(fb)
        if "loops" not in fb:
            uu["loops"] = []
        uu.pop("fallback", None)
        try:
            r2 = attempt(uu, bool(uu["loops"]))
        except (Attach, Timeout) as ex:
            rec["log"].append("bounded stand-in: %s" % (str(ex) or "timeout"))
            return False
        st, fl = judge(r2, uu)
        rec["log"].append("%s; bounded stand-in (%s): %s" % (why, fb.get("bound", ""), st))
        rec["kind"], rec["bound"] = "bounded", fb.get("bound", "stand-in")
        rec["status"] = {"ok": "bounded-ok", "vacuous": "undecided", "fail": "fail"}[st]
        if st == "fail":
            u.update(fb)
            u["loops"] = []
        return True, fl

    fails = []
    if r is not None:
        st, fails = judge(r, u)
        rec["status"] = st
        if st == "vacuous":
            rec["status"] = "undecided"
            rec["log"].append("vacuous: a reachability marker was not reached")
    if rec["status"] in ("undecided",) or (rec["status"] == "fail" and u.get("loops")):
        why = "proof not obtained (%s)" % ("; ".join(rec["log"])[-200:] or "obligations failed: " + "; ".join(rec.get("failed", [])[:3]))
        fb = fallback(why)
        if fb:
            fails = fb[1]
    if rec["status"] == "fail":
        kinds = set(classify(x) for x in fails)
        cex, cf = find_cex(u, wd, name, tmo, rec["log"])
        if cex:
            rec["status"] = "violation"
            rec["cex"] = cex
        elif u.get("_nonative"):
            # the harness no longer fits the code (a function moved or changed its interface)
            rec["status"] = "undecided"
        elif u.get("_passed") and not u.get("abstract"):
            # the real code, with its real capacities and all of its functions, meets the contract
            # on the input (abstract: the unit has uninterpreted functions, for which the input
            # alone does not fix the run)
            rec["status"] = "undecided"
        elif "cadical" in u.get("cbmc", []):
            # cbmc's cadical interface has produced wrong models of failing runs; only a
            # confirmed replay counts
            rec["status"] = "undecided"
        elif kinds & {"check", "post"} and not u.get("loops"):
            rec["status"] = "violation-noinput"
        elif kinds & {"safety", "pre"} and not u.get("loops") and not (kinds <= {"frame", "unwind", "nobody", "invariant"}):
            rec["status"] = "violation-noinput" if cf else "undecided"
        else:
            rec["status"] = "undecided"
        if rec["status"] == "undecided":
            rec["log"].append("obligations not discharged: " + "; ".join(rec.get("failed", [])[:4]))
    elif rec["status"] == "undecided" and u.get("random"):
        # no proof: look for a failing input all the same
        cex = find_random(u, wd, name, rec["log"])
        if cex:
            rec["status"] = "violation"
            rec["cex"] = cex
    if rec["status"] == "ok" and rec["kind"] == "bounded":
        rec["status"] = "bounded-ok"
    rec["log"] += u.get("_notes", [])
    rec["wall_s"] = round(time.time() - t0, 2)
    shutil.rmtree(wd, ignore_errors=True)
    return rec


def replay_cmdline(unit):
    return "gcc -w -g -O0 -fwrapv -fsanitize=address -DVNATIVE %s -I/repo -I%s %s %s %s -Wl,-z,muldefs -Wl,--unresolved-symbols=ignore-all -lm -o /tmp/replay && /tmp/replay <this file>" % (
        " ".join(unit_flags(unit)), CONTRACTS, os.path.join(CONTRACTS, unit["file"]), os.path.join(CONTRACTS, "native_main.c"),
        " ".join(os.path.join(REPO, s) for s in unit.get("native_src", [])))


def main():
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    import units as U
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--unit") + 1] if "--unit" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = U.PROPERTIES[prop]
    units = [u for u in spec["units"] if (tier == "thorough" or not u.get("thorough_only")) and
             not (tier == "thorough" and u.get("quick_only"))]
    if only:
        units = [u for u in units if re.search(only, u["id"])]
    t0 = time.time()
    if tier == "quick":
        DEADLINE[0] = t0 + float(os.environ.get("VERIF_DEADLINE", "780"))
    wdroot = tempfile.mkdtemp(prefix="vc_%s_" % prop)
    try:
        # heavier first
        order = sorted(units, key=lambda u: -u.get("cost", 5))
        with ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            recs = list(ex.map(lambda u: run_unit(u, tier, wdroot), order))
    finally:
        shutil.rmtree(wdroot, ignore_errors=True)
    byid = {u["id"]: u for u in units}
    known = load_known()
    rc = 0
    viol = []
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for rec in sorted(recs, key=lambda r: r["unit"]):
        print("%-34s %-18s obligations %d/%d  solver %.2fs  wall %.1fs" % (
            rec["unit"], rec["status"] + (" (bounded)" if rec["kind"] == "bounded" and rec["status"] not in ("bounded-ok",) else ""),
            rec["discharged"], rec["obligations"], rec["solver_s"], rec["wall_s"]))
        if rec["status"] not in ("ok", "bounded-ok") or "-v" in sys.argv:
            for l in rec["log"]:
                print("    " + l[:400].replace("\n", "\n    "))
            for l in rec.get("failed", [])[:6]:
                print("    obligation " + l)
        if rec["status"] in ("violation", "violation-noinput"):
            u = byid[rec["unit"]]
            if rec["status"] == "violation-noinput" and u.get("noinput_is_undecided"):
                rec["status"] = "undecided"
                continue
            path = os.path.join(rdir, "%s_%s.txt" % (prop, rec["unit"]))
            with open(path, "w") as f:
                f.write("# property %s unit %s\n# failed obligations:\n" % (prop, rec["unit"]))
                for l in rec.get("failed", []):
                    f.write("#   %s\n" % l)
                for g, text in u.get("gen", {}).items():
                    f.write("# generated %s:\n" % g + "".join("#   %s\n" % l for l in text.splitlines()))
                f.write("# verifier: %s\n" % rec["cmd"])
                if rec["status"] == "violation":
                    f.write("# counterexample for: %s\n# replay: %s\n" % (rec["cex"]["what"], replay_cmdline(u)))
                    for l in rec["cex"]["output"].splitlines()[-40:]:
                        f.write("#   | %s\n" % l)
                    for t, v in rec["cex"]["inputs"]:
                        f.write("%s %s\n" % (t, v))
                else:
                    for l in rec["log"]:
                        f.write("#   %s\n" % l.replace("\n", "\n#   "))
            viol.append((rec, path))
    for rec, path in viol:
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if rec["status"] == "violation" else " no-failing-input-found"))
        rc = 1
    for k in known:
        if k[0] == "finding" and k[1] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    proved = [r for r in recs if r["status"] == "ok"]
    bounded = [r for r in recs if r["kind"] == "bounded"]
    undec = [r for r in recs if r["status"] in ("undecided", "skipped")]
    if recs and len(undec) == len(recs) and rc == 0:
        print("ERROR: no unit of %s could be decided" % prop)
        rc = 2
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": spec["level"],
        "coverage": {
            "obligations": sum(r["obligations"] for r in recs if r["kind"] == "proof"),
            "discharged": sum(r["discharged"] for r in recs if r["kind"] == "proof"),
            "checker_cmd": (recs[0]["cmd"] if recs else "cbmc"),
            "trusted_base": sorted(set(spec.get("trusted", [])) | set(t for r in recs for t in r["trusted"])),
            "functions_under_contract": sorted(set(f for r in proved for f in r["functions"])),
            "functions_bounded_only": sorted(set(f for r in bounded for f in r["functions"]) - set(f for r in proved for f in r["functions"])),
            "bounded_obligations": sum(r["obligations"] for r in bounded),
            "bounded_discharged": sum(r["discharged"] for r in bounded),
            "solver_seconds": round(sum(r["solver_s"] for r in recs), 2),
            "undecided_units": [r["unit"] for r in undec],
            "explanation": spec.get("explanation", "every obligation generated from /repo's current source by goto-instrument --dfcc and cbmc, per unit below; bounded units are listed with their bound and never counted as proved"),
            "units": [{k: r.get(k) for k in ("unit", "functions", "kind", "bound", "status", "obligations", "discharged", "backend", "solver_s", "wall_s", "log")} for r in recs],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d units, %d proved, %d bounded, %d undecided, %d violations, %.1fs" % (
        prop, len(recs), len(proved), len([r for r in bounded if r["status"] == "bounded-ok"]), len(undec), len(viol), time.time() - t0))
    return rc


def load_known():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m:
                out.append(("finding", m.group(1), m.group(2).strip()))
    return out


if __name__ == "__main__":
    sys.exit(main())
