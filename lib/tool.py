"""Builds the analyser (src/blsa.cpp) and runs its commands on the IR of /repo's working tree."""
import fcntl, glob, hashlib, json, os, subprocess, sys, time
from . import ir

SRC = os.path.join(ir.VERIF, "src")


def tool():
    h = hashlib.sha256()
    for f in sorted(glob.glob(SRC + "/*.h") + glob.glob(SRC + "/*.cpp")):
        h.update(f.encode() + open(f, "rb").read())
    exe = os.path.join(ir.CACHE, "blsa-" + h.hexdigest()[:16])
    os.makedirs(ir.CACHE, exist_ok=True)
    if not os.path.exists(exe):
        with open(os.path.join(ir.CACHE, "tool.lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            if not os.path.exists(exe):
                for old in glob.glob(ir.CACHE + "/blsa-*"):
                    os.unlink(old)
                tmp = exe + ".tmp%d" % os.getpid()
                ir._run(["clang++-18", "-std=c++17", "-O2", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include",
                         SRC + "/blsa.cpp", "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], "building the analyser")
                os.rename(tmp, exe)
    return exe


def ast_tool():
    src = SRC + "/ast/blast.cpp"
    exe = os.path.join(ir.CACHE, "blast-" + hashlib.sha256(open(src, "rb").read()).hexdigest()[:16])
    os.makedirs(ir.CACHE, exist_ok=True)
    if not os.path.exists(exe):
        with open(os.path.join(ir.CACHE, "ast.lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            if not os.path.exists(exe):
                for old in glob.glob(ir.CACHE + "/blast-*"):
                    os.unlink(old)
                tmp = exe + ".tmp%d" % os.getpid()
                ir._run(["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                         "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"], "building the syntax tree analyser")
                os.rename(tmp, exe)
    return exe


def run_ast(cmd, path, *extra):
    """Runs a syntax tree rule on one translation unit; returns (Result, the records the command printed)."""
    p = subprocess.run([ast_tool(), cmd, path, "--"] + ir.BASE + ["-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + list(extra),
                       capture_output=True, text=True, timeout=850)
    res = parse(p.stdout, Result())
    if p.returncode or not res.ended:
        raise ir.AnalysisBroken("blast %s exited with %d: %s" % (cmd, p.returncode, (p.stdout + p.stderr)[-1500:]))
    return res, [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]


def run_raw(cmd, *args):
    b = prepared()
    p = subprocess.run([tool(), cmd, b["prep"]] + [str(a) for a in args], capture_output=True, text=True, timeout=850)
    if p.returncode:
        raise ir.AnalysisBroken("blsa %s exited with %d: %s" % (cmd, p.returncode, p.stderr[-1500:]))
    return [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]


def prepared():
    b = ir.build()
    exe = tool()
    for kind in ("prep", "apart"):
        out = os.path.join(b["dir"], "%s-%s.bc" % (kind, os.path.basename(exe)[5:]))
        if not os.path.exists(out):
            with open(os.path.join(b["dir"], "lock"), "w") as lock:
                fcntl.flock(lock, fcntl.LOCK_EX)
                if not os.path.exists(out):
                    tmp = out + ".tmp%d" % os.getpid()
                    ir._run([exe, "prep", b["linked" if kind == "prep" else "apart"], tmp], "blsa prep")
                    os.rename(tmp, out)
        b[kind] = out
    return b


class Result:
    def __init__(self):
        self.violations, self.counts, self.samples, self.notes, self.broken, self.ended = [], {}, [], [], [], False

    def merge(self, o):
        self.violations += o.violations
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.samples += o.samples
        self.notes += o.notes
        self.broken += o.broken


def parse(text, res):
    for line in text.splitlines():
        if not line.startswith("{"):
            continue
        d = json.loads(line)
        t = d["type"]
        if t == "violation":
            res.violations.append(d)
        elif t == "count":
            res.counts[d["name"]] = res.counts.get(d["name"], 0) + d["n"]
        elif t == "sample":
            res.samples.append(d["kind"] + ": " + d["text"])
        elif t == "note":
            res.notes.append(d["text"])
        elif t == "broken":
            res.broken.append(d["text"])
        elif t == "end":
            res.ended = True
    return res


def run(cmd, *args, timeout=850):
    """Runs an analyser command; "apart:cmd" runs it on the IR in which nothing is inlined."""
    b = prepared()
    kind, cmd = ("apart", cmd[6:]) if cmd.startswith("apart:") else ("prep", cmd)
    p = subprocess.run([tool(), cmd, b[kind]] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout)
    res = parse(p.stdout, Result())
    if p.returncode or not res.ended:
        raise ir.AnalysisBroken("blsa %s exited with %d: %s" % (cmd, p.returncode, p.stderr[-1500:]))
    return res


def run_many(jobs, timeout=850, workers=8):
    """Runs several analyser commands in parallel and merges what they report."""
    from concurrent.futures import ThreadPoolExecutor
    prepared()
    total = Result()
    with ThreadPoolExecutor(workers) as ex:
        for r in ex.map(lambda j: run(*j, timeout=timeout), jobs):
            total.merge(r)
    total.ended = True
    return total
