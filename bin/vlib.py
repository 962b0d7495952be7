"""Runner shared by all checks: builds the conformance drivers from /repo's
working tree, runs TLC (model checking, behaviour generation, trace
validation) and turns the outcome into a verdict and an evidence file."""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class HarnessError(Exception):
    """The check itself failed: no verdict."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.chmod(self.work, 0o755)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.violations, self.known = [], [], [], []
        self.models = {}
        self.failed = None
        self.opcounts = {}

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def cleanup(self):
        # go marks nothing read-only here; ignore leftovers
        shutil.rmtree(self.work, ignore_errors=True)


# ---------------------------------------------------------------- building

def go_env(work):
    env = dict(os.environ)
    env.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", CGO_ENABLED="1",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
               PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:" + env.get("PATH", ""))
    for k in ("GOROOT", "GOBIN", "GOOS", "GOARCH"):
        env.pop(k, None)
    mod = os.path.join(work, "mute.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    lines = set(open(os.path.join(REPO, "go.sum")).read().splitlines())
    lines |= set(open(os.path.join(VERIF, "harness/extra.sum")).read().splitlines())
    with open(os.path.join(work, "mute.sum"), "w") as f:
        f.write("\n".join(sorted(x for x in lines if x)) + "\n")
    env["GOFLAGS"] = "-mod=readonly -modfile=" + mod
    return env


def build(ctx, comp, race=False, tags=None, clock=False):
    """Builds the driver harness/<comp> inside /repo's module by overlay."""
    env = go_env(ctx.work)
    repl = {}
    for d in ("vlib", comp):
        for f in glob.glob(os.path.join(VERIF, "harness", d, "**", "*.go"), recursive=True):
            rel = os.path.relpath(f, os.path.join(VERIF, "harness"))
            repl[os.path.join(REPO, "zzverif", rel)] = f
    # files the driver wants to see inside packages of the repository
    inpkg = os.path.join(VERIF, "harness", comp, "inpkg.json")
    if os.path.exists(inpkg):
        for dst, src in json.load(open(inpkg)).items():
            repl[os.path.join(REPO, dst)] = os.path.join(VERIF, "harness", comp, src)
    if clock:
        # a clock the driver can stop and move on, in place of the system's
        n = 0
        for f in glob.glob(os.path.join(REPO, "util/times/*.go")):
            if f.endswith("_test.go"):
                continue
            src, k = re.subn(r"\btime\.Now\b", "zzTime", open(f).read())
            if k:
                src += "\nvar _ time.Time\n"
            n += k
            dst = os.path.join(ctx.work, "clock-" + os.path.basename(f))
            open(dst, "w").write(src)
            repl[f] = dst
        if not n:
            raise HarnessError("util/times does not ask for the time")
        repl[os.path.join(REPO, "util/times/zz_clock.go")] = os.path.join(VERIF, "harness/clock/clock.go.src")
    head = os.path.join(REPO, "release/head.go")
    if not os.path.exists(head):
        f = os.path.join(ctx.work, "head.go")
        with open(f, "w") as g:
            g.write('package release\n\nconst (\n\tCommit = "0000000000000000000000000000000000000000"\n'
                    '\tDate   = "Thu Nov 12 05:46:50 2026 +0000"\n)\n')
        repl[head] = f
    ov = os.path.join(ctx.work, "overlay-%s.json" % comp)
    json.dump({"Replace": repl}, open(ov, "w"))
    out = os.path.join(ctx.work, "drv-" + comp)
    cmd = ["go", "build", "-overlay", ov, "-o", out]
    if race:
        cmd.append("-race")
    if tags:
        cmd += ["-tags", tags]
    cmd.append("./zzverif/" + comp)
    r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise HarnessError("building driver %s failed:\n%s" % (comp, r.stdout[-4000:]))
    ctx.log("built driver", comp)
    return out


# --------------------------------------------------------------------- TLC

def spec_dir(ctx, comp):
    d = os.path.join(ctx.work, "spec-" + comp)
    if not os.path.isdir(d):
        os.makedirs(d)
        for src in (os.path.join(VERIF, "spec/lib"), os.path.join(VERIF, "spec", comp)):
            for f in os.listdir(src):
                if f.endswith((".tla", ".cfg")):
                    shutil.copy(os.path.join(src, f), d)
    return d


def tlc_error(out):
    """What TLC complained about, and the end of its output."""
    i = out.find("Error:")
    return (out[i:i + 2500] + "\n...\n" if i >= 0 else "") + out[-2500:]


def run_tlc(ctx, comp, module, cfg, args=(), env=None, timeout=600, heap="2g", workers="1"):
    d = spec_dir(ctx, comp)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=ctx.work)
    cmd = ["java", "-XX:+UseParallelGC" if workers != "1" else "-XX:+UseSerialGC", "-Xmx" + heap,
           "-Xss16m", "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", meta, "-workers", workers, "-config", cfg] + list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise HarnessError("TLC timed out after %ds on %s/%s" % (timeout, module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def model_check(ctx, comp, module, cfg, timeout=600, heap="6g", workers=None):
    """Exhaustive check of the specification itself. A violated property here
    is a defect of the specification, hence an error and not a verdict."""
    t = time.time()
    rc, out = run_tlc(ctx, comp, module, cfg, timeout=timeout, heap=heap, workers=str(workers or NCPU))
    m = STATS.findall(out)
    if rc != 0 or "No error has been found" not in out or not m:
        raise HarnessError("model checking %s/%s failed (rc %d):\n%s" % (module, cfg, rc, tlc_error(out)))
    gen, dist = int(m[-1][0]), int(m[-1][1])
    ctx.states += dist
    ctx.transitions += gen
    ctx.models[cfg] = {"states": dist, "transitions": gen, "wall_s": round(time.time() - t, 1)}
    ctx.log("model %s: %d distinct states, %d transitions, no error" % (cfg, dist, gen))


def unquote(line):
    return json.loads(json.loads(line))


def generate(ctx, comp, module, cfg, num, depth, seed=None, timeout=300):
    """Behaviours of the specification, generated by TLC, as scripts."""
    rc, out = run_tlc(ctx, comp, module, cfg, timeout=timeout,
                      args=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed",
                            str(ctx.seed if seed is None else seed)])
    scripts = []
    for line in out.splitlines():
        if line.startswith('"['):
            try:
                scripts.append(unquote(line))
            except ValueError:
                raise HarnessError("cannot parse generated behaviour: " + line[:300])
    if not scripts or rc not in (0,):
        raise HarnessError("generating behaviours with %s/%s failed (rc %d):\n%s" % (module, cfg, rc, tlc_error(out)))
    # several invariants/evaluations may print a behaviour more than once
    seen, uniq = set(), []
    for s in scripts:
        k = json.dumps(s, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(s)
    ctx.log("generated %d behaviours of depth %d from %s" % (len(uniq), depth, cfg))
    return uniq


# ----------------------------------------------------------------- driving

def drive(ctx, binary, scripts, shards=None, timeout=600, args="", env=None, prep=None):
    """Runs the scripts against the real code; returns the trace files."""
    n = max(1, min(shards or NCPU, len(scripts)))
    base = tempfile.mkdtemp(prefix="run-", dir=ctx.work)
    os.chmod(base, 0o755)

    def give_up(tf, why):
        """The driver could not go on. What it recorded until then is validated
        all the same: the code may have failed before. Without a rejection there
        is no verdict (see finish)."""
        ctx.failed = why
        if why.startswith("driver timed out"):
            ctx.log(why)
        data = open(tf, "rb").read()
        with open(tf, "wb") as f:
            f.write(data[:data.rfind(b"\n") + 1])

    def one(i):
        part = scripts[i::n]
        sf = os.path.join(base, "s%d.ndjson" % i)
        tf = os.path.join(base, "t%d.ndjson" % i)
        wd = os.path.join(base, "w%d" % i)
        os.makedirs(wd)
        with open(sf, "w") as f:
            for s in part:
                f.write(json.dumps(s) + "\n")
        open(tf, "w").close()
        skip = 0
        crashes = 0
        deadline = time.time() + timeout
        while True:
            e = dict(os.environ)
            e.update(env or {})
            e["TMPDIR"] = wd
            e["HOME"] = wd
            cmd = [binary, "-scripts", sf, "-out", tf, "-work", wd, "-seed", str(ctx.seed), "-tier", ctx.tier,
                   "-skip", str(skip)]
            if args:
                cmd += ["-args", args]
            try:
                r = subprocess.run(cmd, env=e, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   text=True, errors="replace", timeout=max(5, deadline - time.time()))
            except subprocess.TimeoutExpired:
                give_up(tf, "driver timed out after %ds" % timeout)
                break
            if os.environ.get("VERIF_STDERR"):
                sys.stderr.write(r.stderr)
            if r.returncode == 0:
                break
            err = r.stderr
            if r.returncode == 9 or "HARNESS" in err or "HarnessError" in err:
                give_up(tf, "driver failed: " + err[-3000:])
                break
            if not ("panic:" in err or "fatal error:" in err or "DATA RACE" in err or "log.Fatal" in err
                    or r.returncode in (1, 2, 66)):
                give_up(tf, "driver ended with %d: %s" % (r.returncode, err[-3000:]))
                break
            # the real code took the process down: record it as the result
            # of the operation that was running, and go on after this script
            crashes += 1
            lines = open(tf).read().splitlines()
            last = -1
            done = 0
            for ln in lines:
                ev = json.loads(ln)
                if ev.get("op") == "reset":
                    last, done = ev["script"], 0
                else:
                    done += 1
            if last < 0 or crashes > 50:
                give_up(tf, "driver crashed: " + err[-3000:])
                break
            opn = part[last][min(done, len(part[last]) - 1)]
            ev = dict(opn)
            ev.update(res="crash", detail=err[-1500:])
            with open(tf, "a") as f:
                f.write(json.dumps(ev) + "\n")
            skip = last + 1
            if skip >= len(part):
                break
        shutil.rmtree(wd, ignore_errors=True)
        return tf, part

    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, range(n)))
    ctx.log("ran %d scripts against the code" % len(scripts))
    return res


def split_runs(lines):
    runs = []
    for i, ln in enumerate(lines):
        if '"op":"reset"' in ln or '"op": "reset"' in ln:
            runs.append([i, i])
        runs[-1][1] = i
    return runs


OUTSIDE = re.compile(r"Attempted to (access|apply|select|check|compute|compare)|not in the domain|CHOOSE x \\in S: P, but no element")
BROKEN = re.compile(r"StackOverflow|OutOfMemory|Java heap|ArithmeticException|Attempted to (enumerate|construct)")


def validate(ctx, comp, module, cfg, traces, timeout=800, heap="3g", env=None, label=None):
    """Validates recorded traces against the trace specification. Returns the
    list of rejections (file, line, reason)."""

    def one(item):
        tf, part = item
        lines = open(tf).read().splitlines()
        if not lines:
            if ctx.failed:
                return None
            raise HarnessError("empty trace " + tf)
        e = {"TRACE": tf, "KF": os.path.join(ctx.work, "kf.json")}
        e.update(env or {})
        rc, out = run_tlc(ctx, comp, module, cfg, env=e, timeout=timeout, heap=heap)
        runs = split_runs(lines)
        m = STATS.findall(out)
        gen = int(m[-1][0]) if m else 0
        rej = re.search(r'<<"REJECTED-AT", (\d+)>>', out)
        inv = re.search(r"(Invariant|Action property|property) (\S+) (is|was) violated", out)
        if rc == 0 and "No error has been found" in out and not rej:
            return lines, runs, gen, None, part, out
        if inv and not rej:
            ls = re.findall(r"/\\ l = (\d+)", out)
            if not ls:
                raise HarnessError("cannot read TLC output:\n" + out[-4000:])
            return lines, runs, gen, (int(ls[-1]) - 1, inv.group(2)), part, out
        if rej:
            return lines, runs, gen, (int(rej.group(1)), "not a step of the specification"), part, out
        # an event with values the specification has no meaning for
        ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
        if OUTSIDE.search(out) and not BROKEN.search(out) and ls:
            return lines, runs, gen, (int(ls[-1]), "outside of what the specification describes"), part, out
        raise HarnessError("trace validation with %s/%s failed (rc %d):\n%s" % (module, cfg, rc, tlc_error(out)))

    rejections = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = [r for r in ex.map(one, traces) if r]
    for lines, runs, gen, rej, part, out in results:
        for k in set(re.findall(r'<<"KNOWN", "([^"]+)"', out)):
            if k not in ctx.known:
                ctx.known.append(k)
        ctx.events += len(lines)
        for ln in lines:
            ev = json.loads(ln)
            how = "".join(":" + ev[f] for f in ("lie", "bad", "how") if isinstance(ev.get(f), str) and ev[f])
            k = "%s%s/%s" % (ev.get("op"), how, ev.get("res", ""))
            ctx.opcounts[k] = ctx.opcounts.get(k, 0) + 1
        ctx.transitions += gen
        if rej is None:
            ctx.traces += len(runs)
            if len(ctx.samples) < 3 and runs:
                a, b = runs[len(runs) // 2]
                ctx.samples.append([json.loads(x) for x in lines[a:min(b + 1, a + 8)]])
        else:
            line, why = rej
            good = [r for r in runs if r[1] < line - 1]
            ctx.traces += len(good)
            cur = [r for r in runs if r[0] <= line - 1 <= r[1]]
            a, b = cur[0] if cur else (max(0, line - 2), line - 1)
            reset = json.loads(lines[a])
            script = part[reset["script"]] if "script" in reset else None
            rejections.append({"why": why, "spec": module, "comp": comp, "script": script,
                               "trace": [json.loads(x) for x in lines[a:line]],
                               "rejected_event": json.loads(lines[min(line, len(lines)) - 1])})
    ctx.log("validated %d runs (%d events) against %s: %d rejected" %
            (ctx.traces, ctx.events, module, len(rejections)))
    for r in rejections:
        violation(ctx, r)
    return rejections


def violation(ctx, info):
    info["property"] = ctx.prop
    info["seed"], info["tier"] = ctx.seed, ctx.tier
    ctx.violations.append(info)


# ----------------------------------------------------------------- verdict

def known_findings():
    path = os.path.join(VERIF, "known-findings.txt")
    out = {}
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", ln.strip())
            if m:
                out[m.group(2)] = (m.group(1), m.group(3))
    return out


def finish(ctx, level="model_checking", extra=None):
    if ctx.failed and not ctx.violations:
        raise HarnessError(ctx.failed)
    wall = round(time.time() - ctx.t0, 1)
    kf = known_findings()
    for k in ctx.known:
        if k in kf:
            print("KNOWN-FINDING: property=%s %s: %s" % (kf[k][0], k, kf[k][1]))
    cov = {"states": ctx.states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.traces, "events_validated": ctx.events,
           "operations_by_result": dict(sorted(ctx.opcounts.items())),
           "models": ctx.models, "samples": ctx.samples or [{"note": "no accepted trace"}]}
    if extra:
        cov.update(extra)
    if ctx.notes:
        cov["notes"] = ctx.notes
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.__dict__.get("assumptions", []), "wall_s": wall, "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if ctx.violations:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(ctx.violations[:5]):
            path = os.path.join(d, "%s-%d-%d.json" % (ctx.prop, ctx.seed, i))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            ev = v.get("rejected_event", {})
            print("  %s: %s rejected event: %s" % (v.get("spec", ""), v.get("why", ""), json.dumps(ev)[:600]))
            print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        sys.stdout.flush()
        return 1
    ctx.log("held: %d model states, %d runs / %d events of the real code validated" %
            (ctx.states, ctx.traces, ctx.events))
    return 0
