"""Building the harness from /repo's current tree, running plans, and having TLC judge the traces."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = VERIF + "/harness"
TARGET = VERIF + "/target"
SPEC = VERIF + "/spec"
WORK = VERIF + "/work"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
CORES = 8


class CheckError(Exception):
    """The check itself cannot give an answer."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ---------------------------------------------------------------------------------------------- building
def tree_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    return h.hexdigest()


_repo_hash = None


def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        _repo_hash = tree_hash([REPO])
    return _repo_hash


class Config:
    """A way to build the harness crate: profile, cargo features, sanitizer."""

    def __init__(self, profile="dev", features=(), asan=False, shapes=("main",), crate="harness"):
        self.profile, self.features, self.asan, self.crate = profile, tuple(features), asan, crate
        self.shapes = shapes
        self.name = "-".join([crate, profile] + (["asan"] if asan else []) + list(self.features) or ["plain"])
        self.bin = None
        self.hook = True

    def dir(self):
        return TARGET + "/" + self.name

    def build(self):
        src = VERIF + "/" + self.crate
        stamp = repo_hash() + tree_hash([src]) + self.name
        exe = self.dir() + "/exe"
        sf = self.dir() + "/STAMP"
        try:
            with open(sf) as f:
                old = f.read().split()
            if old[0] == hashlib.sha256(stamp.encode()).hexdigest() and os.path.exists(exe):
                self.bin, self.hook = exe, old[1] == "hook"
                return self
        except (OSError, IndexError):
            pass
        os.makedirs(self.dir(), exist_ok=True)
        if os.path.exists(sf):
            os.remove(sf)
        out = ""
        for hook in (True, False):
            env = dict(os.environ, CARGO_TARGET_DIR=self.dir())
            flags = ["--cfg", "gecs_verif"] if hook else []
            cargo = ["cargo"]
            extra = []
            if self.asan:
                cargo = ["cargo", "+nightly"]
                flags += ["-Zsanitizer=address"]
                extra = ["--target", "x86_64-unknown-linux-gnu"]
            env["RUSTFLAGS"] = " ".join(flags)
            # never trust mtimes: the tree may have changed under an old timestamp
            sh(cargo + ["clean", "--offline", "-p", "gecs", "-p", "gecs_macros", "-p", "gecs_" + self.crate]
               + extra + (["--release"] if self.profile == "release" else []), cwd=src, env=env)
            cmd = cargo + ["build", "--offline", "--bin", "gecs_" + self.crate] + extra
            if self.profile == "release":
                cmd.append("--release")
            if self.features:
                cmd += ["--features", ",".join(self.features)]
            r = sh(cmd, cwd=src, env=env)
            if r.returncode == 0:
                sub = "x86_64-unknown-linux-gnu/" if self.asan else ""
                built = "%s/%s%s/gecs_%s" % (self.dir(), sub, "release" if self.profile == "release" else "debug", self.crate)
                shutil.copy2(built, exe)
                with open(sf, "w") as f:
                    f.write(hashlib.sha256(stamp.encode()).hexdigest() + (" hook" if hook else " nohook"))
                self.bin, self.hook = exe, hook
                return self
            out = r.stdout
        raise CheckError("cannot build %s:\n%s" % (self.name, out[-3000:]))


def build_all(configs):
    todo = {c.name: c for c in configs}
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda c: c.build(), todo.values()))
    for c in configs:
        c.bin, c.hook = todo[c.name].bin, todo[c.name].hook


# ---------------------------------------------------------------------------------------------- TLC
def tlc(module, env=None, cfg=None, workers=1, heap="2g", timeout=800, extra=(), cwd=SPEC):
    meta = "%s/tlc/%d-%s" % (WORK, os.getpid(), hashlib.md5(("%s%s%s" % (module, env, time.time())).encode()).hexdigest()[:10])
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"]
    if cfg:
        cmd += ["-config", cfg]
    cmd += list(extra) + [module + ".tla"]
    try:
        r = sh(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def generate(module, deps, consts, tag="PLAN", timeout=1500, heap="6g"):
    """The sequences of strings a generator specification prints (cached: the specification alone determines them)."""
    h = hashlib.md5(json.dumps(sorted(consts.items())).encode())
    for m in (module,) + tuple(deps):
        with open("%s/%s.tla" % (SPEC, m)) as f:
            h.update(f.read().encode())
    d = WORK + "/gen"
    os.makedirs(d, exist_ok=True)
    cache = "%s/%s-%s.json" % (d, module, h.hexdigest()[:12])
    if not os.path.exists(cache):
        cfg = "%s/%s-%d.cfg" % (d, module, os.getpid())
        with open("%s/%s.cfg" % (SPEC, module)) as f, open(cfg, "w") as o:
            text = f.read()
            for k, v in consts.items():
                text = re.sub(r"\b%s = \S+" % k, "%s = %s" % (k, v), text)
            o.write(text)
        # one worker: the order of exploration, and with it what is printed, is reproducible
        rc, out = tlc(module, cfg=cfg, heap=heap, timeout=timeout)
        os.remove(cfg)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("TLC on %s: %s" % (module, out[-2000:]))
        found = re.findall(r'<<"%s", <<(.*?)>>>>' % tag, re.sub(r"\s+", " ", out))
        with open(cache + ".tmp", "w") as f:
            json.dump([re.findall(r'"([^"]*)"', s) for s in found], f)
        os.rename(cache + ".tmp", cache)
    with open(cache) as f:
        return json.load(f)


# ---------------------------------------------------------------------------------------------- traces
class Broken:
    """One event of the real crate that is not a step of the specification."""

    def __init__(self, job, name, line, op, cats, flags, note=""):
        self.job, self.name, self.line, self.op = job, name, line, op
        self.cats, self.flags, self.note = set(cats), set(flags), note

    def __str__(self):
        return "%s behaviour=%s event=%s line=%s clauses=%s after=%s %s" % (
            self.job.cfg.name, self.name, self.op, self.line, ",".join(sorted(self.cats)), ",".join(sorted(self.flags)), self.note)


class Job:
    def __init__(self, cfg, shape, plans, module="GecsTrace"):
        self.cfg, self.shape, self.plans, self.module = cfg, shape, plans, module
        self.events = self.judged = 0
        self.broken = []
        self.ops = {}
        self.sample = None


def run_job(job, path, hang=240):
    plan, trace = path + ".plan", path + ".ndjson"
    with open(plan, "w") as f:
        f.write("\n".join("\n".join(b) for b in job.plans) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", RUST_BACKTRACE="0")
    lim = [] if job.cfg.asan else ["prlimit", "--as=12000000000"]
    note = None
    try:
        r = sh(lim + [job.cfg.bin, job.shape, plan, trace], env=env, timeout=hang)
        if r.returncode != 0:
            note = "the process ended with status %d: %s" % (r.returncode, " | ".join(x for x in r.stdout.splitlines() if x.strip())[:600])
    except subprocess.TimeoutExpired:
        note = "no answer within %d s" % hang
    lines = []
    name = "?"
    with open(trace, errors="replace") as f:
        for ln in f:
            if ln.endswith("\n") and ln.startswith("{") and ln.rstrip().endswith("}"):
                lines.append(ln)
                if ln.startswith('{"op":"reset"'):
                    name = json.loads(ln)["b"]
                m = re.match(r'\{"op":"(\w+)"', ln)
                if m:
                    job.ops[m.group(1)] = job.ops.get(m.group(1), 0) + 1
    if note is not None:
        with open(trace, "w") as f:
            f.writelines(lines)
        job.broken.append(Broken(job, name, len(lines) + 1, "?", {"crash"}, {"clone", "idestroy", "forge", "panic", "ff"}, note))
    job.events = len(lines)
    if len(lines) < 2:
        if note is None:
            raise CheckError("empty trace " + trace)
        return job
    for attempt in (1, 2):
        rc, out = tlc(job.module, env={"TRACE": trace}, heap="3g")
        m = re.search(r'<<"JUDGED", (\d+), (\d+)>>', out)
        if m:
            break
    for b in re.finditer(r'<< ?"BROKEN", "([^"]*)", (\d+), "([^"]*)", \{(.*?)\}, \{(.*?)\} ?>>', re.sub(r"\s+", " ", out)):
        job.broken.append(Broken(job, b.group(1), int(b.group(2)), b.group(3),
                                 re.findall(r'"([^"]*)"', b.group(4)), re.findall(r'"([^"]*)"', b.group(5))))
    if m:
        job.judged = int(m.group(1))
        if not job.broken and int(m.group(2)):
            raise CheckError("lost reports of TLC on " + trace)
    else:
        at = re.findall(r"i = (\d+)", out)
        if "Error" in out and "evaluat" in out and at:
            line = int(at[-1])
            nm = "?"
            for ln in lines[:line]:
                if ln.startswith('{"op":"reset"'):
                    nm = json.loads(ln)["b"]
            job.broken.append(Broken(job, nm, line, "?", {"judge"}, {"clone", "idestroy", "forge", "panic", "ff"},
                                     "the event cannot be interpreted by the specification"))
        else:
            raise CheckError("TLC gave no verdict on %s:\n%s" % (trace, out[-2500:]))
    return job


def run_jobs(jobs, tag, hang=240):
    d = "%s/%s" % (WORK, tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with cf.ThreadPoolExecutor(CORES) as ex:
        return list(ex.map(lambda x: run_job(x[1], "%s/%d" % (d, x[0]), hang), enumerate(jobs)))


def shard(cfg, shape, plans, n, module="GecsTrace"):
    """Splits plans into n jobs of about equal size."""
    n = max(1, min(n, len(plans)))
    parts = [[] for _ in range(n)]
    size = [0] * n
    for b in sorted(plans, key=len, reverse=True):
        i = size.index(min(size))
        parts[i].append(b)
        size[i] += len(b) + (400 if b[0].endswith("light") else 0)  # a rough measure of what judging it costs
    return [Job(cfg, shape, p, module) for p in parts if p]


# ---------------------------------------------------------------------------------------------- results
def known_findings():
    out = []
    try:
        with open(VERIF + "/known-findings.txt") as f:
            for ln in f:
                if ln.startswith("finding:"):
                    out.append(ln.split(":", 1)[1].strip())
    except OSError:
        pass
    return out


def save_replay(pid, n, payload):
    d = WORK + "/replay"
    os.makedirs(d, exist_ok=True)
    p = "%s/%s-%d.json" % (d, pid, n)
    with open(p, "w") as f:
        json.dump(payload, f, indent=1)
    return p


def evidence(pid, level, coverage, wall, violations, assumptions=()):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
        json.dump({"property": pid, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED, "level": level,
                   "coverage": coverage, "assumptions": list(assumptions), "wall_s": round(wall, 2),
                   "violations": violations}, f, indent=1)
