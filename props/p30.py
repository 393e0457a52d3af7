"""P30: queued jobs run exactly the configured pipeline, once, and report how it ended.

The real queueing functions run on symbolic cluster configurations, in a scratch directory, with
stand-ins for the submission commands; the job scripts they generate are then run by bash, with
stand-ins for the MPI launcher and the pipeline command, which record what they were given and fail,
or kill the job, as chosen symbolically. Histories of queueing and running are compared with the
state of the latest job. Templates are compared with all combinations of the values, and run through
the real command line.
"""

import os
import re
import shutil
import stat
import subprocess
import sys
import tempfile
import warnings

from vp.harness import Harness

ASSUMPTIONS = [
    "the schedulers, launchers and the pipeline command are stand-ins; job scripts are run by the installed bash",
    "names of directories may have spaces, but no quotes, dollar signs or backslashes (other than variables to expand)",
    "histories of at most 3 jobs, one after the other",
]

REC = """#!/bin/bash
{{
echo "CMD {name}"
for a in "$@"; do echo "ARG $a"; done
echo "CWD $PWD"
echo "OMP $OMP_NUM_THREADS"
echo "VENV $P30_VENV"
echo "STATUS $(cat "$P30_STATUS" 2>/dev/null)"
echo END
}} >> {d}/calls
{rest}
"""
RESTS = {
    "sbatch": "exit $P30_SUBMIT", "qsub": "exit $P30_SUBMIT", "module": "",
    "srun": """while [ $# -gt 0 ] && [ "$1" != caput-pipeline ]; do shift; done
if [ "$P30_HOW" = killed ]; then kill -9 $PPID; exit 1; fi
exec "$@" """,
    "caput-pipeline": """echo "$P30_RUN" > output
echo "stdout of $P30_RUN"
echo "stderr of $P30_RUN" >&2
[ "$P30_HOW" = ok ]""",
}
RESTS["mpirun"] = RESTS["srun"]

# file operations must not leave the scratch directory, whatever the job script says
GUARD = """#!/bin/bash
for a in "$@"; do
    case "$a" in -*) continue;; esac
    p=$({realpath} -m -- "$a")
    case "$p/" in {d}/data/*) ;; *) echo "$a" >> {d}/escaped; exit 9;; esac
done
exec {real} "$@"
"""


class Scratch:
    def __enter__(self):
        import logging

        warnings.simplefilter("ignore")
        logging.disable(logging.CRITICAL)
        d = self.d = os.path.realpath(tempfile.mkdtemp(prefix="p30-", dir=os.environ.get("VP_SCRATCH") or None))
        os.mkdir(f"{d}/data")
        os.mkdir(f"{d}/bin")
        for n, r in RESTS.items():
            self.exe(n, REC.format(name=n, d=d, rest=r))
        for n in ("mv", "rm", "cp", "rmdir", "ln", "rsync", "install", "mkdir", "touch"):
            if shutil.which(n):
                self.exe(n, GUARD.format(realpath=shutil.which("realpath"), real=shutil.which(n), d=d))
        self.old = os.getcwd(), dict(os.environ)
        os.environ.update(PATH=f"{d}/bin:/usr/bin:/bin", P30_SUBMIT="0", P30_D=f"{d}/data", HOME=f"{d}/data")
        os.chdir(f"{d}/data")
        return self

    def exe(self, n, text):
        p = f"{self.d}/bin/{n}"
        with open(p, "w") as f:
            f.write(text)
        os.chmod(p, stat.S_IRWXU)

    def __exit__(self, *a):
        os.chdir(self.old[0])
        os.environ.clear()
        os.environ.update(self.old[1])
        shutil.rmtree(self.d, ignore_errors=True)

    def calls(self):
        """The calls of the stand-ins since the last time."""
        f = f"{self.d}/calls"
        if not os.path.exists(f):
            return []
        with open(f) as fh:
            ls = fh.read().splitlines()
        os.remove(f)
        out = []
        for x in ls:
            k, _, v = x.partition(" ")
            if k == "CMD":
                out.append({"cmd": v, "args": []})
            elif k == "ARG":
                out[-1]["args"].append(v)
            elif k != "END":
                out[-1][k.lower()] = v
        return out

    def run(self, ctx, work, how, n, cpus="1"):
        """Run the job script as the scheduler would."""
        job = f"{work}/job"
        env = dict(os.environ, P30_HOW=how, P30_RUN=str(n), P30_STATUS=f"{job}/STATUS", SLURM_CPUS_PER_TASK=cpus)
        r = subprocess.run(["/bin/bash", "jobscript.sh"], cwd=job, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=60)
        if os.path.exists(f"{self.d}/escaped"):
            with open(f"{self.d}/escaped") as f:
                ctx.check(False, "the job script touches other files", got=f.read())
        return r.returncode


def conf(system, directory, **k):
    c = dict(system=system, name="a job", nodes=1, time="01:02:03", directory=directory, ompnum=1, pernode=1)
    c.update(dict(ppn=8, queue="q") if system in ("pbs", "gpc") else dict(mem="3G", account="acc"))
    c.update(k)
    return {"cluster": {k: v for k, v in c.items() if v is not None}, "pipeline": {"tasks": []}}


def write(c, f="conf.yaml"):
    import yaml

    with open(f, "w") as fh:
        yaml.safe_dump(c, fh)
    return f


def read(f):
    if not os.path.exists(f):
        return None
    with open(f) as fh:
        return fh.read().strip()


def status(d):
    return read(f"{d}/job/STATUS")


def header(text, system):
    """The options in the header of a job script."""
    out = {}
    for l in text.splitlines():
        m = re.match(r"#SBATCH --([\w-]+)[= ](.*?)(\s+#.*)?$", l) if system == "slurm" else re.match(r"#PBS -(\w) (.*?)(\s+#.*)?$", l)
        if m and system == "slurm":
            out[m[1]] = m[2].strip()
        elif m:
            for x in m[2].strip().split(":") if m[1] == "l" and "=" in m[2] and "walltime" not in m[2] else [m[2].strip()]:
                k, e, v = x.partition("=")
                out[k if e else m[1]] = v if e else x
    return out


# ------------------------------------------------------------------ the script


def script(ctx):
    """The script has the resources asked for, and runs the pipeline command in the right environment."""
    from caput.pipeline.runner import queue

    what = ctx.params["what"]
    name = ctx.choose("system", ["slurm", "pbs", "cedar", "gpc"] if what == "size" else ["slurm", "pbs"])
    system = {"cedar": "slurm", "gpc": "pbs"}.get(name, name)
    k, opt = {}, {}
    temp = False
    if what == "size":
        k = {x: ctx.concretize(ctx.int(x, 1, 3)) for x in ("nodes", "pernode", "ompnum")}
    elif what == "environment":
        k = dict(module_list=ctx.choose("list", [None, "m1", ["m1", "m2"]]), module_path=ctx.choose("path", [None, "p1", ["p1", "p2"]]),
                 venv=ctx.choose("venv", [None, "v e"]))
    elif what == "options":
        if bool(ctx.bool("profile")):
            opt["profile"] = True
            p = ctx.choose("profiler", [None, "cProfile", "pyinstrument"])
            if p:
                opt["profiler"] = p
        opt["psutil"] = bool(ctx.bool("psutil"))
        k = dict(invoke=ctx.choose("invoke", [None, "srun", "mpirun"]), invoke_args=ctx.choose("iargs", [None, "-x {nodes} {mpiproc}"]))
    place = ctx.choose("place", ["out", "o u/t", "$P30_D/x y", "~/z"]) if what == "places" else "o t"
    with Scratch() as s:
        data = f"{s.d}/data"
        if not place.startswith(("$", "~")):
            place = f"{data}/{place}"
        plain = place.replace("$P30_D", data).replace("~", data)
        if what == "places":
            temp = bool(ctx.bool("temp"))
        if k.get("venv"):
            os.makedirs("v e/bin")
            with open("v e/bin/activate", "w") as f:
                f.write("export P30_VENV=active\n")
            k["venv"] = f"{data}/v e"
        if temp:
            k["temp_directory"] = place + " tmp"
        work = plain + (" tmp" if temp else "")
        c = conf(name, place, **k)
        f = write(c)
        before = read(f)
        queue(f, submit=True, lint=False, **opt)
        got = s.calls()
        cmd = {"slurm": "sbatch", "pbs": "qsub"}[system]
        ctx.check([x["cmd"] for x in got] == [cmd], "the job was not submitted once", got=got)
        ctx.check(os.path.realpath(os.path.join(got[0]["cwd"], got[0]["args"][-1])) == f"{work}/job/jobscript.sh",
                  "another script was submitted", got=got)
        ctx.check(read(f"{work}/job/config.yaml") == before and read(f) == before, "the configuration was changed")
        ctx.check(not temp or not os.path.exists(plain), "the final directory exists before the job ran")
        text = read(f"{work}/job/jobscript.sh")
        ctx.check(text.startswith("#!/bin/bash"), "not a script", got=text[:20])
        h = header(text, system)
        cl = c["cluster"]
        want = {"nodes": str(cl["nodes"])}
        if system == "slurm":
            want |= {"account": "acc", "ntasks-per-node": str(cl["pernode"]), "cpus-per-task": str(cl["ompnum"]), "mem": "3G",
                     "time": "01:02:03", "job-name": "a job"}
        else:
            want |= {"ppn": "8", "q": "q", "walltime": "01:02:03", "N": "a job"}
        for x, y in want.items():
            ctx.check(h.get(x) == y, "the job has other resources than configured", key=x, got=h.get(x), want=y)
        rc = s.run(ctx, work, "ok", 1, h.get("cpus-per-task", "1"))
        got = s.calls()
        ctx.check(rc == 0, "the job failed", calls=got)
        mods = [x["args"] for x in got if x["cmd"] == "module"]
        aslist = lambda x: [] if not x else [x] if isinstance(x, str) else x  # noqa: E731
        wantm = [["use", p] for p in aslist(k.get("module_path"))] + [["load", m] for m in aslist(k.get("module_list"))]
        ctx.check([m for m in mods if m[0] in ("use", "load")] == wantm, "other modules are loaded", got=mods, want=wantm)
        ctx.check(("purge" in sum(mods, [])) == bool(wantm) and (not wantm or "purge" in mods[0]), "modules are not purged first", got=mods)
        launch = [x for x in got if x["cmd"] in ("srun", "mpirun")]
        want = k.get("invoke") or {"slurm": "srun", "pbs": "mpirun"}[system]
        ctx.check([x["cmd"] for x in launch] == [want], "the pipeline was not launched once", got=launch)
        la = launch[0]["args"][:launch[0]["args"].index("caput-pipeline")]
        if k.get("invoke_args"):
            ctx.check(la == ["-x", str(cl["nodes"]), str(cl["nodes"] * cl["pernode"])], "other arguments of the launcher", got=la)
        elif system == "pbs" and want == "mpirun":
            ctx.check("-np" in la and la[la.index("-np") + 1] == str(cl["nodes"] * cl["pernode"]), "wrong number of processes", got=la)
        runs = [x for x in got if x["cmd"] == "caput-pipeline"]
        ctx.check(len(runs) == 1, "the pipeline was not run once", got=got)
        r = runs[0]
        a = list(r["args"])
        ctx.check(a[0] == "run" and os.path.realpath(a[-1]) == os.path.realpath(f"{work}/job/config.yaml"), "another pipeline was run", got=a)
        wanta = (["--profile", f"--profiler={opt.get('profiler') or 'cProfile'}"] if opt.get("profile") else []) + (
            ["--psutil"] if opt.get("psutil") else [])
        ctx.check(sorted(x.lower() for x in a[1:-1]) == sorted(x.lower() for x in wanta), "other options of the pipeline", got=a, want=wanta)
        ctx.check(os.path.realpath(r["cwd"]) == work, "the pipeline runs in another directory", got=r["cwd"], want=work)
        ctx.check(r["omp"] == str(cl["ompnum"]), "another number of threads", got=r["omp"])
        ctx.check(r["venv"] == ("active" if k.get("venv") else ""), "the virtual environment is wrong", got=r["venv"])
        ctx.check(r["status"] == "RUNNING", "the running job has another status", got=r["status"])
        ctx.check(status(plain) == "FINISHED" and read(f"{plain}/output") == "1", "the output is not in the final directory",
                  got=sorted(os.listdir(data)))
        ctx.check(not temp or not os.path.exists(work), "the temporary directory remains")
        log = read(f"{plain}/job/jobout.log") or ""
        ctx.check("stdout of 1" in log and "stderr of 1" in log, "the log is missing", got=log)
    ctx.reach(system)


# ------------------------------------------------------------------ histories


def histories(ctx):
    """A job is queued again exactly if it may be, and its status is that of the latest run."""
    from caput.pipeline.runner import queue

    system = ctx.params["system"]
    n = ctx.params["n"]
    temp = bool(ctx.bool("temp"))
    exists = bool(ctx.bool("exists"))  # the final directory, with other files in it
    with Scratch() as s:
        final = f"{s.d}/data/fi nal"
        work = f"{s.d}/data/t mp" if temp else final
        f = write(conf(system, final, temp_directory=work if temp else None))
        if exists:
            os.mkdir(final)
            with open(f"{final}/other", "w") as fh:
                fh.write("kept")
        state = None  # of the latest job
        out = None  # contents of the final output
        for i in range(n):
            last = i == n - 1
            over = ctx.choose(f"overwrite{i}", ["never", "failed", "always"])
            with open(f, "a") as fh:
                fh.write(f"# {i}\n")
            queue(f, submit=True, lint=False, overwrite=over)
            got = s.calls()
            want = state is None or over == "always" or (over == "failed" and state != "FINISHED")
            ctx.check(len(got) == want, "the job was wrongly queued or skipped", overwrite=over, state=state, step=i, got=got)
            if not want:
                here = work if os.path.exists(f"{work}/job") else final
                ctx.check((status(here) or "pending") == state, "a skipped job was changed", got=status(here), want=state)
                ctx.reach("skipped")
                continue
            ctx.check(read(f"{work}/job/config.yaml") == read(f), "the job has an old configuration")
            if last:
                ctx.reach("queued")
                break
            how = ctx.choose(f"how{i}", ["ok", "failed", "killed", "pending"])
            if how == "pending":
                if state == "FINISHED":
                    return  # the old status remains until the job starts
                state = state or "pending"
                continue
            rc = s.run(ctx, work, how, i)
            s.calls()
            ctx.check((rc == 0) == (how == "ok"), "the script ends with another code", how=how, got=rc)
            state = {"ok": "FINISHED", "failed": "CRASHED", "killed": "RUNNING"}[how]
            there = final if how == "ok" else work
            ctx.check(status(there) == state, "the job has another status", got=status(there), want=state)
            ctx.reach(state)
            if how == "ok":
                out = str(i)
                ctx.check(not temp or not os.path.exists(work), "the temporary directory remains")
                ctx.check(set(os.listdir(final)) == {"job", "output"} | ({"other"} if exists else set()),
                          "the final directory has other contents", got=os.listdir(final))
            elif temp:
                ctx.check(os.path.isdir(work), "the temporary directory of a failed job was removed")
            if out is not None and (how == "ok" or temp):
                ctx.check(read(f"{final}/output") == out, "the final output is that of another job", got=read(f"{final}/output"), want=out)
            ctx.check(not exists or read(f"{final}/other") == "kept", "other files were changed")


# ------------------------------------------------------------------ what is refused


def refused(ctx):
    """What is invalid is refused, with nothing submitted or left behind, so that it can be corrected."""
    from caput.pipeline.runner import queue

    system = ctx.choose("system", ["slurm", "pbs"])
    what = ctx.choose("what", ["cluster", "system", "missing", "venv", "mailtype", "lint", "nothing"])
    with Scratch() as s:
        c = conf(system, f"{s.d}/data/out")
        opt = {}
        if what == "cluster":
            bad = {"pipeline": c["pipeline"]}
        elif what == "system":
            bad = conf(system, f"{s.d}/data/out")
            bad["cluster"]["system"] = "unknown"
        elif what == "missing":
            ks = ["nodes", "time", "directory", "pernode", "ompnum", "system"] + (["mem", "account"] if system == "slurm" else ["ppn", "queue"])
            bad = conf(system, f"{s.d}/data/out")
            del bad["cluster"][ctx.choose("key", ks)]
        elif what == "venv":
            bad = conf(system, f"{s.d}/data/out", venv=f"{s.d}/data/missing")
        elif what == "lint":
            bad = dict(c, pipeline={"tasks": [{"type": "caput.pipeline.NoSuchTask"}]})
            opt["lint"] = True
        else:
            bad = c
        mail = {"email": "a@b", "mailtype": ctx.choose("type", ["X", "abe" if system == "slurm" else "BEGIN"])} if what == "mailtype" else {}
        f = write(bad)
        try:
            queue(f, **{"submit": True, "lint": False, **mail, **opt})
            ok = True
        except UnboundLocalError as e:
            ctx.check(False, "the mistake is not reported", what=what, error=str(e))
        except (KeyError, ValueError, Exception, SystemExit) as e:  # noqa: BLE001
            ok = False
            if what == "system":
                ctx.check("unknown" in str(e), "the mistake is not reported", error=str(e))
        ctx.check(ok == (what == "nothing"), "an invalid job was queued", what=what)
        got = s.calls()
        ctx.check(len(got) == ok, "a job was submitted", got=got)
        if not ok:
            f = write(c)
            opt = {}
            if what == "mailtype":
                opt = {"email": "a@b", "mailtype": "BEGIN" if system == "slurm" else "abe"}
            queue(f, submit=True, lint=what == "lint", **opt)
            got = s.calls()
            ctx.check(len(got) == 1 and read("out/job/config.yaml") == read(f), "the corrected job is not queued", what=what, got=got)
            if what == "mailtype":
                a = got[0]["args"][:-1]
                ctx.check(sum("a@b" in x for x in a) == 1 and sum(opt["mailtype"] in x for x in a) == 1, "other mail options", got=a)
    ctx.reach(what)


def submit(ctx):
    """Jobs are submitted only if asked for; failing to is reported; the script is the same."""
    from caput.pipeline.runner import queue

    system = ctx.choose("system", ["slurm", "pbs"])
    go = bool(ctx.bool("submit"))
    code = ctx.concretize(ctx.int("code", 0, 2))
    inplace = bool(ctx.bool("inplace"))
    with Scratch() as s:
        out = f"{s.d}/data/out"
        f = write(conf(system, out))
        if inplace:
            queue(f, submit=False, lint=False)
            f = f"{out}/job/config.yaml"
        before = read(f)
        os.environ["P30_SUBMIT"] = str(code)
        try:
            queue(f, submit=go, lint=False, overwrite="always" if inplace else "never")
            ok = True
        except Exception:  # noqa: BLE001
            ok = False
        ctx.check(ok == (not go or code == 0), "a failure to submit is not reported" if ok else "queueing failed", submit=go, code=code)
        ctx.check(len(s.calls()) == go, "a job was wrongly submitted or not")
        ctx.check(read(f"{out}/job/config.yaml") == before and bool(read(f"{out}/job/jobscript.sh")), "the job is incomplete")
    ctx.reach("submitted" if go else "not submitted")


# ------------------------------------------------------------------ templates


def templates(ctx):
    """Every combination of the values is used once; the rest of the template is unchanged."""
    import itertools

    from caput.pipeline.runner import _core, _scheduler

    k = ctx.concretize(ctx.int("variables", 0, 3))
    vals = [[ctx.choose(f"v{i}", ["1", "a=b", "x y"])] + [f"w{i}{j}" for j in range(ctx.concretize(ctx.int(f"more{i}", 0, 2)))]
            for i in range(k)]
    how = ctx.choose("how", ["run", "queue"])
    with Scratch() as s:
        text = "# {{x}} " + " ".join("%s: {v%d}, {v%d};" % ("n%d" % i, i, i) for i in range(k)) + "\nrest: [1, 'a']\n"
        with open("template", "w") as fh:
            fh.write(text)
        var = tuple(f"v{i}={','.join(v)}" for i, v in enumerate(vals))
        want = []
        for combo in itertools.product(*vals):
            want.append("# {x} " + " ".join(f"n{i}: {v}, {v};" for i, v in enumerate(combo)) + "\nrest: [1, 'a']\n")
        got = []

        def stub(configfile, *a, **kw):
            with open(configfile) as fh:
                got.append((fh.read(), kw))

        if how == "run":
            old, _core.run_pipeline = _core.run_pipeline, stub
            try:
                _core.template_run("template", var)
            finally:
                _core.run_pipeline = old
        else:
            old, _scheduler.queue = _scheduler.queue, stub
            try:
                _scheduler.template_queue("template", var, "failed", "a@b", "ALL")
            finally:
                _scheduler.queue = old
            ctx.check(all(kw.get("overwrite") == "failed" and kw.get("email") == "a@b" and kw.get("mailtype") == "ALL" and kw.get("submit")
                          for _, kw in got), "the options of the jobs are lost", got=got)
        ctx.check(sorted(t for t, _ in got) == sorted(want), "not every combination was used once", got=[t for t, _ in got], want=want)
    ctx.reach(how)


TASK = """
import os
from caput.pipeline import Task
from caput.config import Property


class T(Task):
    x = Property(default="none", proptype=str)

    def setup(self):
        with open(os.path.join(os.environ["P30_D"], "ran"), "a") as f:
            f.write(self.x + "\\n")
        if self.x == "bad":
            raise RuntimeError("bad")
"""



def cli(ctx):
    """The commands run, queue or check exactly the pipelines given, and fail if those do."""
    import importlib

    from click.testing import CliRunner

    from caput.pipeline.runner._cli import cli as command

    what = ctx.choose("what", ["run", "template-run", "template-queue", "lint", "queue"])
    where = ctx.choose("where", ["path", "venv"]) if what in ("lint", "queue") else "path"
    x = ctx.choose("x", ["a", "bad", "missing"])
    y = ctx.choose("y", ["b", "bad"]) if what.startswith("template") else None
    saved = list(sys.path), sys.prefix, sys.excepthook, getattr(sys, "real_prefix", None)
    with Scratch() as s:
        data = f"{s.d}/data"
        lib = f"{data}/lib" if where == "path" else f"{data}/v/lib/python{sys.version_info[0]}.{sys.version_info[1]}/site-packages"
        os.makedirs(lib)
        os.makedirs(f"{data}/v/bin")
        with open(f"{data}/v/bin/activate", "w"):
            pass
        with open(f"{lib}/p30_tasks.py", "w") as f:
            f.write(TASK)
        sys.modules.pop("p30_tasks", None)
        importlib.invalidate_caches()
        if where == "path":
            sys.path.insert(0, lib)
        c = conf("slurm", f"{data}/out-{{v}}" if y else f"{data}/out", **({"venv": f"{data}/v"} if where == "venv" else {}))
        cls = "p30_tasks.Missing" if x == "missing" else "p30_tasks.T"
        c["pipeline"] = {"tasks": [{"type": cls, "params": {"x": "{v}" if y else x}}]}
        f = write(c)
        if y:
            with open(f) as fh:
                text = fh.read()
            with open(f, "w") as fh:
                fh.write(re.sub(r"\{(?!v\})", "{{", re.sub(r"(?<!\{v)\}", "}}", text)))
        name = {"template-queue": "template-run"}.get(what, what)
        args = [name, f]
        vals = ([x, y] if x != y else [x]) if y else [x]
        if y:
            args += ["--var", "v=" + ",".join(vals)]
        if what == "template-queue":
            args += ["--submit"]
        if what == "run":
            args += ["--no-mpi-abort"]
        try:
            r = CliRunner().invoke(command, args)
        finally:
            sys.path[:] = saved[0]
            sys.prefix, sys.excepthook = saved[1:3]
            sys.modules.pop("p30_tasks", None)
            import logging

            logging.disable(logging.CRITICAL)
        ran = (read(f"{data}/ran") or "").split()
        jobs = s.calls()
        runs = what in ("run", "template-run")
        want = []
        if runs and x != "missing":
            for v in vals:
                want.append(v)
                if v == "bad":
                    break
        ctx.check(ran == want, "other pipelines were run", what=what, got=ran, want=want, error=str(r.exception))
        fails = x == "missing" or (runs and "bad" in vals)
        ctx.check((r.exit_code != 0) == fails, "the command ends with another code", what=what, where=where, got=r.exit_code, error=str(r.exception))
        wantj = 0 if fails or runs or what == "lint" else len(vals)
        ctx.check(len(jobs) == wantj, "other jobs were submitted", got=jobs, want=wantj)
        if what == "template-queue" and not fails:
            for v in vals:
                import yaml

                t = read(f"{data}/out-{v}/job/config.yaml")
                ctx.check(t is not None and yaml.safe_load(t)["pipeline"]["tasks"][0]["params"]["x"] == v, "a job has other values", got=t)
    ctx.reach(what)


def harnesses(tier):
    q = tier == "quick"
    out = []
    for w, b in (("size", "1-3 nodes, processes and threads"), ("environment", "modules, paths and virtual environments"),
                 ("options", "profilers, launchers and their arguments"), ("places", "names of directories, temporary ones")):
        out.append(Harness(f"script-{w}", script, params={"what": w}, reach=["slurm", "pbs"], weight=3, bounds=b))
    for sysn in ("slurm", "pbs"):
        n = 3 if q or sysn == "pbs" else 4
        out.append(Harness(f"histories-{sysn}", histories, params={"system": sysn, "n": n}, weight=8,
                           reach=["skipped", "queued", "FINISHED", "CRASHED", "RUNNING"],
                           bounds=f"{n} requests with any overwrite mode, ending in any way, with or without temporary directory"))
    out.append(Harness("refused", refused, reach=["cluster", "system", "missing", "venv", "mailtype", "lint", "nothing"],
                       bounds="7 mistakes, each corrected afterwards"))
    out.append(Harness("submit", submit, reach=["submitted", "not submitted"], bounds="both systems, 3 exit codes"))
    out.append(Harness("templates", templates, reach=["run", "queue"], weight=2, bounds="0-3 variables of 1-3 values"))
    out.append(Harness("cli", cli, reach=["run", "template-run", "template-queue", "lint", "queue"], weight=2,
                       bounds="5 commands, modules in the path or a virtual environment, failing tasks"))
    return out
