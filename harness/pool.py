"""Runs many histories in worker processes."""
import os, sys, signal, json, traceback, multiprocessing as mp, shutil, tempfile


class TimeUp(Exception):
    pass


def _alarm(sig, frm):
    raise TimeUp()


def _init(scratch, repo):
    os.environ["VP_SCRATCH"] = scratch
    os.environ["VP_REPO"] = repo
    sys.dont_write_bytecode = True
    from . import world
    world.REPO = repo
    sys.stdout = open(os.devnull, "w")
    world.install()
    signal.signal(signal.SIGALRM, _alarm)


def _one(job):
    name, seed, kind, arg = job
    from . import gen, fixed, replay
    signal.alarm({"fixed": 240, "tcp": 120, "proc": 120, "doors": 200}.get(kind, 40))
    try:
        if kind == "gen":
            from .profiles import PROFILES
            return gen.generate(name, seed, PROFILES[arg])
        if kind == "fixed":
            return fixed.HISTORIES[arg](name)
        if kind == "tcp":
            from . import tcp
            from .profiles import PROFILES
            return tcp.generate(name, seed, PROFILES[arg[0]], *arg[1:])
        if kind == "proc":
            from . import process
            from .profiles import PROFILES
            return process.generate(name, seed, PROFILES[arg[0]], *arg[1:])
        if kind == "doors":
            from . import doors
            return doors.generate(name, seed, *arg)
        if kind == "vis":
            from . import visual
            from .profiles import PROFILES
            return visual.generate(name, seed, PROFILES[arg])
        if kind in ("vissim", "visevents"):
            from . import visual
            return visual.again(name, arg, seed, replay.replay if kind == "vissim" else replay.run_events)
        if kind == "sim":
            return replay.replay(name, arg, seed)
        if kind == "events":
            return replay.run_events(name, arg)
    except TimeUp:
        return {"name": name, "error": "hang", "steps": [], "opt": {}}
    except Exception:
        return {"name": name, "error": traceback.format_exc(), "steps": [], "opt": {}}
    finally:
        signal.alarm(0)


def run_jobs(jobs, procs=8):
    scratch = tempfile.mkdtemp(prefix="vpw")
    try:
        with mp.get_context("spawn").Pool(procs, _init, (scratch, os.environ.get("VP_REPO", "/repo")), maxtasksperchild=400) as p:
            return p.map(_one, jobs, chunksize=1 if any(j[2] in ("proc", "doors") for j in jobs) else 8)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
