"""Helpers for running the code under test inside a case process."""
import os
import signal
import sys

from . import core

_STD = None


def stdlib_path():
    return [p for p in sys.path if p.endswith(("/lib/python312.zip", "/python312.zip", "/python3.12", "/lib-dynload"))]


def use_path(*entries, std=True):
    sys.path[:] = list(entries) + (stdlib_path() if std else [])
    import importlib
    importlib.invalidate_caches()


def implies_value(v):
    import modulegraph2
    if isinstance(v, list):
        return list(v)
    return {"alias": modulegraph2.Alias, "virtual": modulegraph2.Virtual}[v["kind"]](v["target"])


def model_implies(implies):
    return {k: v if isinstance(v, list) else (v["kind"], v["target"]) for k, v in (implies or {}).items()}


def configure(ctx, project, mg):
    if project.get("excludes"):
        ctx.sut("add_excludes", mg.add_excludes, project["excludes"])
    if project.get("implies"):
        ctx.sut("add_implies", mg.add_implies, {k: implies_value(v) for k, v in project["implies"].items()})


def build(ctx, project, root, mg=None, hooks=True):
    """Build the graph for project['roots'] (files are below *root*, which is the cwd too)."""
    import modulegraph2
    if mg is None:
        mg = ctx.sut("ModuleGraph()", modulegraph2.ModuleGraph)
    configure(ctx, project, mg)
    for k, n in project["roots"]:
        if k == "m":
            node = ctx.sut(f"add_module({n!r})", mg.add_module, n)
        else:
            node = ctx.sut(f"add_script({n!r})", mg.add_script, n)
    return mg


def fork_call(func, *args):
    """Run func in a forked child (its own sys.modules etc.) and return its JSON-able result."""
    import json
    import traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                if core.TIMER[0]:
                    # (timers are not inherited)
                    signal.setitimer(signal.ITIMER_PROF, core.TIMER[0])
                out = {"ok": func(*args)}
                signal.setitimer(signal.ITIMER_PROF, 0)
            except core.Violation as exc:
                out = {"violation": [exc.sig, exc.msg]}
            except (core._CpuLimit, MemoryError):
                out = {"limit": "cpu"}
            except core._StepLimit:
                out = {"limit": "steps"}
            except core._Died as exc:
                out = {"limit": str(exc)}
            except BaseException as exc:
                signal.setitimer(signal.ITIMER_PROF, 0)
                text = "".join(traceback.format_exception(exc))
                if isinstance(exc, (Exception, SystemExit)) and core._raised_in_sut(exc):
                    out = {"violation": [f"exception:{type(exc).__name__}", f"unexpected exception:\n{text[-3000:]}"]}
                else:
                    out = {"error": text}
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    raw = b"".join(chunks)
    if not raw:
        raise core._Died(f"child of a case died: {status}")
    out = json.loads(raw)
    if "limit" in out:
        raise {"cpu": core._CpuLimit, "steps": core._StepLimit}.get(out["limit"], core._Died)(out["limit"])
    if "violation" in out:
        raise core.Violation(*out["violation"])
    if "error" in out:
        raise RuntimeError("oracle child failed: " + out["error"])
    return out["ok"]
