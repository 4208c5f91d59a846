"""Execute a function in a forked child, so that nothing it leaves behind in the process survives."""

import ctypes
import os
import pickle
import signal
import traceback

from . import boot
from .engine import Ctx, Hang
from .ref import Skip, Viol
from .world import Budget


LIBC = ctypes.CDLL(None)


def alone():
    """In a forked child: end with the parent, and in any case after a while."""
    LIBC.prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(150)


def run(fn, ctx):
    """fn(child_ctx) in a child process -> its (picklable) value; verdicts and the log come back too."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        _child(fn, Ctx(ctx.nb, ctx.log.lines is not None), r, w)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        raise boot.HarnessError("child process died")
    out, dig, sig, counts, lines, nt, steps, sim, known = pickle.loads(data)
    ctx.log.add("child", dig)
    ctx.log.mark(sig)
    ctx.log.counts.update(counts)
    if lines is not None:
        ctx.log.lines.extend(lines)
    ctx.nontrivial = ctx.nontrivial or nt
    ctx.steps += steps
    ctx.sim += sim
    ctx.known += known
    if out[0] == "viol":
        raise Viol(out[1], out[2])
    if out[0] == "skip":
        raise Skip(out[1])
    if out[0] == "budget":
        raise Budget(out[1])
    if out[0] == "harness":
        raise boot.HarnessError(out[1])
    if out[0] == "crash":
        raise Viol("crash", out[1])
    return out[1]


def _child(fn, ctx, r, w):
    code = 0
    try:
        os.close(r)
        alone()
        try:
            out = ("ok", fn(ctx))
        except Viol as e:
            out = ("viol", e.cat, e.detail)
        except Skip as e:
            out = ("skip", str(e))
        except Budget as e:
            out = ("budget", str(e))
        except Hang as e:
            out = ("viol", "hang", str(e))
        except (boot.HarnessError, boot.ImportBroken) as e:
            out = ("harness", f"{e!r} {traceback.format_exc()[-1500:]}")
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)[-1]
            out = ("crash", f"{e!r} at {os.path.basename(tb.filename)}:{tb.name} while using the results")
        lg = ctx.log
        data = pickle.dumps((out, lg.digest(), lg.signature(), dict(lg.counts), lg.lines,
                             ctx.nontrivial, ctx.steps, ctx.sim, ctx.known))
        with os.fdopen(w, "wb") as fh:
            fh.write(data)
    except BaseException:  # noqa: BLE001
        code = 1
    os._exit(code)
