"""Run one scripted optimization of the real library and record it as a trace for the TLA+ trace specification.

Nothing in here decides a property: it drives the library through its public extension points (a figure-of-merit
object, a direct-search class named in the settings, the communication signals, the handle-exit object, SIGINT, the
results folder) and writes down what could be observed.  All values are integers (see DESIGN.md, "Projection")."""
import os
import re
import sys
import json
import glob
import signal
import shutil
import logging
import tempfile
import threading
import io
import contextlib

os.environ.setdefault("JAX_PLATFORMS", "cpu")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
sys.path.insert(0, REPO_SRC)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402
import scipy.stats  # noqa: E402,F401
import scipy.optimize  # noqa: E402,F401
import vclock  # noqa: E402

vclock.install()
CLOCK = vclock.CLOCK

import quocslib  # noqa: E402

assert os.path.abspath(quocslib.__file__).startswith(os.path.abspath(REPO_SRC)), quocslib.__file__
from quocslib.Optimizer import Optimizer  # noqa: E402
from quocslib.utils.AbstractFoM import AbstractFoM  # noqa: E402
from quocslib.handleexit.HandleExit import HandleExit  # noqa: E402

BIG = 999999999          # "no FoM yet / refused" (the library's 10**10)
ODD = -777777777         # a number the projection cannot represent
NOCTL = 0
RUNAWAY = 400

CUR = None               # the Recorder of the run in progress


class Runaway(BaseException):
    pass


class Hang(BaseException):
    pass


HANG_SECONDS = 90


def _hang(*a):
    raise Hang()


LOGFOM = re.compile(r"(?:FoM|figure of merit)[^:\n]*:\s*([-+]?[0-9.]+(?:e[-+]?[0-9]+)?)", re.I)


FU = [1.0]               # the unit of the figures of merit of the run in progress (a power of two)


def logged(v):
    try:
        v = float(v.rstrip(".")) / FU[0]
    except ValueError:
        return ODD
    return ODD if not np.isfinite(v) or abs(v) >= 1e8 else int(round(v))


def proj(v):
    """float -> int, BIG for the library's 'infinite' FoM, ODD if it is not (nearly) an integer."""
    try:
        v = float(v)
    except (TypeError, ValueError):
        return ODD
    if np.isnan(v):
        return ODD
    if abs(v) in (float("inf"), 1e10):
        return BIG if v > 0 else -BIG
    v /= FU[0]
    r = round(v)
    if abs(v - r) > 1e-6 * max(1.0, abs(v)) or abs(r) > 10**8:
        return ODD
    return int(r)


class Ids:
    """Numbering of payloads (lists of arrays) up to a tolerance."""

    def __init__(self, tol):
        self.tol = tol
        self.items = []

    @staticmethod
    def flat(payload):
        out, shape = [], []
        for group in payload:
            shape.append(len(group))
            for a in group:
                a = np.atleast_1d(np.real(np.asarray(a, dtype=complex))).astype(float).ravel()
                shape.append(a.size)
                out.append(a)
        return tuple(shape), (np.concatenate(out) if out else np.zeros(0))

    def get(self, payload, add=True):
        try:
            sh, v = self.flat(payload)
        except Exception:
            return -1
        for i, (s2, v2) in enumerate(self.items):
            if s2 == sh and np.allclose(v, v2, rtol=self.tol, atol=self.tol, equal_nan=True):
                return i + 1
        if not add:
            return -1
        self.items.append((sh, v.copy()))
        return len(self.items)


class Recorder(logging.Handler):
    def __init__(self, sc):
        super().__init__(level=logging.DEBUG)
        self.sc = sc
        self.ev = []
        self.ctl = Ids(1e-4 if sc["alg"] == "AD" else 1e-8)
        self.vec = Ids(1e-9)
        self.n = 0
        self.opt = None
        self.he = None
        self.results_path = None
        self._disk_key = None
        self._disk_val = None
        self.logs = []
        self.stop_at = None
        self.sn = 0
        self.other = None         # the handle-exit object of the other optimization
        self.given = []           # what the user returned, and a copy of it

    # ------------------------------------------------------------------ log lines
    def emit(self, record):
        try:
            self.logs.append((record.levelno, record.getMessage()))
        except Exception:
            self.logs.append((record.levelno, "<unprintable>"))

    # ------------------------------------------------------------------ events
    def add(self, e, **kw):
        d = {"e": e, "t": int(round(CLOCK.t))}
        d.update(kw)
        self.ev.append(d)

    def payload(self, pulses, parameters, timegrids):
        return [list(pulses), list(parameters), list(timegrids)]

    def disk(self):
        """Projection of the best-controls file as it is on disk right now."""
        none = {"k": 0, "f": 0, "it": 0, "si": 0, "c": 0}
        bad = {"k": 2, "f": 0, "it": 0, "si": 0, "c": 0}
        if self.results_path is None:
            return none
        fs = self.files()
        if not fs:
            return none
        if len(fs) > 1:
            return bad
        p = os.path.join(self.results_path, fs[0])
        with open(p, "rb") as f:
            key = (p, f.read())
        if key == self._disk_key:
            return dict(self._disk_val, c=self._disk_c())
        try:
            if p.endswith(".json"):
                with open(p) as f:
                    d = json.load(f)
            else:
                with np.load(p, allow_pickle=True) as z:
                    d = {k: z[k] for k in z.files}
            pn = [x.get("pulse_name", "pulse") for x in self.sc["od"]["pulses"]]
            an = [x.get("parameter_name", "parameter") for x in self.sc["od"]["parameters"]]
            self._disk_payload = [[np.asarray(d[x]) for x in pn], [np.asarray(d[x]) for x in an],
                                  [np.asarray(d["time_grid_for_" + x]) for x in pn]]
            val = {"k": 1, "f": proj(d["FoM"]), "it": int(d["iteration_number"]),
                   "si": int(d["super_it"]) if "super_it" in d else 0}
        except Exception as ex:
            self.last_bad = repr(ex)
            self._disk_key = None
            return bad
        self._disk_key, self._disk_val = key, val
        return dict(val, c=self._disk_c())

    def files(self):
        return [p for p in os.listdir(self.results_path) if p.endswith(("best_controls.npz", "best_controls.json"))]

    def _disk_c(self):
        return self.ctl.get(self._disk_payload, add=False)

    # ------------------------------------------------------------------ the environment's script
    def script(self):
        s = self.sc["script"]
        i = self.sn
        self.sn += 1
        if i < len(s):
            return s[i]
        f, sd, st, dur, act = s[-1]
        return [f + (-420 if self.sc.get("neg") else 420) * (i - len(s) + 1), sd, 0, dur, ""]

    def evaluate(self, pulses, parameters, timegrids):
        if self.n >= RUNAWAY:
            raise Runaway()
        c = self.ctl.get(self.payload(pulses, parameters, timegrids))
        disk = self.disk()
        f, sd, st, dur, act = self.script()
        t0 = int(round(CLOCK.t))
        if self.hook is not None:
            self.hook(self)
        nb = self.sc.get("neighbour")
        if nb and nb[0] == self.n and nb[1] == "before":
            neighbour(self.sc, nb[2])
        if self.sc.get("bystop") == self.n and self.other is not None:
            self.other.set_is_user_running(False)     # the user stops the other optimization
        if self.sc.get("chdir") == self.n:
            os.makedirs("elsewhere", exist_ok=True)
            os.chdir("elsewhere")
        if act == "stop" and self.he is not None:
            self.he.set_is_user_running(False)
        elif act in ("stop", "sigint"):
            os.kill(os.getpid(), signal.SIGINT)
            for _ in range(10):
                pass
        if nb and nb[0] == self.n and nb[1] == "after":
            neighbour(self.sc, nb[2])
        CLOCK.advance(dur)
        self.n += 1
        how = {"stop": 1 if self.he is not None else 2, "sigint": 2}.get(act, 0)
        self.add("eval", c=c, f=f, sd=(-1 if sd is None else sd), st=st, t0=t0, stop=how,
                 disk=disk)
        num = FTYPE[self.sc.get("ftype", "float")]
        # the worst of all values stands for an infinite one
        val = f * FU[0] if abs(f) != BIG else float("inf") if f > 0 else -float("inf")
        out = {"FoM": None if (st != 0 and self.sc.get("nonefom")) else num(val)}
        if self.sc.get("ftype") == "buf" and out["FoM"] is not None:
            # the evaluator writes every FoM into the same 0-d array
            self.buf = getattr(self, "buf", np.zeros(()))
            self.buf[...] = out["FoM"]
            out["FoM"] = self.buf
        if sd is not None:
            out["std"] = num(sd * FU[0])
        if st != 0 or self.sc.get("explicit_status"):
            out["status_code"] = np.int64(st) if self.sc.get("ftype", "float") != "float" else st
        if self.sc.get("cached") and self.sc.get("ftype") != "buf":
            key = (f, sd, st)
            self._cache = getattr(self, "_cache", {})
            out = self._cache.setdefault(key, out)
        self.given.append((out, {k: float(v) if v is not None else v for k, v in out.items()}))
        if self.sc.get("ftype") == "buf":
            self.given = []
        return out


FTYPE = {"float": float, "np64": np.float64, "np32": np.float32, "int": lambda v: int(v) if v == int(v) else v, "0d": np.array, "buf": float}


class FoM(AbstractFoM):
    """Scripted figure of merit."""

    def __init__(self, rec):
        self.rec = rec

    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        return self.rec.evaluate(pulses, parameters, timegrids)


class GrapeFoM(FoM):
    sx = np.array([[0, 1], [1, 0]], dtype=complex)
    sz = np.array([[1, 0], [0, -1]], dtype=complex)

    def get_control_Hamiltonians(self):
        return self.sx

    def get_drift_Hamiltonian(self):
        return self.sz

    def get_target_state(self):
        return np.array([[0, 0], [0, 1]], dtype=complex)

    def get_initial_state(self):
        return np.array([[1, 0], [0, 0]], dtype=complex)

    def get_propagator(self, pulses_list=[], time_grids_list=[], parameters_list=[]):
        import scipy.linalg
        dt = time_grids_list[0][-1] / len(time_grids_list[0])
        return [scipy.linalg.expm(-1j * dt * (self.sz + p * self.sx)) for p in pulses_list[0]]


class AdFoM(FoM):
    def get_FoM(self, pulses=None, parameters=None, timegrids=None):
        import jax
        import jax.numpy as jnp
        if isinstance(pulses, jax.core.Tracer) or isinstance(parameters, jax.core.Tracer):
            v = jnp.sum(jnp.real(pulses - 1.0)**2) + jnp.sum(jnp.real(parameters - 0.5)**2)
            return {"FoM": -v if self.rec.sc.get("neg") else v}
        return self.rec.evaluate(list(np.asarray(pulses)), list(np.asarray(parameters)), list(np.asarray(timegrids)))


class Signal:
    def __init__(self, rec, kind):
        self.rec, self.kind = rec, kind

    def emit(self, *a):
        r = self.rec
        if self.kind == "msg":
            r.add("msg", ok=1 if a and a[0] == "start" else 0)
        elif self.kind == "plot":
            r.add("plot", it=int(a[0]), f=proj(a[1]))
        else:
            if r.sc["alg"] == "AD":
                r.add("ctl", c=-2)
            else:
                r.add("ctl", c=r.ctl.get(r.payload(a[0], a[2], a[1])))
        act = r.sc.get("sigstop")
        if act and act[0] == self.kind:
            r.sigcount = getattr(r, "sigcount", 0) + 1
            if r.sigcount == act[1]:
                r.add("stop", g=0)
                r.he.set_is_user_running(False)


REASONS = [("Exceeded number of allowed function evaluations", 1), ("Convergence of the simplex", 2),
           ("Convergence of the FoM", 3), ("time for direct search exceeded", 4), ("Change-based", 5),
           ("User stopped the optimization or higher", 6), ("Global Stopping Criterion", 7)]
HREASONS = [("Maximum number of total function evaluations", 1), ("Goal FoM", 2), ("Maximum optimization runtime", 3),
            ("User stopped", 4)]


def code(s, table):
    if s is None or s in ("", "-1"):
        return 0
    for k, c in table:
        if k in str(s):
            return c
    return 99


from quocslib.gradientfreemethods.NelderMead import NelderMead  # noqa: E402
from quocslib.gradientfreemethods.CMAES import CMAES  # noqa: E402
from quocslib.gradientfreemethods.DirectSearchMethod import DirectSearchMethod  # noqa: E402
from quocslib.stoppingcriteria.NelderMeadStoppingCriteria import NelderMeadStoppingCriteria  # noqa: E402


def traced(base):
    class T(base):
        def run_dsm(self, func, x0, *a, **k):
            r = CUR
            r.add("si", x=r.vec.get([[x0]]))

            def wrapped(x, it=0, *rest, **kw):
                d = list(rest) + list(kw.values())
                xi = r.vec.get([[x]])
                if d and d[0] is not None:
                    r.add("note", x=xi, v=proj(d[0]))
                    v = func(x, it, *rest, **kw)
                    r.add("noted", v=proj(v))
                    return v
                r.asks = getattr(r, "asks", 0) + 1
                if r.asks > 4 * RUNAWAY:
                    raise Runaway()
                r.add("ask", x=xi, it=int(it))
                v = func(x, it, *rest, **kw)
                r.add("ret", v=proj(v))
                return v

            out = super().run_dsm(wrapped, x0, *a, **k)
            r.add("sie", r=code(out.get("terminate_reason"), REASONS), n=int(out.get("NfunevalsUsed", -1)))
            return out
    return T


TracedNM = traced(NelderMead)
TracedCMAES = traced(CMAES)


class Dumb(DirectSearchMethod):
    """A direct search that walks through a fixed number of random points, asking some of them twice, and that may
    ignore the stop request (a third-party search method is allowed to be careless)."""
    callback = None

    def __init__(self, settings, stopping_criteria, callback=None, **kw):
        super().__init__()
        self.callback = callback
        self.sc_obj = NelderMeadStoppingCriteria(stopping_criteria)

    def run_dsm(self, func, x0, *a, **k):
        self.sc_obj.is_converged = False
        sc = CUR.sc
        rs = np.random.RandomState(sc.get("dseed", sc["seed"]) + CUR.n)
        x, n = np.array(x0, dtype=float), 0
        for i in range(sc["dumb_n"]):
            if i and not sc["careless"] and not self.callback():
                break
            v = func(x, i)
            n += 1
            u = rs.rand()
            if u < 0.85:
                x = x0 + rs.uniform(-1, 1, len(x0)) * np.asarray(k.get("sigma_v", 1.0))
        return {"F_min_val": v, "X_opti_vec": x, "NitUsed": n, "NfunevalsUsed": n, "terminate_reason": "done"}


class TracedDumb(traced(Dumb)):
    pass


DSM = {"NM": {"dsm_algorithm_module": "qh", "dsm_algorithm_class": "TracedNM"},
       "CMAES": {"dsm_algorithm_module": "qh", "dsm_algorithm_class": "TracedCMAES"},
       "DUMB": {"dsm_algorithm_module": "qh", "dsm_algorithm_class": "TracedDumb"},
       "PNM": {"dsm_algorithm_name": "NelderMead"},
       "PCMAES": {"dsm_algorithm_name": "CMAES"}}


def optimization_dict(sc):
    unit = sc.get("unit", 1)
    al = {"algorithm_name": {"dCRAB": "dCRAB", "DS": "DirectSearch", "GRAPE": "GRAPE", "AD": "AD"}[sc["alg"]]}
    if sc["dir"] == "max":
        al["optimization_direction"] = "maximization"
    elif sc.get("explicit_dir"):
        al["optimization_direction"] = "minimization"
    if sc["alg"] in ("dCRAB", "AD"):
        al["super_iteration_number"] = sc["nsi"]
    if sc.get("maxtot") is not None:
        al["max_eval_total"] = sc["maxtot"]
    if sc.get("goal") is not None:
        al["FoM_goal"] = sc["goal"] * unit
    if sc.get("tlim") is not None:
        al["total_time_lim"] = sc["tlim"] / 60.0
    if sc.get("rng") is not None:
        al["random_number_generator"] = {"seed_number": sc["rng"]}
    if sc.get("drift"):
        d = sc["drift"]
        al["compensate_drift"] = {}
        if d.get("si"):
            al["compensate_drift"]["compensate_after_SI"] = True
        if d.get("sec"):
            al["compensate_drift"]["compensate_after_minutes"] = d["sec"] / 60.0
        if d.get("navg", 1) != 1 or d.get("explicit"):
            al["compensate_drift"]["num_average"] = d["navg"]
    if sc.get("reev") is not None:
        from scipy.stats import norm
        al["re_evaluation"] = {} if sc.get("redef") else {
            "re_evaluation_steps": [float(norm.cdf(a / b)) for a, b in sc["reev"]]}
    if sc["alg"] in ("dCRAB", "DS"):
        gs = dict(DSM[sc["dsm"]])
        if sc.get("adaptive"):
            gs["is_adaptive"] = True
        if sc.get("pop"):
            gs["population"] = sc["pop"]
        st = {}
        if sc.get("maxev") is not None:
            st["max_eval"] = sc["maxev"]
        if sc.get("stlim") is not None:
            st["time_lim"] = sc["stlim"] / 60.0
        for k in ("xatol", "fatol"):
            if sc.get(k) is not None:
                st[k] = sc[k] * (unit if k == "fatol" else 1)
        if sc.get("cbs"):
            st["change_based_stop"] = {"cbs_funct_evals": sc["cbs"][0], "cbs_change": sc["cbs"][1] * unit}
        al["dsm_settings"] = {"general_settings": gs, "stopping_criteria": st}
    elif sc.get("maxev") is not None:
        al["stopping_criteria"] = {"max_eval_total": sc["maxev"]}
    od = {"optimization_client_name": "v", "console_info": False, "create_logfile": bool(sc.get("logfile", False)),
          "algorithm_settings": al}
    if sc.get("fmt", "npz") != "npz" or sc.get("explicit_fmt"):
        od["dump_format"] = sc["fmt"]
    od["pulses"] = json.loads(json.dumps(sc["pulses"]))
    od["parameters"] = json.loads(json.dumps(sc["params"]))
    od["times"] = json.loads(json.dumps(sc["times"]))
    return od


def execute(sc, workdir, ids=None, hook=None, od=None):
    """Run one scenario.  Returns {"cfg":…, "ev":[…]} for the trace specification."""
    global CUR
    CLOCK.reset()
    # start at a non-zero instant so that absolute and relative times cannot be confused
    CLOCK.t = float(sc.get("tstart", 0))
    FU[0] = float(sc.get("unit", 1))
    np.random.seed(sc["seed"] % (2**32))
    d = tempfile.mkdtemp(prefix="r", dir=workdir)
    old = os.getcwd()
    os.chdir(d)
    rec = CUR = Recorder(sc)
    if ids is not None:
        rec.ctl, rec.vec = ids
    rec.hook = hook
    rec.he = None if sc.get("nohe") else HandleExit()
    sc["od"] = od if od is not None else optimization_dict(sc)
    fom = {"GRAPE": GrapeFoM, "AD": AdFoM}.get(sc["alg"], FoM)(rec)
    sig = [Signal(rec, "msg"), Signal(rec, "plot"), Signal(rec, "ctl")] if sc.get("signals") else None
    oldh = signal.getsignal(signal.SIGINT)
    signal.signal(signal.SIGALRM, _hang)
    signal.setitimer(signal.ITIMER_REAL, HANG_SECONDS)
    lg = logging.getLogger("oc_logger")
    exc = ""
    out = io.StringIO()

    def create():
        rec.opt = Optimizer(sc["od"], fom, comm_signals_list=sig, handle_exit_obj=rec.he)
        rec.results_path = rec.opt.results_path

    try:
        with contextlib.redirect_stdout(out):
            apart(create) if sc.get("thread") == 2 else create()
            opt = rec.opt
            if sc.get("bystander"):
                # another optimization is created in the meantime and not run: it must not change anything
                rec.other = bystander(sc)
            lg.addHandler(rec)
            CLOCK.advance(sc.get("tgap", 0))
            rec.add("begin")
            if sc.get("prestop"):
                rec.add("stop", g=0)
                rec.he.set_is_user_running(False)
            tr = sc.get("linestop")
            if sc.get("thread"):
                apart(opt.execute)
            elif sc.get("look"):
                watch(rec, opt.execute)
            elif tr is None:
                opt.execute()
            else:
                linestop(rec, tr, opt.execute)
    except Runaway:
        exc = "runaway"
    except Hang:
        exc = "hang"
    except Exception as ex:
        exc = type(ex).__name__
        import traceback
        rec.tb = traceback.format_exc()
    except KeyboardInterrupt:
        exc = "KeyboardInterrupt"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGINT, oldh)
    try:
        rec.ev.append(final(rec, exc))
    finally:
        for h in list(lg.handlers):
            with contextlib.suppress(Exception):
                h.close()
        lg.handlers = []
        os.chdir(old)
        if sc.get("keep"):
            rec.kept = d
        else:
            shutil.rmtree(d, ignore_errors=True)
        CUR = None
    return {"cfg": spec_cfg(sc), "ev": rec.ev, "id": sc["id"], "tb": getattr(rec, "tb", ""), "hang": exc == "hang",
            "intact": 1 if all(a == b for a, b in rec.given) else 0}


def bystander(sc):
    lg = logging.getLogger("oc_logger")
    used = list(lg.handlers)
    b = json.loads(json.dumps(sc["bystander"]))
    he = HandleExit()
    Optimizer(b, FoM(None), handle_exit_obj=he)
    for h in used:
        with contextlib.suppress(Exception):
            h.close()
    return he


def neighbour(sc, kind):
    """While an evaluation is in progress, another optimization is built (and run, or run and stopped) in the process."""
    lg = logging.getLogger("oc_logger")
    used = list(lg.handlers)
    d = tempfile.mkdtemp(prefix="o", dir=os.getcwd())
    old = os.getcwd()
    os.chdir(d)
    he = HandleExit()
    fu = FU[0]
    try:
        other = Optimizer(json.loads(json.dumps(sc["bystander"])), Simple(he, kind), handle_exit_obj=he)
        if kind:
            other.execute()
    finally:
        os.chdir(old)
        FU[0] = fu
        for h in list(lg.handlers):
            if h not in used:
                with contextlib.suppress(Exception):
                    h.close()
        lg.handlers = used


class Simple(AbstractFoM):
    """The figure of merit of the neighbour: it improves, then fails, or its user stops it."""

    def __init__(self, he, kind):
        self.he, self.kind, self.n = he, kind, 0

    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        self.n += 1
        if self.n >= 6:
            self.he.set_is_user_running(False)
        return {"FoM": float(-self.n * 1000 * FU[0]), "status_code": int(self.kind == "fail" and self.n == 4)}


def apart(f):
    """Call f in another thread, as a graphical user interface does."""
    box = []

    def work():
        try:
            f()
        except BaseException as ex:
            box.append(ex)
    t = threading.Thread(target=work, daemon=True)
    t.start()
    t.join()
    if box:
        raise box[0]


def linestop(rec, k, run):
    """Raise the user's stop request at the k-th traced line executed inside the library (as another thread would)."""
    cnt = [0]
    root = os.path.join(REPO_SRC, "quocslib")

    def local(frame, event, arg):
        if event == "line":
            cnt[0] += 1
            if cnt[0] == k:
                rec.add("stop", g=1)
                rec.he.set_is_user_running(False)
                sys.settrace(None)
                return None
        return local if cnt[0] < k else None

    def glob_(frame, event, arg):
        if frame.f_code.co_filename.startswith(root) and cnt[0] < k:
            return local
        return None

    sys.settrace(glob_)
    try:
        run()
    finally:
        sys.settrace(None)
    rec.lines = cnt[0]


def watch(rec, run):
    """Look at the best-controls file between any two lines of the library (and of what it uses): this is what would be
    left if the process died there."""
    last = [None]

    def local(frame, event, arg):
        key = []
        for p in rec.files():
            st = os.stat(os.path.join(rec.results_path, p))
            key.append((p, st.st_size, st.st_mtime_ns, st.st_ino))
        if key != last[0]:
            last[0] = key
            rec.add("look", disk=rec.disk())
        return local

    def glob_(frame, event, arg):
        return None if frame.f_code.co_filename.startswith(HERE) else local

    sys.settrace(glob_)
    try:
        run()
    finally:
        sys.settrace(None)


def final(rec, exc):
    sc = rec.sc
    e = {"e": "end", "t": int(round(CLOCK.t)), "exc": exc, "disk": rec.disk(), "fom": ODD, "n": -1, "sd": ODD, "r": 0,
         "hr": 0, "best": -1, "npar": -1, "nfreq": -1, "par": -3, "res": 0, "run": 0, "lists": 0, "flist": [], "ilist": [], "lf": []}
    alg = rec.opt.get_optimization_algorithm() if rec.opt else None
    if rec.results_path:
        fs = glob.glob(os.path.join(rec.results_path, "*optimized_parameters.json"))
        if len(fs) == 1:
            try:
                with open(fs[0]) as f:
                    d = json.load(f)
                e["res"] = 1
                e["fom"] = proj(d.get("Figure of merit", None))
                e["n"] = int(d.get("total number of function evaluations", d.get("nfev", -1)))
                e["sd"] = proj(d.get("Std", None))
                e["r"] = code(d.get("terminate_reason"), REASONS)
                if "dcrab_para_list" in d:
                    e["npar"] = len(d["dcrab_para_list"])
                    e["nfreq"] = len(d["dcrab_freq_list"])
                if "parameters" in d:
                    e["par"] = rec.ctl.get([[], list(d["parameters"]), []], add=False)
            except Exception as ex:
                e["res"] = 2
                rec.tb = repr(ex)
    # every figure of merit in the log, in order (a refused request is reported with the library's placeholder)
    e["lf"] = [logged(v) for lev, m in rec.logs for v in LOGFOM.findall(m)]
    for lev, m in rec.logs:
        if m.startswith("Termination Reason"):
            e["hr"] = code(m.split(":", 1)[1].strip(), HREASONS)
    e["run"] = -1 if rec.he is None else 1 if rec.he.is_user_running else 0
    if alg is not None and not exc:
        try:
            b = alg.get_best_controls()
            pl = rec.payload(b["pulses"], b["parameters"], b["timegrids"])
            e["best"] = rec.ctl.get(pl, add=False)
        except Exception as ex:
            e["best"] = -9
            rec.tb = repr(ex)
        if hasattr(alg, "FoM_list") and hasattr(alg, "iteration_number_list"):
            e["lists"] = 1
            e["flist"] = [proj(x) for x in alg.FoM_list]
            e["ilist"] = [int(x) for x in alg.iteration_number_list]
    return e


INF = 999999999


def spec_cfg(sc):
    """The part of the configuration the specification depends on."""
    dr = sc.get("drift") or {}
    dim = sum((p["bins_number"] if p["basis"]["basis_name"] == "PiecewiseBasis" else sc["bdim"][i])
              for i, p in enumerate(sc["pulses"])) + len(sc["params"])
    return {"alg": sc["alg"], "sgn": -1 if sc["dir"] == "max" else 1,
            "maxtot": INF if sc.get("maxtot") is None else sc["maxtot"],
            "hasgoal": 0 if sc.get("goal") is None else 1, "goal": sc.get("goal") or 0,
            "tlim": INF if sc.get("tlim") is None else sc["tlim"], "nsi": sc["nsi"] if sc["alg"] in ("dCRAB", "AD") else 1,
            "hasre": 0 if sc.get("reev") is None else 1, "reev": [list(x) for x in (sc.get("reev") or [])],
            "maxev": INF if sc.get("maxev") is None else sc["maxev"],
            "stlim": INF if sc.get("stlim") is None else sc["stlim"],
            "dsi": 1 if dr.get("si") or dr.get("sec") else 0, "dsec": dr.get("sec", 0), "navg": dr.get("navg", 1),
            "dsm": sc["dsm"], "dim": dim, "traced": 1 if sc["dsm"] in ("NM", "CMAES", "DUMB") else 0,
            "cbsn": sc["cbs"][0] if sc.get("cbs") else 0, "cbsc": int(sc["cbs"][1]) if sc.get("cbs") else 0,
            "sig": 1 if sc.get("signals") else 0, "fmt": sc.get("fmt", "npz"),
            "async": 1 if (sc.get("linestop") or sc.get("sigstop")) else 0, "overwrite": 1 if sc.get("overwrite") else 0,
            "pop": sc.get("pop") or 0, "careless": 1 if sc.get("careless") else 0,
            "tol": 1 if (sc.get("xatol") or sc.get("fatol") or sc.get("ties")
                        or (sc.get("adaptive") and dim == 1)) else 0, "chk": 1}
