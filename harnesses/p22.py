"""P22: callbacks, iteration budget, trace."""
import numpy as np
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.proxlib import same_vec
from harnesses.solverlib import DET, STO, Solver

ASSUMPTIONS = ["Objective, gradient, prox and oracle values are arbitrary finite reals, equal at equal arguments.",
               "Callbacks answer False or anything else at every call, in every combination."]
OTHER = (None, True, 0, "stop")


def stop(ctx, solver, iters, evals=12, n=2):
    """False ends the run at once, any other answer changes nothing"""
    s = Solver(ctx, solver, n=n, evals=evals)
    x0 = ctx.vec("x0", s.n)
    seen, ended = [], []

    def cb(loc):
        if ended:
            return None
        seen.append(list(loc["x"]))
        if ctx.choose("answer%d" % len(seen), 2) == 0:
            ended.append((s.evaluations(), list(loc["x"])))
            return False
        return OTHER[len(seen) % len(OTHER)]
    res = s.run(x0, iters, cb)
    ctx.check("nit within the budget", res.nit <= iters)
    ctx.check("callbacks within the budget", len(seen) <= iters + 1)
    if ended:
        ctx.check("no evaluation after the callback asked to stop", ended[0][0] == s.evaluations())
        ctx.check("returned point is the one the callback saw", Eq(list(res.x), ended[0][1]))
        return
    ctx.check("called at every iteration", len(seen) >= (res.nit if res.get("success") else min(iters, res.nit + 1)))
    ref = s.run(x0, iters)
    ctx.check("other answers do not change the result", Eq(list(res.x), list(ref.x)))
    ctx.check("other answers do not change the iteration count", res.nit == ref.nit)


ANSWERS = (0, "", None, 0.0, True, 1, "stop", (), np.zeros(1))


def answers(ctx, solver, iters, evals=30, n=1, few=0):
    """every answer other than False, falsy ones included, leaves the run as it is without a callback"""
    s = Solver(ctx, solver, n=n, evals=evals)
    x0 = ctx.vec("x0", s.n)
    k = ctx.choose("answer", few or len(ANSWERS))
    count = [0]

    def cb(loc):
        count[0] += 1
        return ANSWERS[k]
    res = s.run(x0, iters, cb)
    ref = s.run(x0, iters)
    ctx.check("other answers do not change the result", Eq(list(res.x), list(ref.x)))
    ctx.check("other answers do not change the iteration count", res.nit == ref.nit)
    ctx.check("called at every iteration", count[0] >= (res.nit if res.get("success") else min(iters, res.nit + 1)))


def budget(ctx, solver, iters):
    """epochs of the stochastic solvers"""
    s = Solver(ctx, solver, n=1)
    x0 = ctx.vec("x0", s.n)
    seen = []

    def cb(loc):
        seen.append(list(loc["x"]))
    res = s.run(x0, iters, cb)
    per = 1 if not solver.startswith("sfw") else (s.m // 2 if solver.endswith("batch") else s.m)
    ctx.check("nit within the budget", res.nit <= iters)
    ctx.check("callback at the start and after every epoch or step of the budget", len(seen) == per * iters + 1)
    ctx.check("first callback sees the start", Eq(seen[0], list(x0)) if solver != "vrtos" else True)
    ctx.check("last callback sees the returned point", Eq(list(res.x), seen[-1]))


def trace(ctx, freq, calls, with_f):
    T = ctx.cp.utils.Trace
    n = 2
    vals = []

    def f(x):
        v = ctx.oracle("val", list(x), 1)[0][0]
        vals.append(v)
        return v
    t = T(f, freq=freq) if with_f else (T(freq=freq) if freq != 1 else T())
    x = ctx.zeros(n)
    want, steps = [], []
    for k in range(calls):
        p = ctx.vec("x%d" % k, n)
        for i in range(n):
            x[i] = p[i]               # the solver reuses one array
        st = ctx.real("s%d" % k)
        r = t({"x": x, "step_size": st, "other": None})
        ctx.check("the trace callback never stops the solver", r is not False)
        if k % freq == 0:
            want.append(list(p))
            steps.append(st)
    for i in range(n):
        x[i] = -1.0
    ctx.check("one time stamp per record", len(t.trace_time) == len(want))
    ctx.check("times do not decrease", all(a <= b for a, b in zip(t.trace_time, t.trace_time[1:])) and all(v >= 0 for v in t.trace_time))
    ctx.check("step sizes in order", len(t.trace_step_size) == len(want) and All(*[Eq1(a, b) for a, b in zip(t.trace_step_size, steps)]))
    if with_f:
        ctx.check("values in order", len(t.trace_fx) == len(want) and All(*[Eq1(a, b) for a, b in zip(t.trace_fx, vals)]))
        ctx.check("value computed for every record", len(vals) == len(want))
        ctx.check("points not stored", len(t.trace_x) == 0)
    else:
        ctx.check("points in order, independent of later changes",
                  len(t.trace_x) == len(want) and All(*[Eq(list(a), b) for a, b in zip(t.trace_x, want)]))
        ctx.check("values not stored", len(t.trace_fx) == 0)


class Clock:
    """a clock that shows arbitrary non-decreasing times, to the microsecond"""

    def __init__(self, ctx):
        self.ctx, self.stamps = ctx, []

    def now(self, *a, **k):
        i = len(self.stamps)
        d, s, u = (v[0] for v in (self.ctx.ints("days%d" % i, 1), self.ctx.ints("secs%d" % i, 1), self.ctx.ints("micros%d" % i, 1)))
        for v in (d, s, u):
            self.ctx.assume(v >= 0)
        t = self.Stamp(self, d, s, u)
        if self.stamps:
            self.ctx.assume(t.total >= self.stamps[-1].total)
        self.stamps.append(t)
        return t
    utcnow = today = now

    class Stamp:
        def __init__(self, clock, d, s, u):
            # the start lies at zero, the parts of later times stay below a day, a second and a millisecond
            if not clock.stamps:
                d = s = u = 0
            self.days, self.seconds, self.microseconds = d, s, u
            self.total = d * 86400 + s + u / 1e6

        def __sub__(self, o):
            if not isinstance(o, Clock.Stamp):
                return NotImplemented
            if isinstance(o.total, (int, float)) and o.total == 0:
                return Clock.Delta(self.days, self.seconds, self.microseconds)
            raise E.Unsupported("time difference not taken from the start")

        def timestamp(self):
            return self.total + 1e9

    class Delta:
        def __init__(self, d, s, u):
            self.days, self.seconds, self.microseconds = d, s, u

        def total_seconds(self):
            return self.days * 86400 + self.seconds + self.microseconds / 1e6


def clocked(ctx, freq, calls):
    """the recorded times are the seconds since the trace was made"""
    U = ctx.cp.utils
    if not hasattr(getattr(U, "datetime", None), "now"):
        raise E.Unsupported("the trace does not read datetime.now")
    clock, real = Clock(ctx), U.datetime
    U.datetime = clock
    try:
        t = U.Trace(freq=freq)
        made = len(clock.stamps) - 1
        around = []
        for k in range(calls):
            a = len(clock.stamps) - 1
            t({"x": ctx.zeros(1), "step_size": 1.0})
            if k % freq == 0:
                around.append((clock.stamps[max(a, 0)].total, clock.stamps[-1].total))
    finally:
        U.datetime = real
    ctx.check("one time stamp per record", len(t.trace_time) == len(around))
    if made < 0 or len(t.trace_time) != len(around):
        return
    for v, (lo, hi) in zip(t.trace_time, around):
        ctx.check("seconds since the trace was made", All(Le(lo - clock.stamps[made].total, v), Le(v, hi - clock.stamps[0].total)))


def traced(ctx, solver, iters, evals=12):
    """the trace callback inside a solver"""
    s = Solver(ctx, solver, n=1 if solver in STO else 2, evals=evals)
    x0 = ctx.vec("x0", s.n)
    t = ctx.cp.utils.Trace()
    seen = []

    def cb(loc):
        r = t(loc)
        seen.append(list(loc["x"]))
        return r
    s.run(x0, iters, cb)
    ctx.check("one record per callback", len(t.trace_x) == len(seen) and bool(seen))
    for a, b in zip(t.trace_x, seen):
        ctx.check("recorded points are the iterates at that time", Eq(list(a), b))
    ctx.check("step size recorded", len(t.trace_step_size) == len(seen))


def configs(tier):
    q = tier == "quick"
    Bq = 60 if q else 700
    out = []

    def A(name, fn, **kw):
        out.append(dict(name=name, fn=fn, params=kw, budget=Bq, merge="abs", bounds=", ".join("%s=%s" % i for i in sorted(kw.items()))))
    for s in DET:
        heavy = s.endswith("backtracking") or s.endswith("_ls")
        it = 2 if not heavy else 1
        A("stop_%s" % s, stop, solver=s, iters=it, evals=8 if heavy else 30, n=1 if s in ("pd_ls", "fw_backtracking") and q else 2)
        A("traced_%s" % s, traced, solver=s, iters=it, evals=8 if heavy else 30)
        A("answers_%s" % s, answers, solver=s, iters=1 if heavy and s != "tos_ls" else 2, evals=8 if s in ("pd_ls", "fw_backtracking") else 16,
          few=4 if s in ("pd_ls", "fw_backtracking") else 0)
        if not q:
            A("stop_%s_deeper" % s, stop, solver=s, iters=it + 1, evals=12 if heavy else 40)
    for s in STO:
        A("budget_%s" % s, budget, solver=s, iters=2 if not s.startswith("sfw") or s.endswith("batch") else 1)
        A("traced_%s" % s, traced, solver=s, iters=1)
        if not q:
            A("budget_%s_deeper" % s, budget, solver=s, iters=2)
    for f in (1, 2):
        A("trace_clock_%d" % f, clocked, freq=f, calls=4)
    for f in (1, 2, 3, 5, 10):
        for wf in (False, True):
            A("trace_freq%d_%s" % (f, "f" if wf else "x"), trace, freq=f, calls=32 if q else 120, with_f=wf)
    return out
