"""C05 forbidden regions: no chain enters or records a point of zero or undefined density."""
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn
from mon import oracles as O
from mon.flows import make_flow
from mon.steps import Steps, make_kernel
from mon.pt import PT

RULE = ("chains of every kernel, flow proposals and tempering on targets with walls (-inf), undefined outsides (NaN value, NaN "
        "gradient) and overflow; a case is one recorded state, distinct by position; scenarios whose chains never met the "
        "forbidden region do not count as non-trivial")
REQUIRED = ["forbidden-proposals", "moves", "pt-states", "intruders", "walled-decisions:decisions"]
ASSUMPTIONS = ["'met the forbidden region' is measured by an unconstrained twin run with the same key"]


def regions():
    def wall(x, d):
        return jnp.where(jnp.all(x > 0), -jnp.sum(x) - 0.5 * jnp.sum((x - 1) ** 2), -jnp.inf)

    def nan_value(x, d):
        return jnp.sum(1.5 * jnp.log(x) - x)

    def nan_grad(x, d):
        return jnp.where(jnp.all(x > 0), jnp.sum(jnp.sqrt(x) * 2 - x), -jnp.inf)

    def nan_flat(x, d):
        return jnp.where(jnp.all(x > 0), -0.5 * jnp.sum((x - 1) ** 2), jnp.nan)

    def nan_sqrt(x, d):
        return jnp.sum(jnp.sqrt(4.0 - (x - 1) ** 2) - 2)

    def mixed(x, d):
        v = jnp.where(x[0] > 2.5, jnp.nan, jnp.where(x[0] < 0.05, -jnp.inf, 0.0))
        return v - 0.5 * jnp.sum((x - 1) ** 2)

    def overflow(x, d):
        return -jnp.sum(jnp.exp(jnp.minimum(x, 1e4) ** 2 * d["s"]))
    return dict(wall=wall, nan_value=nan_value, nan_grad=nan_grad, nan_flat=nan_flat, nan_sqrt=nan_sqrt, mixed=mixed,
                overflow=overflow)


def starts(rng, n, d):
    return 1.0 + rng.uniform(-0.6, 0.6, (n, d))


def watch(rec, tag, f, data, xs, P, L, A):
    """All recorded positions have finite density and finite coordinates."""
    n, m, d = P.shape
    fv = np.asarray(jax.jit(jax.vmap(f, in_axes=(0, None)))(jnp.asarray(P.reshape(-1, d)), data)).reshape(n, m)
    bad = ~np.isfinite(fv) | ~np.isfinite(P).all(-1) | ~np.isfinite(L)
    if bad.any():
        i, k = np.argwhere(bad)[0]
        rec.check(False, "forbidden-state", "a chain entered a region of zero or undefined density", at=tag, chain=int(i), step=int(k),
                  start=xs[i], position=P[i, k], previous=P[i, k - 1] if k else xs[i], recorded=L[i, k], density=fv[i, k])
    else:
        rec.check(True, "forbidden-state")
    rec.distinct_rows(P.reshape(-1, d), tag)
    rec.ev("moves", int((A > 0).sum()))


def kernels(rec, d, steps, n, which, names=("MALA", "HMC", "GRW", "NF")):
    rng = rec.rng
    f = regions()[which]
    data = {"s": jnp.asarray(0.7)}
    for name in names:
        model = None
        if name == "NF":
            from flowMC.resource.model.nf_model.realNVP import RealNVP
            model = RealNVP(d, 2, 8, rec.key(), data_mean=jnp.ones(d), data_cov=0.5 * jnp.eye(d))
        gentle = bool(rng.integers(2)) or name == "NF"
        step = 0.3 if gentle else float(rng.choice([0.8, 2.0, 20.0, 1e6]))
        kern = make_kernel(name, rng, d, step=step if name != "MALA" or step < 100 else 3.0, model=model, batch=int(rng.integers(2, 40)))
        if name == "HMC" and gentle:
            from flowMC.resource.kernel.HMC import HMC
            kern = HMC(condition_matrix=jnp.eye(d), step_size=step, n_leapfrog=1)
        st = Steps(kern, f, d, steps, group=name == "NF", thinning=1)
        xs = starts(rng, n, d)
        key = rec.key()
        P, L, A, last, _ = st(key, xs, data)
        tag = f"{name}-{which}"
        watch(rec, tag, f, data, xs, P, L, A)
        # how often the forbidden region was proposed: rejected steps of a kernel that proposes there
        rec.ev("forbidden-proposals", int((A == 0).sum()))
        if gentle:
            # moderate moves from inside the region: the late half of the run still moves
            late = A[:, steps // 2:].mean()
            rec.note_max("min_late_acceptance_neg", -late)
            rec.check(late > 0.02, "stuck", "chains stopped moving", kernel=name, region=which, step=step, late_acceptance=late)
        rec.sample(kernel=name, region=which, step=step, acceptance=float(A.mean()), start=xs[0], path=P[0][:4])


def decisions(rec, d, n, which):
    """Exact decisions near forbidden regions: NaN and -inf proposals are rejected, all others follow the ratio."""
    from flowMC.resource.kernel.MALA import MALA
    from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
    from mon.props.c01 import val_grad
    rng = rec.rng
    f = regions()[which]
    data = {"s": jnp.asarray(0.7)}

    class TT:
        logp = staticmethod(f)
    TT.data = data
    eps = float(rng.uniform(0.5, 1.5))
    keys = jax.random.split(rec.key(), n)
    xs = starts(rng, n, d)
    xj = jnp.asarray(xs)
    for name, kern in (("mala", MALA(step_size=eps)), ("grw", GaussianRandomWalk(step_size=eps))):
        pf, _, _ = O.run_kernel(kern, keys, xj, O.flat, None)
        z = (pf - xs) / eps
        logu = O.recover_log_u(kern, keys, xj)
        got = O.run_kernel(kern, keys, xj, f, data)
        fx, gx = val_grad(TT, xs)
        y = xs + eps * z + (0.5 * eps**2 * gx if name == "mala" else 0)
        fy, gy = val_grad(TT, y)
        with np.errstate(all="ignore"):
            ratio = fy - fx
            if name == "mala":
                ratio = ratio - 0.5 * (((xs - y - 0.5 * eps**2 * gy) / eps) ** 2).sum(1) + 0.5 * (((y - xs - 0.5 * eps**2 * gx) / eps) ** 2).sum(1)
        # a forbidden proposal must be rejected whatever the gradient there is
        forb = ~np.isfinite(fy)
        rec.ev("forbidden-proposals", int(forb.sum()))
        ratio = np.where(forb, -np.inf, ratio)
        tol = 1e-8 * (1 + np.abs(fx) + np.abs(np.where(np.isfinite(fy), fy, 0)))
        yy = np.where(np.isfinite(y), y, 1e300)
        # NaN gradient at an allowed proposal has no defined ratio: leave it out
        keep = forb | np.isfinite(ratio)
        O.check_mh(rec, "walled-decisions", xs[keep], tuple(q[keep] for q in got), yy[keep], ratio[keep], fx[keep], fy[keep], logu[keep], tol[keep])


def tempering(rec, d, n, T, which, side, kname):
    rng = rec.rng
    f = regions()[which]
    data = {"s": jnp.asarray(0.7)}
    nice = lambda x, dd: -0.5 * jnp.sum((x - 1) ** 2) / 9.0  # noqa: E731
    lik, pri = (f, nice) if side == "likelihood" else (nice, f)
    kern = make_kernel(kname, rng, d, step=float(rng.choice([0.4, 1.0, 3.0])))
    pt = PT(kern, lik, pri, d, np.concatenate([[1.0], np.cumsum(rng.uniform(0.5, 3, T - 1)) + 1]), n_steps=3, training=bool(rng.integers(2)))
    hot = starts(rng, n * (T - 1), d).reshape(n, T - 1, d)
    pt.reset(hot)
    cold = starts(rng, n, d)
    key = rec.key()
    tot = jax.jit(jax.vmap(lambda x: lik(x, data) + pri(x, data)))
    moved = 0
    for it in range(8):
        prev = cold
        key, cold, hot, temps = pt(key, cold, data)
        allw = np.concatenate([cold[:, None], hot], 1).reshape(-1, d)
        v = np.asarray(tot(jnp.asarray(allw)))
        bad = ~np.isfinite(v) | ~np.isfinite(allw).all(1)
        if not rec.check(not bad.any(), "forbidden-walker", "a tempered walker is in a region of zero or undefined density",
                         region=which, side=side, kernel=kname, call=it, walker=allw[bad][0] if bad.any() else None):
            return
        rec.distinct_rows(allw, "pt")
        rec.ev("pt-states", len(allw))
        moved += int((prev != cold).any(1).sum())
    rec.check(moved > 0, "stuck", "no tempered chain moved in 8 calls", region=which)


def intruders(rec, d, n, T, which, kname):
    """Tempered walkers that start in the forbidden region of the likelihood do not bring the chains there."""
    rng = rec.rng
    f, data = regions()[which], {"s": jnp.asarray(0.7)}
    kern = make_kernel(kname, rng, d, step=0.5)
    pt = PT(kern, f, lambda x, dd: -0.5 * jnp.sum((x - 1) ** 2) / 9.0, d, np.concatenate([[1.0], np.cumsum(rng.uniform(0.5, 3, T - 1)) + 1]), n_steps=2, training=bool(rng.integers(2)))
    for rep in range(3):
        hot = starts(rng, n * (T - 1), d).reshape(n, T - 1, d)
        out = rng.random((n, T - 1)) < 0.5
        hot = np.where(out[..., None], -3.0 + rng.uniform(-0.5, 0.5, hot.shape), hot)
        fv = jax.jit(jax.vmap(f, in_axes=(0, None)))
        rec.ev("intruders", int((~np.isfinite(np.asarray(fv(jnp.asarray(hot.reshape(-1, d)), data)))).sum()))
        pt.reset(hot)
        cold, key = starts(rng, n, d), rec.key()
        for it in range(4):
            key, cold, _, _ = pt(key, cold, data)
            v = np.asarray(fv(jnp.asarray(cold), data))
            bad = ~np.isfinite(v) | ~np.isfinite(cold).all(1)
            if not rec.check(not bad.any(), "forbidden-swap", "a chain was given a walker from a region of zero or undefined density", region=which, kernel=kname, call=it,
                             walker=cold[bad][0] if bad.any() else None):
                return
            rec.distinct_rows(cold, "intruder")


def scenarios(tier, seed):
    out = []
    R = list(("wall", "nan_value", "nan_grad", "nan_flat", "nan_sqrt", "mixed", "overflow"))
    for r in range(1 if tier == "quick" else 10):
        for i, w in enumerate(R):
            out.append(Scn(f"kernels-{w}-r{r}", kernels, x64=(i + r) % 2 == 0, d=1 + (i + r) % 3, steps=60, n=60, which=w))
            if tier != "quick" or i in (0, 1, 3, 4):
                out.append(Scn(f"decisions-{w}-r{r}", decisions, d=1 + i % 2, n=1500, which=w))
        for i, (w, k) in enumerate((("wall", "GRW"), ("nan_value", "GRW"), ("nan_flat", "MALA"))):
            out.append(Scn(f"intruders-{w}-r{r}", intruders, x64=bool((i + r) % 2), d=1 + i % 3, n=40, T=2 + i + r % 2, which=w, kname=k))
        for i, (w, s, k) in enumerate((("wall", "likelihood", "MALA"), ("nan_value", "prior", "GRW"), ("mixed", "prior", "MALA"),
                                       ("nan_flat", "likelihood", "HMC"), ("nan_sqrt", "likelihood", "GRW"))):
            out.append(Scn(f"tempering-{w}-{s}-r{r}", tempering, x64=i % 2 == 0, d=1 + i % 3, n=25, T=2 + i % 4, which=w, side=s, kname=k))
    return out
