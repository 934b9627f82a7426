"""C13 flow layers and flows are bijections with the right log-determinant."""
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn
from mon.flows import make_flow, scramble, shrink

RULE = ("random parameters (from initialisation to strongly perturbed), dimensions 1-8, 1-6 layers, 1-12 bins, spline ranges, masks and "
        "conditions; inputs inside, on the knots and ends of, and far outside the spline range; a case is one input of one map, distinct by "
        "map and input, non-trivial if the map moves it")
REQUIRED = ["inverse-of-forward", "forward-of-inverse", "jacobian", "on-knot", "outside-range", "at-range-end", "one-dim", "elementwise", "float32", "near-zero"]
ASSUMPTIONS = ["automatic differentiation of the forward map is the reference for its Jacobian, cross-checked with finite differences"]


def check_map(rec, fwd, inv, xs, tag, x64=True, elementwise=False, ctx=None):
    """fwd, inv: vector -> (vector, logdet)."""
    ctx = dict(ctx or {}, map=tag)
    xs = jnp.asarray(xs)
    d = xs.shape[1]
    vf, vi = jax.jit(jax.vmap(fwd)), jax.jit(jax.vmap(inv))
    y, ld = vf(xs)
    xb, ldb = vi(y)
    x2, li = vi(xs)
    yb, lib = vf(x2)
    # beside each point, for inputs exactly on a knot (where the derivative is continuous but autodiff of a clip is not)
    del_ = (3e-12 if x64 else 1e-5) * (1 + np.abs(np.asarray(xs)))
    near = [xs, xs + del_, xs - del_]
    jf, ji = (jax.jit(jax.vmap(jax.jacfwd(lambda x, g=g: g(x)[0]))) for g in (fwd, inv))
    Js, Jis = [np.asarray(jf(jnp.asarray(p, xs.dtype))) for p in near], [np.asarray(ji(jnp.asarray(p, xs.dtype))) for p in near]
    J, Ji = Js[0], Jis[0]
    eps = 2.3e-16 if x64 else 1.2e-7
    f64 = lambda a: np.asarray(a, np.float64)  # noqa: E731
    rec.check(np.isfinite(f64(y)).all() and np.isfinite(f64(x2)).all() and np.isfinite(f64(ld)).all() and np.isfinite(f64(li)).all(),
              "finite", "a map gives non-finite values for finite input", **ctx)
    # tolerances follow the conditioning of the map itself; a floor on it covers the intermediate layers
    def norms(Q):
        sv = np.median([np.linalg.svd(f64(q), compute_uv=False) for q in Q], axis=0)
        rec.check((sv[:, -1] > 0).all() and np.isfinite(sv).all(), "singular", "a map has a singular Jacobian on both sides of a point", **ctx)
        return sv[:, 0], 1 / np.maximum(sv[:, -1], 1e-300)
    Jn, Jin = norms(Js)
    Kn, Kin = norms(Jis)
    big = 3e5 * eps
    sc = 1 + np.abs(f64(xs)).max(1) + np.abs(f64(y)).max(1)
    sc2 = 1 + np.abs(f64(xs)).max(1) + np.abs(f64(x2)).max(1)
    tol1 = big * (1 + Jn) * (1 + Jin) * sc
    tol2 = big * (1 + Kn) * (1 + Kin) * sc2
    # the tolerance may not be so loose that it decides nothing
    use1, use2 = tol1 < 1e-2 * sc, tol2 < 1e-2 * sc2
    rec.ev("ill-conditioned-skipped", int((~use1).sum() + (~use2).sum()))
    e1 = np.abs(f64(xb) - f64(xs)).max(1)
    e2 = np.abs(f64(yb) - f64(xs)).max(1)
    b = np.argmax(np.where(use1, e1 / tol1, 0))
    rec.check(not (use1 & ~(e1 <= tol1)).any(), "inverse-of-forward", "inverse(forward(x)) differs from x", x=xs[b], y=y[b], back=xb[b], **ctx)
    b = np.argmax(np.where(use2, e2 / tol2, 0))
    rec.check(not (use2 & ~(e2 <= tol2)).any(), "forward-of-inverse", "forward(inverse(x)) differs from x", x=xs[b], inv=x2[b], back=yb[b], **ctx)
    rec.ev("inverse-of-forward", int(use1.sum()))
    rec.ev("forward-of-inverse", int(use2.sum()))
    if elementwise:
        for nm, l_, JJ, use in (("forward", ld, Js, use1), ("inverse", li, Jis, use2)):
            off = JJ[0] * (1 - np.eye(d))
            rec.check(np.abs(off).max() <= 1e-12, "elementwise", "an elementwise map couples coordinates", **ctx)
            want = np.stack([np.log(np.abs(np.einsum("bii->bi", q))) for q in JJ])
            l_ = f64(l_)
            l_ = np.broadcast_to(l_[:, None] if l_.ndim == 1 else l_, want[0].shape)
            err = np.abs(want - l_) / (1 + np.abs(l_))
            err = np.minimum(err[0], err[1:].min(0) * (1e-2 if x64 else 1))
            bad = use[:, None] & ~(err <= (1e-6 if x64 else 3e-2))
            i = np.argwhere(bad)[0] if bad.any() else (0, 0)
            rec.check(not bad.any(), "logdet-" + nm, "log-determinant is not the log absolute derivative", x=xs[i[0]], got=l_[tuple(i)], want=want[0][tuple(i)], **ctx)
        rec.ev("elementwise", len(xs))
    else:
        for nm, l_, JJ, use in (("forward", ld, Js, use1), ("inverse", li, Jis, use2)):
            want = np.stack([np.linalg.slogdet(q)[1] for q in JJ])
            t = 1e-6 if x64 else 3e-2
            err = np.abs(f64(l_) - want)
            want = want[0]
            err = np.minimum(err[0], err[1:].min(0) * (1e-2 if x64 else 1))
            rec.check(f64(l_).shape == want.shape, "logdet-shape", "log-determinant is not one number", shape=f64(l_).shape, **ctx)
            b = np.argmax(np.where(use, err, 0))
            rec.check(not (use & ~(err <= t * (1 + np.abs(want)))).any(), "logdet-" + nm, "log-determinant is not the log absolute determinant of the Jacobian",
                      x=xs[b], got=f64(l_)[b], want=want[b], **ctx)
    s = f64(ld) + f64(ldb)
    s = np.where(use1 if s.ndim == 1 or elementwise is False else use1[:, None], s, 0)
    t = 1e-5 if x64 else 3e-2
    rec.check((np.abs(s) <= t * (1 + np.abs(f64(ld)))).all(), "logdet-antisymmetry", "log-determinants of the two directions are not negatives of each other",
              worst=np.abs(s).max(), **ctx)
    rec.ev("jacobian", len(xs))
    if x64:  # finite differences, away from kinks of the activations: most points must agree
        h = 1e-6
        fd = np.stack([(f64(vf(xs + h * e)[0]) - f64(vf(xs - h * e)[0])) / (2 * h) for e in np.eye(d)], -1)
        bad = np.abs(fd - J).max((1, 2)) > 1e-3 * (1 + Jn)
        rec.check(bad.mean() <= 0.75, "jacobian-finite-difference", "the map's numerical derivative disagrees with its Jacobian", fraction=bad.mean(), **ctx)
    moved = (np.abs(f64(y) - f64(xs)) > 1e-9).any(1)
    tagb = tag.encode()
    import hashlib
    rec.cases += len(xs)
    for x in np.asarray(xs)[moved]:
        rec.distinct.add(hashlib.blake2b(tagb + repr(ctx).encode()[:200] + x.tobytes(), digest_size=8).hexdigest())
    if d == 1:
        rec.ev("one-dim", len(xs))
    if not x64:
        rec.ev("float32", len(xs))
    rec.note_max("max_log_condition", np.log(Jn * Jin).max())


def points(rec, rng, d, lo, hi, n, knots=None):
    """Inside, at and just beyond the ends, far outside, and on the given knots."""
    c, w = (lo + hi) / 2, (hi - lo) / 2
    xs = [c + w * rng.uniform(-1, 1, (n, d)), c + w * rng.uniform(-3, 3, (n, d)), c + w * 10 ** rng.uniform(0.5, 2.5, (n // 2, d)) * rng.choice([-1, 1], (n // 2, d)),
          rng.normal(size=(n, d))]
    e = rng.choice([lo, hi], (n // 2, d))
    xs.append(e.astype(float))
    xs.append(np.where(rng.random((n // 2, d)) < 0.5, e, c + w * rng.uniform(-1, 1, (n // 2, d))))
    xs.append(e + 1e-15 * (np.abs(e) + w))
    xs.append(e - 1e-15 * (np.abs(e) + w))
    rec.ev("at-range-end", len(e) * 2)
    rec.ev("outside-range", n)
    xs = np.concatenate(xs)
    if knots is not None:
        k = np.stack([rng.choice(knots[i], n) for i in range(d)], 1)
        xs = np.concatenate([xs, k])
        rec.ev("on-knot", len(k))
    return xs


def flows(rec, kind, reps, x64=True, strong=False, dmax=6):
    rng = rec.rng
    for i in range(reps):
        d = 1 if i == 0 else int(rng.integers(1, dmax + 1))
        layers = int(rng.integers(1, 7 if not strong else 4))
        lo, hi = [(-10.0, 10.0), (-2.0, 3.0), (0.5, 4.0), (-50.0, 50.0)][rng.integers(4)]
        scale = float(rng.choice([0.0, 0.1, 0.4])) if not strong else float(rng.uniform(0.5, 1.2))
        bins = int(rng.integers(1, 13))
        m = make_flow(rng, kind, d, scale=scale, layers=layers, bins=bins, spline=(lo, hi), hidden=int(rng.integers(1, 12)), whiten=bool(i % 2))
        xs = points(rec, rng, d, lo, hi, 24)
        if not x64:
            xs = xs[(np.abs(xs) < 200).all(1)].astype(np.float32)
        check_map(rec, m.forward, m.inverse, xs, kind, x64, ctx=dict(d=d, layers=layers, bins=bins, range=(lo, hi), scale=scale))
        call = jax.jit(lambda x: m(x))(jnp.asarray(xs[0]))
        rec.close(call[0], m.forward(jnp.asarray(xs[0]))[0], "call-is-forward", "calling the flow is not its forward map", rtol=1e-5, atol=1e-5)
    rec.sample(kind=kind, d=d, layers=layers, bins=bins, range=(lo, hi), x=xs[0], y=m.forward(jnp.asarray(xs[0]))[0], logdet=m.forward(jnp.asarray(xs[0]))[1])


def spline(rec, reps, x64=True):
    """The spline bijection alone, with any condition, and inside a masked coupling layer."""
    from flowMC.resource.model.nf_model.rqSpline import RQSpline
    from flowMC.resource.model.common import MLP, MaskedCouplingLayer
    rng = rec.rng
    for i in range(reps):
        d = 1 if i == 0 else int(rng.integers(1, 6))
        nb = int(rng.integers(1, 13))
        lo, hi = [(-10.0, 10.0), (-1.0, 1.0), (0.0, 1.0), (-3.0, 8.0)][rng.integers(4)]
        mlp = scramble(MLP([d, 6, d * (3 * nb + 1)], rec.key(), activation=jax.nn.tanh), rng, float(rng.choice([0.1, 0.3, 0.7] if x64 else [0.1, 0.3])))
        kw = {}
        if i % 3 == 2:
            kw = dict(min_bin_size=1e-2 * (hi - lo) / nb, min_knot_slope=1e-2)
        s = RQSpline(mlp, lo, hi, **kw)
        cond = jnp.asarray(rng.normal(size=d) * 2)
        kx, ky = None, None
        if hasattr(s, "get_params"):
            kx, ky, _ = (np.asarray(a) for a in s.get_params(cond))
            kx = np.where(kx < lo, lo, kx)
        xs = points(rec, rng, d, lo, hi, 20, kx)
        if ky is not None:
            xs = np.concatenate([xs, np.stack([rng.choice(ky[j], 10) for j in range(d)], 1)])
        if not x64:
            xs = xs.astype(np.float32)
        ctx = dict(d=d, bins=nb, range=(lo, hi))
        check_map(rec, lambda x: s.forward(x, cond), lambda x: s.inverse(x, cond), xs, "RQSpline", x64, elementwise=True, ctx=ctx)
        mask = jnp.asarray(rng.integers(0, 2, d).astype([bool, float, int][i % 3]))
        L = MaskedCouplingLayer(s, mask)
        check_map(rec, lambda x: L.forward(x, None), lambda x: L.inverse(x, None), xs, "MaskedRQSpline", x64, ctx=dict(ctx, mask=np.asarray(mask).tolist()))
        y = np.asarray(jax.vmap(lambda x: L.forward(x, None)[0])(jnp.asarray(xs)))
        mk = np.asarray(mask).astype(bool)
        rec.check((y[:, mk] == np.asarray(jnp.asarray(xs))[:, mk]).all(), "mask-passes", "a coupling layer changed a coordinate it should pass through", bad=[(repr(float(a)), repr(float(b))) for a, b in zip(y[:, mk].ravel(), np.asarray(jnp.asarray(xs))[:, mk].ravel()) if a != b][:5], mask=np.asarray(mask).tolist())


def weak(rec, x64=True):
    """Parameters at and near zero, where the quadratic of the spline's inverse degenerates."""
    from flowMC.resource.model.nf_model.rqSpline import RQSpline
    from flowMC.resource.model.common import MLP
    rng = rec.rng
    for f in (0.0, 1e-12, 1e-8, 1e-5, 1e-2):
        d = int(rng.integers(1, 4))
        for kind in ("rqspline", "realnvp"):
            lo, hi = [(-10.0, 10.0), (-2.0, 3.0)][rng.integers(2)]
            m = shrink(make_flow(rng, kind, d, scale=0.3, layers=int(rng.integers(1, 4)), bins=int(rng.integers(1, 9)), spline=(lo, hi), whiten=False), f)
            xs = points(rec, rng, d, lo, hi, 16)
            if not x64:
                xs = xs[(np.abs(xs) < 200).all(1)].astype(np.float32)
            check_map(rec, m.forward, m.inverse, xs, kind, x64, ctx=dict(d=d, factor=f, range=(lo, hi)))
        nb = int(rng.integers(1, 9))
        s = RQSpline(shrink(scramble(MLP([d, 6, d * (3 * nb + 1)], rec.key(), activation=jax.nn.tanh), rng, 0.3), f), lo, hi)
        cond = jnp.asarray(rng.normal(size=d))
        check_map(rec, lambda x: s.forward(x, cond), lambda x: s.inverse(x, cond), xs, "RQSpline", x64, elementwise=True, ctx=dict(d=d, bins=nb, factor=f))
        rec.ev("near-zero", 3)


def affine(rec, reps, x64=True):
    from flowMC.resource.model.common import MLP, MaskedCouplingLayer, MLPAffine, ScalarAffine
    from flowMC.resource.model.nf_model.realNVP import AffineCoupling
    rng = rec.rng
    for i in range(reps):
        d = 1 if i == 0 else int(rng.integers(1, 8))
        sc = float(rng.choice([0.1, 0.5, 1.5]))
        dt = float(rng.choice([1.0, 0.3, 1.7, -0.5]))
        mk = [scramble(MLP([d, 5, d], rec.key()), rng, sc) for _ in range(2)]
        m = MLPAffine(mk[0], mk[1], dt)
        cond = jnp.asarray(rng.normal(size=d))
        xs = np.concatenate([rng.normal(size=(20, d)), rng.normal(size=(20, d)) * 100])
        if not x64:
            xs = xs.astype(np.float32)
        check_map(rec, lambda x: m.forward(x, cond), lambda x: m.inverse(x, cond), xs, "MLPAffine", x64, elementwise=True, ctx=dict(d=d, dt=dt))
        mask = jnp.asarray(rng.integers(0, 2, d).astype([bool, float, int][i % 3]))
        L = MaskedCouplingLayer(m, mask)
        check_map(rec, lambda x: L.forward(x, None), lambda x: L.inverse(x, None), xs, "MaskedAffine", x64, ctx=dict(d=d, dt=dt, mask=np.asarray(mask).tolist()))
        a, b = float(rng.normal()), float(rng.normal() * 3)
        S = ScalarAffine(a, b)
        check_map(rec, lambda x: S.forward(x, cond), lambda x: S.inverse(x, cond), xs, "ScalarAffine", x64, elementwise=True, ctx=dict(scale=a, shift=b))
        L2 = MaskedCouplingLayer(S, mask)
        check_map(rec, lambda x: L2.forward(x, None), lambda x: L2.inverse(x, None), xs, "MaskedScalarAffine", x64, ctx=dict(scale=a, shift=b, mask=np.asarray(mask).tolist()))
        A = scramble(AffineCoupling(d, 6, mask, rec.key(), dt=dt), rng, sc)
        check_map(rec, A.forward, A.inverse, xs, "AffineCoupling", x64, ctx=dict(d=d, dt=dt, mask=np.asarray(mask).tolist()))
    rec.sample(maps=["MLPAffine", "MaskedAffine", "ScalarAffine", "AffineCoupling"], d=d, dt=dt, mask=np.asarray(mask))


def scenarios(tier, seed):
    out = []
    for r in range(1 if tier == "quick" else 12):
        for v in range(2):
            out += [Scn(f"realnvp-{v}-r{r}", flows, kind="realnvp", reps=4), Scn(f"rqspline-{v}-r{r}", flows, kind="rqspline", reps=4)]
        out += [Scn(f"weak-r{r}", weak), Scn(f"weak-f32-r{r}", weak, x64=False)]
        out += [Scn(f"realnvp-strong-r{r}", flows, kind="realnvp", reps=4, strong=True), Scn(f"rqspline-strong-r{r}", flows, kind="rqspline", reps=4, strong=True),
                Scn(f"spline-r{r}", spline, reps=6), Scn(f"affine-r{r}", affine, reps=5),
                Scn(f"spline-f32-r{r}", spline, x64=False, reps=3), Scn(f"affine-f32-r{r}", affine, x64=False, reps=3),
                Scn(f"rqspline-f32-r{r}", flows, x64=False, kind="rqspline", reps=3), Scn(f"realnvp-f32-r{r}", flows, x64=False, kind="realnvp", reps=3)]
    for s in out:
        s.params["x64"] = s.x64
    return out
