"""C14 a flow's log-density is the normalised density of its samples."""
import numpy as np
import scipy.stats as st
import jax
import jax.numpy as jnp
import equinox as eqx
from mon.core import Scn
from mon.flows import leaves, make_flow, set_stats

RULE = ("flows with random parameters, data mean and covariance (identity, diagonal, correlated, scalar) and base distributions (default, "
        "shifted and correlated Gaussian); densities against change of variables by automatic differentiation, quadrature in one and two "
        "dimensions and the law of the samples; a case is one density evaluation, distinct by flow and point")
REQUIRED = ["densities", "quadrature-1d", "quadrature-2d", "sample-law", "sample-cells", "gaussian-densities", "with-base", "custom-base", "precision", "with-whitening", "sample-shapes", "few-samples", "many-samples"]
ASSUMPTIONS = ["scipy's normal densities are the reference for Gaussian base densities"]
KS = 3.6  # P(sqrt(N) D > 3.6) ~ 1e-11


def setup(rng, kind, d, base, whiten, **kw):
    m = make_flow(rng, kind, d, whiten=whiten != "none", base=base, **kw)
    if whiten == "diag":
        m = set_stats(m, cov=np.diag(np.exp(rng.uniform(-2, 2, d))))
    if whiten == "scalar":
        m = set_stats(m, cov=np.exp(rng.uniform(-2, 2)), mean=rng.normal(size=1))
    if whiten == "wide":  # data of very different and very small or large spread
        m = set_stats(m, cov=np.diag(np.exp(rng.uniform(-20, 14, d))), mean=rng.normal(size=d) * np.exp(rng.uniform(-5, 5, d)))
    if base:
        bm, bc = np.asarray(m.base_dist.mean), np.asarray(m.base_dist.cov)
    else:
        bm, bc = np.zeros(d), np.eye(d)
    return m, bm, bc


def to_data(m):
    """The map from the base to the data, from the flow's own inverse and its data mean and covariance."""
    mean = np.asarray(m.data_mean).reshape(-1)
    std = np.sqrt(np.diag(np.atleast_2d(np.asarray(m.data_cov))))
    return (lambda z: m.inverse(z)[0] * std + mean), mean, std


def density(rec, kind, base, whiten, reps, d=None, layers=None):
    rng = rec.rng
    for rep in range(reps):
        d = 1 if whiten == "scalar" else d or int(rng.integers(1, 7))
        m, bm, bc = setup(rng, kind, d, base, whiten, layers=layers, spline=[(-10., 10.), (-3., 2.)][rng.integers(2)], scale=float(rng.choice([0.1, 0.4])))
        T, mean, std = to_data(m)
        z = np.concatenate([rng.multivariate_normal(bm, bc, 25), rng.multivariate_normal(bm, bc * 30, 25), rng.multivariate_normal(bm, bc * 1e4, 10)])
        x = np.asarray(jax.vmap(T)(jnp.asarray(z)))
        J = np.asarray(jax.jit(jax.vmap(jax.jacfwd(T)))(jnp.asarray(z)))
        want = np.asarray(st.multivariate_normal(bm, bc).logpdf(z)).reshape(-1) - np.linalg.slogdet(J)[1]
        got = np.asarray(jax.jit(jax.vmap(m.log_prob))(jnp.asarray(x)))
        rec.close(got, want, "density", "the log-density is not the density of the flow's samples at that point", rtol=1e-6, atol=1e-6,
                  kind=kind, d=d, base=base, whiten=whiten)
        rec.note_max("max_distance_sigma", np.abs(z).max())
        rec.close(np.array([np.asarray(m.log_prob(jnp.asarray(q))) for q in x[:2]]), got[:2], "density-jit", "log-density differs with and without jit", rtol=1e-9, atol=1e-9)
        rec.ev("densities", len(x))
        if base:
            rec.ev("with-base", len(x))
        if whiten != "none":
            rec.ev("with-whitening", len(x))
        rec.distinct_rows(x, kind)
        # law of the samples: their preimages have the base law
        N = 4000
        key = rec.key()
        s = np.asarray(m.sample(key, N))
        rec.check(s.shape == (N, d) and np.isfinite(s).all(), "sample-shape", "samples are not n finite rows of the flow's dimension", shape=s.shape)
        zz = np.asarray(jax.vmap(lambda q: m.forward((q - mean) / std)[0])(jnp.asarray(s)))
        w = np.linalg.solve(np.linalg.cholesky(bc), (zz - bm).T).T
        rec.check(len({r.tobytes() for r in np.round(s, 12)}) == N, "sample-repeats", "the same sample was drawn twice")
        zs = [w.mean(0) * np.sqrt(N), (w**2 - 1).mean(0) * np.sqrt(N / 2), np.array([(w[:-1] * w[1:]).mean(0) * np.sqrt(N - 1)]).ravel()]
        for i in range(d):
            for j in range(i):
                zs.append(np.array([(w[:, i] * w[:, j]).mean() * np.sqrt(N)]))
        rec.ztest(np.concatenate(zs), "sample-law", "the samples do not follow the flow: moments of their preimages under the base", kind=kind, base=base, whiten=whiten, d=d)
        for i in range(d):
            D = st.kstest(w[:, i], "norm").statistic * np.sqrt(N)
            rec.note_max("max_ks", D)
            rec.check(D < KS, "sample-law", "the samples do not follow the flow: law of their preimages under the base", coordinate=i, ks=D, kind=kind)
        rec.ev("sample-law", N)
        if rep == 0:  # as many samples as asked for, all different
            s = np.asarray(m.sample(rec.key(), 30000))
            rec.check(s.shape == (30000, d) and np.isfinite(s).all(), "sample-shape", "samples are not n finite rows of the flow's dimension", shape=s.shape)
            rec.check(len(np.unique(s, axis=0)) > 29990, "sample-repeats", "the same sample was drawn twice", distinct=len(np.unique(s, axis=0)))
            rec.ev("many-samples")
        # few samples per key: the same law
        for n in (1, 3):
            N = 1500
            keys = jax.random.split(rec.key(), N)
            s = np.asarray(jax.jit(jax.vmap(lambda k: m.sample(k, n)))(keys))
            rec.check(s.shape == (N, n, d), "sample-shape", "samples are not n rows of the flow's dimension", n=n, shape=s.shape)
            rec.close(np.asarray(m.sample(keys[0], n)), s[0], "sample-jit", "samples differ with and without jit", rtol=1e-7, atol=1e-9 * float(std.max()))
            s = s.reshape(N * n, d)
            zz = np.asarray(jax.vmap(lambda q: m.forward((q - mean) / std)[0])(jnp.asarray(s)))
            w = np.linalg.solve(np.linalg.cholesky(bc), (zz - bm).T).T
            rec.ztest(np.concatenate([w.mean(0) * np.sqrt(N * n), (w**2 - 1).mean(0) * np.sqrt(N * n / 2)]), "sample-law", "few samples per call do not follow the flow", kind=kind, n=n, whiten=whiten, d=d)
            rec.ev("few-samples", N * n)
        for n in (1, 2, 7):
            rec.check(np.asarray(m.sample(rec.key(), n)).shape == (n, d), "sample-shape", "samples are not n rows of the flow's dimension", n=n)
        rec.ev("sample-shapes", 3)
    rec.sample(kind=kind, d=d, base=base, whiten=whiten, x=x[0], logp=got[0], want=want[0])


def custom_base(rec, kind):
    """A base distribution written by a user, and one composed of independent parts."""
    from flowMC.resource.model.common import Composable, Distribution, Gaussian
    rng = rec.rng

    class Logistic(Distribution):
        loc: jax.Array
        sc: jax.Array

        def __init__(self, loc, sc):
            self.loc, self.sc = jnp.asarray(loc), jnp.asarray(sc)

        def log_prob(self, x):
            u = (x - self.loc) / self.sc
            return jnp.sum(-u - 2 * jax.nn.softplus(-u) - jnp.log(self.sc))

        def sample(self, rng_key, n_samples):
            return self.loc + self.sc * jax.random.logistic(rng_key, (n_samples, len(self.loc)))
    for rep in range(2):
        d = int(rng.integers(2, 5))
        loc, sc = rng.normal(size=d), np.exp(rng.uniform(-1, 1, d))
        m = make_flow(rng, kind, d, whiten=True, base=Logistic(loc, sc))
        T, mean, std = to_data(m)
        z = loc + sc * rng.logistic(size=(40, d))
        x = np.asarray(jax.vmap(T)(jnp.asarray(z)))
        J = np.asarray(jax.jit(jax.vmap(jax.jacfwd(T)))(jnp.asarray(z)))
        ld = np.linalg.slogdet(J)[1]
        rec.close(jax.jit(jax.vmap(m.log_prob))(jnp.asarray(x)), st.logistic(loc, sc).logpdf(z).sum(1) - ld, "density",
                  "the log-density is not the density of the flow's samples at that point", rtol=1e-6, atol=1e-6, kind=kind, d=d, base="logistic")
        N = 4000
        s = np.asarray(m.sample(rec.key(), N))
        rec.check(s.shape == (N, d) and np.isfinite(s).all(), "sample-shape", "samples are not n finite rows of the flow's dimension", shape=s.shape)
        u = st.logistic(loc, sc).cdf(np.asarray(jax.vmap(lambda q: m.forward((q - mean) / std)[0])(jnp.asarray(s))))
        zs = [(u - 0.5).mean(0) * np.sqrt(12 * N), (((u[:-1] - 0.5) * (u[1:] - 0.5)).mean(0)) * 12 * np.sqrt(N - 1), [((u[:, 0] - 0.5) * (u[:, 1] - 0.5)).mean() * 12 * np.sqrt(N)]]
        rec.ztest(np.concatenate(zs), "sample-law", "the samples do not follow the flow under a user's base distribution", kind=kind)
        for i in range(d):
            D = st.kstest(u[:, i], "uniform").statistic * np.sqrt(N)
            rec.check(D < KS, "sample-law", "the samples do not follow the flow under a user's base distribution", coordinate=i, ks=D, kind=kind)
        # independent parts
        from mon.flows import random_cov
        k = int(rng.integers(1, d))
        C1, C2 = random_cov(rng, k), random_cov(rng, d - k)
        m2 = eqx.tree_at(lambda q: q.base_dist, m, Composable([Gaussian(jnp.asarray(loc[:k]), jnp.asarray(C1)), Gaussian(jnp.asarray(loc[k:]), jnp.asarray(C2))],
                                                              {"a": (0, k), "b": (k, d)}))
        want = np.asarray(st.multivariate_normal(loc[:k], C1).logpdf(z[:, :k])).reshape(-1) + np.asarray(st.multivariate_normal(loc[k:], C2).logpdf(z[:, k:])).reshape(-1) - ld
        rec.close(jax.jit(jax.vmap(m2.log_prob))(jnp.asarray(x)), want, "density", "the log-density is not that of the composed base", rtol=1e-6, atol=1e-6, kind=kind, base="composable")
        try:
            s2 = m2.sample(rec.key(), 3000)
        except Exception as e:
            rec.check(False, "composed-base-cannot-sample", "a flow whose base distribution is composed of parts has a density but cannot draw samples", error=repr(e)[:200])
        else:
            s2 = np.asarray(s2)
            rec.check(s2.shape == (3000, d) and np.isfinite(s2).all(), "sample-shape", "samples are not n finite rows of the flow's dimension", shape=s2.shape)
            zz = np.asarray(jax.vmap(lambda q: m.forward((q - mean) / std)[0])(jnp.asarray(s2)))
            C = np.block([[C1, np.zeros((k, d - k))], [np.zeros((d - k, k)), C2]])
            w = np.linalg.solve(np.linalg.cholesky(C), (zz - loc).T).T
            rec.ztest(np.concatenate([w.mean(0) * np.sqrt(3000), (w**2 - 1).mean(0) * np.sqrt(1500)]), "sample-law", "the samples do not follow the flow under a composed base distribution", kind=kind)
        # a converted model is the same model
        for prec, tol in (("float32", 2e-4), ("float64", 1e-9)):
            m3 = m.to_precision(prec)
            rec.check({np.dtype(a.dtype) for a in jax.tree.leaves(eqx.filter(m3, eqx.is_inexact_array))} == {np.dtype(prec)}, "precision", "a converted flow is not in the precision asked for", want=prec)
            rec.close(jax.jit(jax.vmap(m3.log_prob))(jnp.asarray(z * std + mean, dtype=prec)), jax.jit(jax.vmap(m.log_prob))(jnp.asarray(z * std + mean)), "precision",
                      "a converted flow has another density", rtol=tol, atol=10 * tol, kind=kind, to=prec)
        rec.ev("precision")
        rec.ev("custom-base", len(x))
        rec.distinct_rows(x, kind)


def convert(rec, kind):
    """Converting to another precision changes a flow's density and samples by rounding only."""
    rng = rec.rng
    for whiten, base in (("scalar", False), ("full", True), ("diag", False), ("none", True)):
        d = 1 if whiten == "scalar" else int(rng.integers(2, 5))
        m, bm, bc = setup(rng, kind, d, base, whiten, scale=0.2)
        T, mean, std = to_data(m)
        z = rng.multivariate_normal(bm, bc, 30)
        x = np.asarray(jax.vmap(T)(jnp.asarray(z)))
        want = np.asarray(jax.jit(jax.vmap(m.log_prob))(jnp.asarray(x)))
        key = rec.key()
        for prec, tol in (("float32", 2e-4), ("float64", 1e-9), ("bfloat16", None), ("float16", None)):
            c = m.to_precision(prec)
            dts = {str(np.dtype(a.dtype)) for a in jax.tree.leaves(eqx.filter(c, eqx.is_inexact_array))}
            rec.check(dts == {prec}, "precision", "a converted flow is not in the precision asked for", got=sorted(dts), want=prec, whiten=whiten)
            back = c.to_precision("float64")
            eps = {"float32": 1e-6, "float64": 1e-15, "bfloat16": 1e-2, "float16": 1e-3}[prec]
            a, b = leaves(m), leaves(back)
            rec.check(a.keys() == b.keys(), "precision", "converting changed the structure of the flow")
            for k in a:
                rec.close(b[k].astype(float), a[k].astype(float), "precision", "converting changed a parameter by more than rounding", rtol=eps, atol=eps, to=prec, leaf=k)
            if tol:
                rec.close(np.asarray(jax.jit(jax.vmap(c.log_prob))(jnp.asarray(x, dtype=prec))), want, "precision", "a converted flow has another density", rtol=tol, atol=10 * tol, kind=kind, to=prec)
        rec.ev("precision")
        rec.distinct_rows(x, "convert")


def quad1(rec, kind, base, whiten, reps):
    rng = rec.rng
    for _ in range(reps):
        m, bm, bc = setup(rng, kind, 1, base, whiten, spline=[(-10., 10.), (-2., 2.)][rng.integers(2)], scale=float(rng.choice([0.2, 0.5])))
        T, _, _ = to_data(m)
        s0 = np.sqrt(bc[0, 0])
        ends = np.sort(np.asarray(jax.vmap(T)(jnp.asarray([[bm[0] - 9 * s0], [bm[0] + 9 * s0]]))).ravel())
        samp = np.asarray(m.sample(rec.key(), 20000)).ravel()
        lo, hi = min(ends[0], samp.min()), max(ends[1], samp.max())
        # denser where the samples are
        grid = np.unique(np.concatenate([np.linspace(lo, hi, 20001), np.quantile(samp, np.linspace(0, 1, 10001))]))
        p = np.exp(np.asarray(jax.jit(jax.vmap(m.log_prob))(jnp.asarray(grid[:, None]))))
        cdf = np.concatenate([[0], np.cumsum(0.5 * (p[1:] + p[:-1]) * np.diff(grid))])
        rec.note_max("quadrature_error_1d", abs(cdf[-1] - 1))
        rec.check(abs(cdf[-1] - 1) < 5e-3, "normalisation", "the density does not integrate to one", integral=cdf[-1], kind=kind, base=base, whiten=whiten, interval=[lo, hi])
        D = np.abs(np.interp(np.sort(samp), grid, cdf / cdf[-1]) - (np.arange(len(samp)) + 0.5) / len(samp)).max() * np.sqrt(len(samp))
        rec.note_max("max_ks", D)
        rec.check(D < KS, "samples-vs-density", "the samples do not follow the density", ks=D, kind=kind, base=base, whiten=whiten)
        rec.ev("quadrature-1d")
        rec.case("q1", kind, base, whiten, float(samp[0]))
        rec.cases += len(grid)
    rec.sample(kind=kind, integral=cdf[-1], interval=[lo, hi], ks=D)


def quad2(rec, kind, base, whiten):
    rng = rec.rng
    m, bm, bc = setup(rng, kind, 2, base, whiten, scale=0.3, layers=2, bins=4)
    N = 40000
    samp = np.asarray(m.sample(rec.key(), N))
    lo, hi = samp.min(0), samp.max(0)
    w = hi - lo
    lo, hi = lo - 0.25 * w, hi + 0.25 * w
    G = 640
    ax = [lo[i] + (np.arange(G) + 0.5) * (hi[i] - lo[i]) / G for i in range(2)]
    X = np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, 2)
    p = np.exp(np.asarray(jax.jit(jax.vmap(m.log_prob))(jnp.asarray(X)))).reshape(G, G) * np.prod((hi - lo) / G)
    tot = p.sum()
    rec.note_max("quadrature_error_2d", abs(tot - 1))
    rec.check(abs(tot - 1) < 0.02, "normalisation", "the density does not integrate to one", integral=tot, kind=kind, base=base, whiten=whiten, box=[lo, hi])
    C = 16
    P = p.reshape(C, G // C, C, G // C).sum((1, 3)) / tot
    idx = np.minimum(((samp - lo) / (hi - lo) * C).astype(int), C - 1)
    cnt = np.zeros((C, C))
    np.add.at(cnt, (idx[:, 0], idx[:, 1]), 1)
    err = np.abs(cnt - N * P) - 0.02 * N * P - 8
    z = err / np.sqrt(N * P + 1)
    rec.note_max("max_cell_z", z.max())
    rec.check((z < 6.5).all(), "samples-vs-density", "the samples do not follow the density", cell=np.unravel_index(z.argmax(), z.shape), count=cnt.ravel()[z.argmax()],
              expected=N * P.ravel()[z.argmax()], kind=kind, base=base, whiten=whiten)
    rec.ev("quadrature-2d")
    rec.ev("sample-cells", C * C)
    rec.case("q2", kind, base, whiten, float(samp[0, 0]))
    rec.cases += G * G
    rec.sample(kind=kind, integral=tot, box=[lo, hi], max_cell_z=z.max())


def gaussian(rec):
    from flowMC.resource.model.common import Gaussian, Composable
    rng = rec.rng
    from mon.flows import random_cov
    for _ in range(12):
        d = int(rng.integers(1, 6))
        mu, C = rng.normal(size=d) * 3, random_cov(rng, d)
        learn = bool(rng.integers(2))
        g = Gaussian(jnp.asarray(mu), jnp.asarray(C), learnable=learn)
        x = rng.multivariate_normal(mu, C * 4, 30)
        want = np.asarray(st.multivariate_normal(mu, C).logpdf(x)).reshape(-1)
        rec.close(jax.vmap(g.log_prob)(jnp.asarray(x)), want, "gaussian-density", "Gaussian log-density", rtol=1e-9, atol=1e-9, d=d)
        rec.close(jax.vmap(lambda q: g(q))(jnp.asarray(x)), want, "gaussian-density", "calling a Gaussian", rtol=1e-9, atol=1e-9, d=d)
        gm = jax.grad(lambda q: q.log_prob(jnp.asarray(x[0])), allow_int=True)(g)
        rec.check(learn == bool(any(np.any(np.asarray(v) != 0) for v in jax.tree.leaves(gm) if np.asarray(v).dtype.kind == "f")), "gaussian-learnable", "gradients of the base parameters do not follow learnable", learnable=learn)
        N = 4000
        s = np.asarray(g.sample(rec.key(), N))
        rec.check(s.shape == (N, d), "sample-shape", "Gaussian samples")
        w = np.linalg.solve(np.linalg.cholesky(C), (s - mu).T).T
        rec.ztest(np.concatenate([w.mean(0) * np.sqrt(N), (w**2 - 1).mean(0) * np.sqrt(N / 2)]), "gaussian-samples", "Gaussian samples do not have its mean and covariance")
        # composition of two: the sum of the parts' densities
        d2 = int(rng.integers(1, 4))
        mu2, C2 = rng.normal(size=d2), random_cov(rng, d2)
        c = Composable([g, Gaussian(jnp.asarray(mu2), jnp.asarray(C2))], {"a": (0, d), "b": (d, d + d2)})
        y = rng.multivariate_normal(mu2, C2, 30)
        rec.close(jax.vmap(c.log_prob)(jnp.asarray(np.concatenate([x, y], 1))), want + np.asarray(st.multivariate_normal(mu2, C2).logpdf(y)).reshape(-1),
                  "composable-density", "density of independent parts is not the sum", rtol=1e-9, atol=1e-9)
        cs = c.sample(rec.key(), N)
        if isinstance(cs, dict):
            rec.check(set(cs) == {"a", "b"} and np.asarray(cs["a"]).shape == (N, d) and np.asarray(cs["b"]).shape == (N, d2), "composable-sample", "samples of the parts")
            a, b = np.asarray(cs["a"])[:, 0], np.asarray(cs["b"])[:, 0]
            rec.ztest(np.corrcoef(a, b)[0, 1] * np.sqrt(N), "composable-independent", "parts share randomness")
        rec.ev("gaussian-densities", len(x))
        rec.distinct_rows(x, "g")


def scenarios(tier, seed):
    out = []
    for r in range(1 if tier == "quick" else 12):
        for kind in ("realnvp", "rqspline"):
            for base, wh in ((False, "full"), (True, "none"), (True, "full"), (False, "scalar")):
                out.append(Scn(f"density-{kind}-{base}-{wh}-r{r}", density, kind=kind, base=base, whiten=wh, reps=2))
                if wh != "scalar" or tier != "quick":
                    out.append(Scn(f"quad1-{kind}-{base}-{wh}-r{r}", quad1, kind=kind, base=base, whiten=wh, reps=2))
            out.append(Scn(f"density-{kind}-wide-r{r}", density, kind=kind, base=bool(r % 2), whiten="wide", reps=2))
            out.append(Scn(f"density-{kind}-deep-r{r}", density, kind=kind, base=bool((r + 1) % 2), whiten="full", reps=1, d=(14, 9)[r % 2], layers=(8, 12)[r % 2]))
            out.append(Scn(f"convert-{kind}-r{r}", convert, kind=kind))
            out.append(Scn(f"custom-base-{kind}-r{r}", custom_base, kind=kind))
            for base, wh in ((False, "full"), (True, "diag")):
                out.append(Scn(f"quad2-{kind}-{base}-{wh}-r{r}", quad2, kind=kind, base=base, whiten=wh))
        out.append(Scn(f"gaussian-r{r}", gaussian))
    return out
