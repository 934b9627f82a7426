"""C25 Adam optimisation against an independent projected Adam recursion."""
import contextlib
import io
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn
from mon import targets as T

RULE = ("one evaluation is one chain optimised by the strategy (through __call__ or optimize) and judged against the recursion (zero noise) or against the "
        "bounds and the target at the returned position (any noise); distinct by target, settings and start")
REQUIRED = ["recursion", "noisy", "bounds:none", "bounds:shared", "bounds:each", "bounds:one-sided", "bounds:mixed-infinite", "bounds:point", "start:outside", "start:inside",
            "at-bound", "interior", "steps:0", "steps:1", "steps:many", "chains:1", "subset", "rejected-shape", "optimize-direct", "call", "value:-inf", "other-objective",
            "sampler", "far", "undefined-chain", "slopes"]
ASSUMPTIONS = ["optax.adam's published update (b1=0.9, b2=0.999, eps=1e-8, bias correction) is what 'Adam' means",
               "targets with finite gradients where the recursion is judged"]


def adam(x0, grad, n, lr, lo, hi):
    x = x0.copy()
    m = np.zeros_like(x)
    v = np.zeros_like(x)
    for t in range(1, n + 1):
        g = grad(x)
        m = 0.9 * m + 0.1 * g
        v = 0.999 * v + 0.001 * g * g
        x = x + lr * (m / (1 - 0.9**t)) / (np.sqrt(v / (1 - 0.999**t)) + 1e-8)  # ascent of the log density
        x = np.minimum(np.maximum(x, lo), hi)
    return x


def bounds_for(rec, rng, d, kind):
    if kind == "none":
        return None
    if kind == "shared":
        a = np.sort(rng.normal(size=2) * 1.5)
        return a[None]
    if kind == "one-sided":
        return np.array([[float(rng.normal()), np.inf]]) if rng.random() < 0.5 else np.array([[-np.inf, float(rng.normal())]])
    b = np.sort(rng.normal(size=(d, 2)) * 1.5, axis=1)
    if kind == "mixed-infinite":
        b[rng.random(d) < 0.4, 0] = -np.inf
        b[rng.random(d) < 0.4, 1] = np.inf
        if d > 1:
            b[0] = [-np.inf, np.inf]
    if kind == "point":
        b[:, 1] = b[:, 0]
    return b


KINDS = ["none", "shared", "each", "one-sided", "mixed-infinite", "point"]


def run(t, xs, key, n_steps, lr, noise, bounds, via, data=None, objective=None):
    from flowMC.strategy.optimization import AdamOptimization
    kw = {} if bounds is None else {"bounds": jnp.asarray(bounds)}
    s = AdamOptimization(t.logp, n_steps=n_steps, learning_rate=lr, noise_level=noise, **kw)
    d = t.data if data is None else data
    with contextlib.redirect_stdout(io.StringIO()):
        if via == "call":
            res = {"a": object()}
            k, r, x = s(key, res, jnp.asarray(xs), d)
            return np.asarray(x), None, k, (r is res or r == res) and list(res) == ["a"]
        k, x, lp = s.optimize(key, objective or (lambda p, q: -t.logp(p, q)), jnp.asarray(xs), d)
    return np.asarray(x), np.asarray(lp), k, True


def check_common(rec, t, xs, x, lp, k, key, n, b, x64, same, **kw):
    d = xs.shape[1]
    rec.check(x.shape == xs.shape, "shape", "shape of the returned positions", got=x.shape)
    rec.check(not np.array_equal(np.asarray(k), np.asarray(key)), "key", "the key does not change")
    rec.check(same, "resources", "the resources are not returned as they were")
    if b is not None and n >= 1:
        lo, hi = np.broadcast_to(b[:, 0], (d,)).astype(x.dtype), np.broadcast_to(b[:, 1], (d,)).astype(x.dtype)
        rec.check(not ((x < lo) | (x > hi)).any() and (kw.get("noise") or np.isfinite(x).all()), "within-bounds", "a coordinate is outside the bounds", bounds=b, got=x, **kw)
        rec.ev("at-bound", ((x == lo) | (x == hi)).any())
        rec.ev("interior", ((x > lo) & (x < hi)).any())
    if lp is not None:
        want = np.asarray(jax.vmap(t.logp, in_axes=(0, None))(jnp.asarray(x), t.data))
        rec.close(lp, want, "reported-log-prob", "the reported log-density is not that of the returned position", rtol=1e-9 if x64 else 1e-4, atol=1e-9 if x64 else 1e-4, **kw)


def recursion(rec, which, d, x64=True):
    rng = rec.rng
    t = T.SMOOTH[which](rng, d)
    d = t.dim
    gfun = jax.jit(jax.vmap(jax.grad(t.logp), in_axes=(0, None)))
    grad = lambda x: np.asarray(gfun(jnp.asarray(x), t.data), float)  # noqa: E731
    for i, kind in enumerate(KINDS):
        b = bounds_for(rec, rng, d, kind)
        n = [0, 1, 2, 25, 60, 7][(i + which + d) % 6] if kind != "none" else 40
        lr = float(np.exp(rng.uniform(-5, -0.5)))
        c = int(rng.integers(1, 7)) if i != 2 else 1
        if i == 3:
            c, n, lr = int(rng.integers(100, 200)), int(rng.choice([1, 150, 400])), float(np.exp(rng.uniform(-6, -4)))
        xs = t.sampler(rng, c) * 1.5
        if kind == "each":
            xs = xs * 4
        if b is not None:
            out = ((xs < b[:, 0]) | (xs > b[:, 1])).any()
            rec.ev("start:outside", out)
            rec.ev("start:inside", not out)
            if i % 2 and np.isfinite(b).all():
                xs = b[:, 0] + rng.random((c, d)) * (b[:, 1] - b[:, 0])
                rec.ev("start:inside")
        else:
            rec.ev("start:inside")
        if not x64:
            xs = xs.astype(np.float32)
        lo = -np.inf if b is None else b[:, 0]
        hi = np.inf if b is None else b[:, 1]
        want = adam(xs.astype(float), grad, n, lr, lo, hi)
        key = rec.key()
        for via in ("call", "optimize"):
            x, lp, k, same = run(t, xs, key, n, lr, 0.0, b, via)
            rec.ev("recursion", c)
            rec.ev("call" if via == "call" else "optimize-direct")
            rec.ev("bounds:" + kind)
            rec.ev("steps:%s" % (n if n < 2 else "many"))
            rec.ev("chains:1", c == 1)
            tol = 1e-7 if x64 else 2e-3
            rec.close(x, want, "recursion", "zero-noise optimisation is not projected Adam", rtol=tol, atol=tol * (1 if x64 else max(1.0, lr * 20)),
                      target=t.name, bounds=kind, n_steps=n, learning_rate=lr, via=via)
            check_common(rec, t, xs, x, lp, k, key, n, b, x64, same, target=t.name, bounds_kind=kind, n_steps=n)
            for j in range(c):
                rec.case(t.name, kind, n, lr, via, xs[j].tobytes())
        # every chain on its own: the same result whatever the other chains are
        if c > 1:
            sub = rng.permutation(c)[: max(1, c // 2)]
            xa = run(t, xs, key, n, lr, 0.0, b, "call")[0]
            xb = run(t, xs[sub], rec.key(), n, lr, 0.0, b, "call")[0]
            tol = 1e-9 if x64 else 1e-3
            rec.close(xb, xa[sub], "independent", "a chain's result depends on the other chains", rtol=tol, atol=tol)
            rec.ev("subset")
    rec.sample(target=t.name, bounds=kind, n_steps=n, learning_rate=lr, start=xs[0], result=x[0])


def noisy(rec, which, d, x64=True):
    rng = rec.rng
    t = (T.SMOOTH + T.ROUGH)[which](rng, d)
    d = t.dim
    for kind in KINDS[1:]:
        b = bounds_for(rec, rng, d, kind)
        n = int(rng.choice([1, 2, 10, 50]))
        noise = float(rng.choice([0.1, 1.0, 10.0, 100.0]))
        lr = float(np.exp(rng.uniform(-4, 1)))
        c = int(rng.integers(1, 9))
        xs = rng.normal(size=(c, d)) * 3
        if not x64:
            xs = xs.astype(np.float32)
        key = rec.key()
        x, lp, k, same = run(t, xs, key, n, lr, noise, b, "optimize")
        check_common(rec, t, xs, x, lp, k, key, n, b, x64, same, target=t.name, bounds_kind=kind, n_steps=n, noise=noise)
        rec.ev("value:-inf", np.isneginf(lp).any())
        rec.ev("noisy", c)
        x2 = run(t, xs, key, n, lr, noise, b, "call")[0]
        rec.check(((x2 >= b[:, 0].astype(x2.dtype)) & (x2 <= b[:, 1].astype(x2.dtype))).all() or np.isnan(x2).any(), "within-bounds", "a coordinate is outside the bounds", bounds=b, got=x2)
        for j in range(c):
            rec.case("noisy", t.name, kind, n, noise, xs[j].tobytes())


def minus_inf(rec):
    rng = rec.rng
    t = T.gamma_wall(rng, 2)
    xs = np.array([[-1.0, 2.0], [0.5, 0.5], [2.0, -3.0]])
    key = rec.key()
    x, lp, k, same = run(t, xs, key, 3, 0.05, 0.0, None, "optimize")
    rec.check(np.isneginf(lp[[0, 2]]).all() and np.isfinite(lp[1]), "reported-log-prob", "reported log-density of forbidden positions", got=lp, x=x)
    rec.ev("value:-inf")
    # an objective of its own moves the chains, the reported value stays the target's
    g = T.gauss(rng, 2)
    c = rng.normal(size=2)
    x, lp, k, _ = run(g, xs, key, 30, 0.05, 0.0, None, "optimize", objective=lambda p, q: jnp.sum((p - c) ** 2))
    want = adam(xs, lambda v: -2 * (v - c), 30, 0.05, -np.inf, np.inf)
    rec.close(x, want, "objective", "optimize does not descend the given objective", rtol=1e-7, atol=1e-7)
    rec.close(lp, np.asarray(jax.vmap(g.logp, in_axes=(0, None))(jnp.asarray(x), g.data)), "reported-log-prob", "reported log-density", rtol=1e-9, atol=1e-9)
    rec.ev("other-objective")
    rec.case("objective", x.tobytes())
    # far from the origin: bounds on one side only hold there and nothing else does
    for off in (1e4, -1e4, 3e6):
        c = rng.normal(size=3) + off
        f = lambda p, q: -0.5 * jnp.sum((p - q["c"]) ** 2)  # noqa: E731
        b = np.array([[-np.inf, off + 0.5], [off - 0.5, np.inf], [-np.inf, np.inf]])
        from flowMC.strategy.optimization import AdamOptimization
        s_ = AdamOptimization(f, n_steps=30, learning_rate=0.2, noise_level=0.0, bounds=jnp.asarray(b))
        x0 = c + rng.normal(size=(4, 3)) * 3
        with contextlib.redirect_stdout(io.StringIO()):
            _, _, x = s_(rec.key(), {}, jnp.asarray(x0), {"c": jnp.asarray(c)})
        rec.close(np.asarray(x), adam(x0, lambda v: -(v - c), 30, 0.2, b[:, 0], b[:, 1]), "recursion", "far from the origin zero-noise optimisation is not projected Adam", rtol=1e-9, atol=1e-6, offset=off)
        rec.ev("far")
        rec.case("far", off)
    # very steep and very flat targets (the recursion hardly depends on the slope, but for its epsilon)
    for K in (1e12, 1e7, 1e-7, 1e-9):
        c = rng.normal(size=2)
        f = lambda p, q: -0.5 * q["K"] * jnp.sum((p - q["c"]) ** 2)  # noqa: E731
        from flowMC.strategy.optimization import AdamOptimization
        s_ = AdamOptimization(f, n_steps=25, learning_rate=0.1, noise_level=0.0)
        x0 = c + rng.normal(size=(4, 2)) * 3
        with contextlib.redirect_stdout(io.StringIO()):
            _, _, x = s_(rec.key(), {}, jnp.asarray(x0), {"c": jnp.asarray(c), "K": jnp.asarray(K)})
        rec.close(np.asarray(x), adam(x0, lambda v: -K * (v - c), 25, 0.1, -np.inf, np.inf), "recursion", "on a steep or flat target zero-noise optimisation is not projected Adam",
                  rtol=1e-7, atol=1e-7, slope=K)
        rec.ev("slopes")
        rec.case("slope", K)
    # a long run with a small learning rate: the same recursion throughout
    c = rng.normal(size=2)
    f = lambda p, q: -jnp.sum(jnp.sqrt(1 + (p - q["c"]) ** 2))  # noqa: E731
    s_ = AdamOptimization(f, n_steps=2500, learning_rate=2e-3, noise_level=0.0)
    x0 = c + np.sign(rng.normal(size=(3, 2))) * rng.uniform(6, 9, (3, 2))
    with contextlib.redirect_stdout(io.StringIO()):
        _, _, x = s_(rec.key(), {}, jnp.asarray(x0), {"c": jnp.asarray(c)})
    rec.close(np.asarray(x), adam(x0, lambda v: -(v - c) / np.sqrt(1 + (v - c) ** 2), 2500, 2e-3, -np.inf, np.inf), "recursion", "a long zero-noise optimisation is not projected Adam", rtol=1e-7, atol=1e-7)
    rec.ev("long")
    rec.case("long", x0.tobytes())
    # one chain of undefined density does not disturb the others
    f = lambda p, q: -0.5 * jnp.sum(jnp.log(p) ** 2)  # noqa: E731
    x0 = np.exp(rng.normal(size=(5, 2)))
    bad = x0.copy()
    bad[0] = [-1.0, 2.0]
    bad[3] = np.nan
    s_ = AdamOptimization(f, n_steps=12, learning_rate=0.05, noise_level=0.0)
    with contextlib.redirect_stdout(io.StringIO()):
        a = np.asarray(s_(key, {}, jnp.asarray(x0), {})[2])
        b = np.asarray(s_(key, {}, jnp.asarray(bad), {})[2])
        _, xb, lb = s_.optimize(key, lambda p, q: -f(p, q), jnp.asarray(bad), {})
    rec.close(b[[1, 2, 4]], a[[1, 2, 4]], "independent", "a chain's result depends on the other chains", rtol=1e-9, atol=1e-9)
    rec.check(np.isnan(b[3]).all() and not np.isfinite(b[0]).all(), "independent", "a chain started where the target is undefined got another chain's position", got=b)
    rec.close(np.asarray(lb), np.asarray(jax.vmap(f, in_axes=(0, None))(xb, {})), "reported-log-prob", "reported log-density", rtol=1e-9, atol=1e-9)
    rec.ev("undefined-chain")
    # other data, same strategy object
    from flowMC.strategy.optimization import AdamOptimization
    s = AdamOptimization(lambda p, q: -jnp.sum((p - q["m"]) ** 2), n_steps=20, learning_rate=0.1, noise_level=0.0)
    for m in (0.0, 3.0, -2.0):
        with contextlib.redirect_stdout(io.StringIO()):
            _, _, x = s(rec.key(), {}, jnp.asarray(xs), {"m": jnp.asarray(m)})
        rec.close(np.asarray(x), adam(xs, lambda v: -2 * (v - m), 20, 0.1, -np.inf, np.inf), "user-data", "the target is not evaluated with the data of the call", rtol=1e-7, atol=1e-7)
        rec.case("data", m)


def shapes(rec):
    from flowMC.strategy.optimization import AdamOptimization
    f = lambda p, q: -jnp.sum(p**2)  # noqa: E731

    def raises(fn, what):
        rec.ev("rejected-shape")
        rec.case("shape", what)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                fn()
        except ValueError:
            rec.check(True, "rejects")
            return
        rec.check(False, "rejects", "bounds of the wrong shape are accepted: " + what)
    for b in (jnp.zeros(2), jnp.zeros((2, 3)), jnp.zeros((1, 1)), jnp.zeros((3, 2, 2)), jnp.zeros((2, 4)), jnp.asarray(1.0)):
        raises(lambda: AdamOptimization(f, bounds=b), "constructor %s" % (b.shape,))
    for d in (1, 2, 3, 5):
        for k in (1, 2, 3, 4, 5, 6):
            b = jnp.asarray([[-1.0, 1.0]] * k)
            s = AdamOptimization(f, n_steps=2, bounds=b)
            x0 = jnp.ones((3, d))
            for fn, w in ((lambda: s(jax.random.PRNGKey(0), {}, x0, {}), "call"), (lambda: s.optimize(jax.random.PRNGKey(0), lambda p, q: jnp.sum(p**2), x0, {}), "optimize")):
                if k in (1, d):
                    with contextlib.redirect_stdout(io.StringIO()):
                        fn()
                    rec.check(True, "accepts")
                else:
                    raises(fn, "%s d=%d bounds (%d,2)" % (w, d, k))


def in_sampler(rec):
    """As a strategy of a Sampler: the next strategy starts from the optimised positions."""
    from flowMC.Sampler import Sampler
    from flowMC.strategy.optimization import AdamOptimization
    from flowMC.strategy.lambda_function import Lambda
    from mon.bundles import same_data
    rng = rec.rng
    t = T.gauss(rng, 3)
    xs = t.sampler(rng, 4)
    b = np.array([[-0.5, 0.5]])
    got = []
    s = AdamOptimization(t.logp, n_steps=15, learning_rate=0.1, noise_level=0.0, bounds=jnp.asarray(b))
    see = Lambda(lambda k, r, x, d: got.append((np.asarray(x).copy(), same_data(d, t.data))))
    sm = Sampler(3, 4, rec.key(), resources={}, strategies={"adam": s, "see": see}, strategy_order=["see", "adam", "see", "adam", "see"])
    x0 = jnp.asarray(xs)
    with contextlib.redirect_stdout(io.StringIO()):
        sm.sample(x0, t.data)
    gf = jax.vmap(jax.grad(t.logp), in_axes=(0, None))
    grad = lambda x: np.asarray(gf(jnp.asarray(x), t.data))  # noqa: E731
    w1 = adam(xs, grad, 15, 0.1, b[:, 0], b[:, 1])
    w2 = adam(w1, grad, 15, 0.1, b[:, 0], b[:, 1])
    for g, w in zip(got, (xs, w1, w2)):
        rec.close(g[0], w, "in-sampler", "positions around the optimisation in a sampler", rtol=1e-7, atol=1e-7)
        rec.check(g[1], "in-sampler-data", "data changed")
    rec.same(x0, xs, "start-intact", "the start positions changed")
    rec.ev("sampler")
    rec.case("sampler", w2.tobytes())


def scenarios(tier, seed):
    q = tier == "quick"
    out = []
    for r in range(1 if q else 10):
        for w in range(len(T.SMOOTH)):
            for d in ((1 + (w + r) % 4,) if q else (1, 2, 5)):
                x64 = bool((w + d) % 4)
                s = Scn(f"recursion-{w}-{d}-r{r}", recursion, x64=x64, which=w, d=d)
                s.params["x64"] = x64
                out.append(s)
        for w in range(len(T.SMOOTH) + len(T.ROUGH)):
            x64 = bool((w + r) % 2)
            s = Scn(f"noisy-{w}-r{r}", noisy, x64=x64, which=w, d=1 + (w + r) % 3)
            s.params["x64"] = x64
            out.append(s)
        out.append(Scn(f"minus-inf-r{r}", minus_inf))
        out.append(Scn(f"sampler-r{r}", in_sampler))
    out.append(Scn("shapes", shapes))
    return out
