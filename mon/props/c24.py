"""C24 target wrappers: values, gradients and identity under every transformation."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
import equinox as eqx
from mon.core import Scn

RULE = ("one evaluation compares a wrapped target with the user's own function (value, gradient or Hessian) at one point under one transformation; "
        "distinct by function, transformation, data and point")
REQUIRED = ["direct", "jit", "vmap", "grad", "hessian", "jit-argument", "filter-jit", "flatten", "tree-map", "scan", "scan-argument", "tempered", "tempered:T1", "tempered:vmap-T",
            "confusion-pairs", "data:none", "data:dict", "data:nested", "data:array", "value:-inf", "value:nan", "variables", "strategy-confusion", "constructor"]
ASSUMPTIONS = ["the user's functions are pure JAX functions; values computed by XLA in different program shapes are compared to 1e-12 relative (1e-5 in "
               "single precision)"]


class CallableObj:
    def __init__(self, a):
        self.a = a

    def __call__(self, x, data):
        return -self.a * jnp.sum(x**2) + first(data)

    def method(self, x, data):
        return self.a * jnp.sum(jnp.sin(x)) - first(data)


def first(data):
    l = jax.tree_util.tree_leaves(data)
    return jnp.sum(jnp.asarray(l[0])) if l else 0.0


def with_param(x, data, a):
    return a * jnp.sum(jnp.cos(x)) + first(data) * x[0]


def functions(rng):
    """Pairs (name, fresh function); functions of the same name differ only in captured constants."""
    def lam(a):
        return lambda x, d: -a * jnp.sum((x - first(d)) ** 2)

    def clos(a):
        b = jnp.asarray(rng.normal(size=3))

        def f(x, d):
            return a * jnp.tanh(x @ jnp.resize(b, x.shape)) + first(d)
        return f

    def wall(a):
        def f(x, d):
            return jnp.where(x[0] > a, jnp.log(jnp.where(x[0] > a, x[0] - a, 1.0)) - jnp.sum(x**2), -jnp.inf)
        return f

    def nan(a):
        def f(x, d):
            return jnp.sqrt(jnp.sum(x) - a) + first(d)
        return f

    def jitted(a):
        return jax.jit(lambda x, d: a * jnp.sum(x**4) + first(d))

    def part(a):
        return functools.partial(with_param, a=a)

    def jpart(a):
        return jax.tree_util.Partial(with_param, a=a)

    def obj(a):
        return CallableObj(a)

    def meth(a):
        return CallableObj(a).method

    def shape1(a):
        return lambda x, d: jnp.sum(x, keepdims=True)[0] * a

    def const(a):
        return lambda x, d: jnp.asarray(a)
    return dict(lam=lam, clos=clos, wall=wall, nan=nan, jitted=jitted, part=part, jpart=jpart, obj=obj, meth=meth, shape1=shape1, const=const)


def datas(rng):
    return [("none", None), ("dict", {"m": jnp.asarray(0.3), "z": jnp.asarray(rng.normal(size=4))}), ("nested", {"a": (jnp.asarray(-0.2), [jnp.asarray(1.0), {"b": 2}])}),
            ("array", jnp.asarray(rng.normal(size=2))), ("empty", {}), ("scalar", 0.7), ("tuple", (1.5, jnp.asarray(2)))]


def transformations(P, f, x, X, d, rec):
    """(name, got, want) of the wrapped target P against the user's f."""
    g = lambda v, q: f(v, q)  # noqa: E731
    yield "direct", P(x, d), f(x, d)
    yield "jit", jax.jit(lambda v, q: P(v, q))(x, d), jax.jit(g)(x, d)
    yield "jit", jax.jit(P.__call__)(x, d), jax.jit(g)(x, d)
    yield "vmap", jax.vmap(P, in_axes=(0, None))(X, d), jax.vmap(g, in_axes=(0, None))(X, d)
    yield "vmap", jax.jit(jax.vmap(P, in_axes=(0, None)))(X, d), jax.jit(jax.vmap(g, in_axes=(0, None)))(X, d)
    yield "grad", jax.grad(P)(x, d), jax.grad(g)(x, d)
    yield "grad", jax.jit(jax.vmap(jax.value_and_grad(P), in_axes=(0, None)))(X, d), jax.jit(jax.vmap(jax.value_and_grad(g), in_axes=(0, None)))(X, d)
    yield "hessian", jax.hessian(lambda v: P(v, d))(x), jax.hessian(lambda v: g(v, d))(x)
    yield "jit-argument", jax.jit(lambda p, v, q: p(v, q))(P, x, d), jax.jit(g)(x, d)
    yield "filter-jit", eqx.filter_jit(eqx.filter_vmap(lambda v, p, q: p(v, q), in_axes=(0, None, None)))(X, P, d), jax.vmap(g, in_axes=(0, None))(X, d)
    leaves, td = jax.tree_util.tree_flatten(P)
    P2 = jax.tree_util.tree_unflatten(td, leaves)
    rec.check(type(P2) is type(P) and P2.n_dims == P.n_dims and P2.variables == P.variables, "flatten-meta", "type or variables lost in flattening")
    yield "flatten", P2(x, d), f(x, d)
    yield "flatten", jax.jit(lambda v, q: P2(v, q))(x, d), jax.jit(g)(x, d)
    P3 = jax.tree_util.tree_map(lambda v: v, P)
    yield "tree-map", P3(x, d), f(x, d)
    yield "scan", jax.lax.scan(lambda c, v: (c, P(v, d)), 0, X)[1], jax.vmap(g, in_axes=(0, None))(X, d)
    yield "scan-argument", jax.lax.scan(lambda c, v: (c, c[0](v, c[1])), (P, d), X)[1], jax.vmap(g, in_axes=(0, None))(X, d)


def values(rec, names, x64=True):
    from flowMC.resource.logPDF import LogPDF, TemperedPDF
    rng = rec.rng
    tol = 1e-12 if x64 else 2e-5
    fs = functions(rng)
    for name in names:
        a = float(rng.uniform(0.2, 2.0))
        f = fs[name](a)
        dim = int(rng.integers(1, 6))
        ds = datas(rng)
        for dn, d in [ds[0]] + [ds[i] for i in rng.permutation(range(1, len(ds)))[:2]]:
            x = jnp.asarray(rng.normal(size=dim) * 2)
            X = jnp.asarray(rng.normal(size=(5, dim)) * 2)
            if name == "wall":
                x = x.at[0].set(a - 1.0)
            rec.ev("data:" + dn)
            for cls, mk in (("LogPDF", lambda: LogPDF(f, n_dims=dim)), ("Tempered", lambda: TemperedPDF(f, lambda v, q: jnp.sum(v), n_dims=dim)),
                            ("nested", lambda: TemperedPDF(LogPDF(f, n_dims=dim), lambda v, q: 1e3 + v[0], n_dims=dim))):
                if cls == "nested" and dn == "none":
                    continue
                P = mk()
                rec.check(P.n_dims == dim, "n_dims", "n_dims", got=P.n_dims)
                for tn, got, want in transformations(P, f, x, X, d, rec):
                    gl, wl = jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)
                    rec.ev(tn)
                    rec.case(name, cls, tn, dn, np.asarray(x).tobytes())
                    for u, v in zip(gl, wl):
                        u, v = np.asarray(u), np.asarray(v)
                        rec.ev("value:-inf", np.isneginf(v).any())
                        rec.ev("value:nan", np.isnan(v).any())
                        rec.close(u, v, "unchanged", f"{cls} of {name} under {tn} differs from the user's function", rtol=tol, atol=tol, data=dn, x=x)
    rec.sample(functions=names, dim=dim, data=dn, x=x)


def tempered(rec, names, x64=True):
    from flowMC.resource.logPDF import TemperedPDF
    rng = rec.rng
    fs = functions(rng)
    tol = 1e-11 if x64 else 5e-5
    for name in names:
        f = fs[name](float(rng.uniform(0.2, 2)))
        pn = ["lam", "clos", "obj", "wall", "const"][int(rng.integers(5))]
        p = fs[pn](float(rng.uniform(0.2, 2)))
        dim = int(rng.integers(1, 5))
        P = TemperedPDF(f, p, n_dims=dim, n_temps=int(rng.integers(1, 9)))
        for dn, d in datas(rng)[:4]:
            X = rng.normal(size=(6, dim)) * 2
            X[0, 0] = 3.0
            Xj = jnp.asarray(X)
            fl = np.asarray(jax.vmap(f, in_axes=(0, None))(Xj, d), float)
            pl = np.asarray(jax.vmap(p, in_axes=(0, None))(Xj, d), float)
            gf = np.asarray(jax.vmap(jax.grad(lambda x, q: 1.0 * f(x, q)), in_axes=(0, None))(Xj, d), float)
            gp = np.asarray(jax.vmap(jax.grad(lambda x, q: 1.0 * p(x, q)), in_axes=(0, None))(Xj, d), float)
            rec.close(np.asarray(jax.vmap(P, in_axes=(0, None))(Xj, d)), fl, "untempered", "an untempered call is not the likelihood", rtol=tol, atol=tol)
            rec.close(np.asarray(jax.vmap(P.log_prior, in_axes=(0, None))(Xj, d)), pl, "prior", "log_prior is not the user's prior", rtol=tol, atol=tol)
            for T in [1.0, float(np.exp(rng.uniform(0, 5))), float(np.exp(rng.uniform(-2, 0))), 1e6]:
                with np.errstate(all="ignore"):
                    want = fl / T + pl
                    wg = gf / T + gp
                Tj = jnp.asarray(T)
                got = {"tempered": jax.vmap(P.tempered_log_pdf, in_axes=(None, 0, None))(Tj, Xj, d),
                       "tempered:python-T": jax.vmap(lambda x: P.tempered_log_pdf(T, x, d))(Xj),
                       "tempered:jit": jax.jit(jax.vmap(lambda t, x, q: P.tempered_log_pdf(t, x, q), in_axes=(None, 0, None)))(Tj, Xj, d),
                       "tempered:partial": jax.jit(jax.vmap(jax.tree_util.Partial(P.tempered_log_pdf, Tj), in_axes=(0, None)))(Xj, d),
                       "tempered:argument": jax.jit(lambda pp, t, xx, q: jax.vmap(lambda x: pp.tempered_log_pdf(t, x, q))(xx))(P, Tj, Xj, d)}
                for k, v in got.items():
                    rec.ev(k)
                    rec.close(np.asarray(v), want, "tempered", f"tempered target is not likelihood/T + prior ({k})", rtol=tol, atol=tol, T=T, likelihood=fl, prior=pl)
                    rec.case(name, pn, k, T, X.tobytes())
                if T == 1.0:
                    rec.ev("tempered:T1")
                g = jax.vmap(jax.grad(P.tempered_log_pdf, argnums=1), in_axes=(None, 0, None))(Tj, Xj, d)
                rec.close(np.asarray(g), wg, "tempered-grad", "gradient of the tempered target", rtol=tol, atol=tol, T=T)
            Ts = jnp.asarray(np.exp(rng.uniform(0, 3, 6)))
            v = jax.vmap(P.tempered_log_pdf, in_axes=(0, 0, None))(Ts, Xj, d)
            with np.errstate(all="ignore"):
                rec.close(np.asarray(v), fl / np.asarray(Ts) + pl, "tempered", "tempered target under vmap over temperatures", rtol=tol, atol=tol)
            rec.ev("tempered:vmap-T")
    rec.sample(likelihood=name, prior=pn, T=T, value=v)


def confusion(rec, rounds):
    """Targets that differ only in the function (or only in the prior, or captured constants) used through one compiled function."""
    from flowMC.resource.logPDF import LogPDF, TemperedPDF
    rng = rec.rng
    fs = functions(rng)
    calls = {
        "jit": jax.jit(lambda p, x, d: p(x, d)),
        "filter_jit": eqx.filter_jit(lambda p, x, d: p(x, d)),
        "vmap": jax.jit(lambda p, x, d: jax.vmap(p, in_axes=(0, None))(x[None], d)[0]),
        "grad": jax.jit(lambda p, x, d: jax.value_and_grad(p)(x, d)[0]),
    }
    tcalls = {
        "jit": jax.jit(lambda p, t, x, d: p.tempered_log_pdf(t, x, d)),
        "filter_jit": eqx.filter_jit(lambda p, t, x, d: p.tempered_log_pdf(t, x, d)),
        "partial": jax.jit(lambda p, t, x, d: jax.tree_util.Partial(p.tempered_log_pdf, t)(x, d)),
    }
    d = {"m": jnp.asarray(0.4)}
    for rnd in range(rounds):
        x = jnp.asarray(rng.normal(size=3) + 2.0)
        # many targets alive at once, and targets created after others were dropped
        consts = [1.0, 1.25, 1.0, 2.0]
        for name, mk in fs.items():
            if name == "nan":
                continue
            funs = [mk(c) for c in consts]
            want = [float(f(x, d)) for f in funs]
            pd = [LogPDF(f, n_dims=3) for f in funs]
            order = rng.permutation(np.repeat(np.arange(len(funs)), 2))
            for cn, call in calls.items():
                for i in order:
                    rec.ev("confusion-pairs")
                    got = float(call(pd[i], x, d))
                    rec.case("conf", name, cn, int(i), rnd, got)
                    rec.check(np.isclose(got, want[i], rtol=1e-10), "confused", f"a target of kind {name} evaluated as another under {cn}", got=got, want=want, which=i)
            pri = [fs["lam"](c) for c in (0.5, 0.7)]
            tp = [(i, j, TemperedPDF(funs[i], pri[j], n_dims=3)) for i in (0, 1) for j in (0, 1)]
            for cn, call in tcalls.items():
                for i, j, p in [tp[k] for k in rng.permutation(np.repeat(np.arange(4), 2))]:
                    T = float(rng.choice([1.0, 2.0, 5.0]))
                    got = float(call(p, jnp.asarray(T), x, d))
                    w = want[i] / T + float(pri[j](x, d))
                    rec.ev("confusion-pairs")
                    rec.case("tconf", name, cn, i, j, T, rnd)
                    rec.check(np.isclose(got, w, rtol=1e-10), "confused", f"a tempered target of kind {name} evaluated as another under {cn}", got=got, want=w, which=[i, j])
            del funs, pd, tp
    rec.sample(kinds=list(fs), constants=consts)


def strategy_confusion(rec):
    """Strategies over several targets in one process record each one's own densities."""
    from mon.steps import Steps, make_kernel
    from mon.pt import PT, Hold
    from flowMC.resource.logPDF import LogPDF
    rng = rec.rng
    kern = make_kernel("GRW", rng, 2, step=0.3)
    mk = lambda a: (lambda x, d: -a * jnp.sum(x**2) + a)  # noqa: E731
    fs = [(a, mk(a)) for a in (0.3, 0.7, 1.1)]
    one = Steps(kern, fs[0][1], 2, 4)
    for rnd in range(4):
        for a, f in [fs[i] for i in rng.permutation(3)]:
            one.logpdf = LogPDF(f, n_dims=2)
            P, L, A, last, _ = one(rec.key(), rng.normal(size=(5, 2)), {})
            rec.close(L, -a * (P**2).sum(-1) + a, "strategy-confused", "a strategy recorded another target's density", rtol=1e-9, atol=1e-9)
            rec.ev("strategy-confusion")
            rec.case("strategy", a, P.tobytes())
    # tempering over two targets: forced swaps tell which likelihood was used
    pt = PT(Hold(), fs[0][1], lambda x, d: 0.0 * x[0], 2, [1.0, 3.0], training=False)
    from flowMC.resource.logPDF import TemperedPDF
    for rnd in range(6):
        s = [1.0, -1.0][rnd % 2]
        pt.pdf = TemperedPDF((lambda s: lambda x, d: s * 1e8 * x[0])(s), lambda x, d: 0.0 * x[0], n_dims=2)
        cold, hot = rng.normal(size=(6, 2)), rng.normal(size=(6, 1, 2))
        pt.reset(hot)
        _, c2, h2, _ = pt(rec.key(), cold, {})
        want = s * hot[:, 0, 0] > s * cold[:, 0]
        rec.check((((c2 == hot[:, 0]).all(-1)) == want).all(), "strategy-confused", "tempering used another target's likelihood")
        rec.ev("strategy-confusion")
        rec.case("pt", rnd, c2.tobytes())


def constructor(rec):
    from flowMC.resource.logPDF import LogPDF, TemperedPDF, Variable
    f = lambda x, d: jnp.sum(x)  # noqa: E731
    for n in (1, 2, 7):
        P = LogPDF(f, n_dims=n)
        rec.check(P.n_dims == n and len({v.name for v in P.variables}) == n, "variables", "n_dims gives one distinct variable per dimension", got=[v.name for v in P.variables])
        V = [Variable("p%d" % i, i % 2 == 0) for i in range(n)]
        for Q in (LogPDF(f, V), LogPDF(f, variables=V, n_dims=n + 3), TemperedPDF(f, f, V), TemperedPDF(f, f, variables=V)):
            rec.check(Q.n_dims == n and [v.name for v in Q.variables] == ["p%d" % i for i in range(n)] and [v.continuous for v in Q.variables] == [i % 2 == 0 for i in range(n)],
                      "variables", "given variables are kept", got=[v.name for v in Q.variables])
            R = jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(Q)))
            rec.check(R.variables == V and R.n_dims == n, "variables", "variables kept in flattening")
            rec.ev("variables")
            rec.case("variables", type(Q).__name__, n)
        rec.check(str(n) in repr(P), "repr", "repr tells the dimension", got=repr(P))
    for cls, args in ((LogPDF, (f,)), (TemperedPDF, (f, f))):
        try:
            cls(*args)
            rec.check(False, "constructor", "%s without variables and dimension is accepted" % cls.__name__)
        except ValueError:
            rec.check(True, "constructor")
        rec.ev("constructor")


def scenarios(tier, seed):
    q = tier == "quick"
    names = ["lam", "clos", "wall", "nan", "jitted", "part", "jpart", "obj", "meth", "shape1", "const"]
    out = []
    for r in range(1 if q else 8):
        for i in range(0, len(names), 2):
            x64 = bool((i // 2 + r) % 3)
            for nm, fn in (("values", values), ("tempered", tempered)):
                s = Scn(f"{nm}-{i}-r{r}", fn, x64=x64, names=names[i:i + 2])
                s.params["x64"] = x64
                out.append(s)
        out.append(Scn(f"confusion-r{r}", confusion, rounds=1 if q else 3))
        out.append(Scn(f"strategies-r{r}", strategy_confusion))
    out.append(Scn("constructor", constructor))
    return out
