"""Target zoo: log-densities f(x, data) with data pytrees, exact samplers, start points.

The formulas are written here, independently of the repository."""
import numpy as np
import jax
import jax.numpy as jnp


class Target:
    def __init__(self, name, dim, logp, data, sampler=None, smooth=True):
        self.name, self.dim, self.logp, self.data, self.sampler, self.smooth = name, dim, logp, data, sampler, smooth

    def starts(self, rng, n, spread=1.0):
        """Start points of finite density, from the bulk to the tails."""
        x = self.sampler(rng, n)
        if self.smooth and spread != 1.0:
            x = x * spread
        return x


def mixed_starts(t, rng, n, spread=2.5):
    """Bulk, spread-out and far-out starts; second result: which are far out."""
    k, m = n // 2, n // 6
    far = t.sampler(rng, m) * np.exp(rng.uniform(np.log(4), np.log(60), m))[:, None]
    return np.concatenate([t.starts(rng, k), t.starts(rng, n - k - m, spread=spread), far]), np.arange(n) >= n - m


def scaled(t, s):
    """The target of s * x: steep for small s, nearly flat for large s."""
    if s == 1.0:
        return t
    return Target(f"{t.name}*{s}", t.dim, lambda x, data: t.logp(x / s, data), t.data, lambda r, n: s * t.sampler(r, n), t.smooth)


def shifted(t, c):
    """The target plus a constant that depends on an exact integer in the data (double precision only)."""
    return Target(f"{t.name}{c:+.0f}", t.dim, lambda x, data: (t.logp(x, data["t"]) + data["off"]) * (data["n"] % 4), dict(t=t.data, off=float(c), n=np.int64(2**53 + 1)), t.sampler, t.smooth)


def maybe_shifted(t, rng):
    return shifted(t, rng.choice([-1, 1]) * np.exp(rng.uniform(1, 9))) if rng.random() < 0.5 else t


def _cov(rng, d, cond=10.0):
    q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    e = np.exp(rng.uniform(-0.5, 0.5, d) * np.log(cond))
    return (q * e) @ q.T


def gauss(rng, d, cond=10.0):
    m = rng.normal(size=d)
    c = _cov(rng, d, cond)
    data = {"mean": m, "prec": np.linalg.inv(c)}

    def f(x, data):
        r = x - data["mean"]
        return -0.5 * r @ data["prec"] @ r
    L = np.linalg.cholesky(c)
    return Target("gauss", d, f, data, lambda r, n: m + r.normal(size=(n, d)) @ L.T)


def mixture(rng, d, sep=2.0):
    m1, m2 = rng.normal(size=d) * sep, rng.normal(size=d) * sep
    s1, s2, w = rng.uniform(0.5, 1.2), rng.uniform(0.5, 1.2), rng.uniform(0.25, 0.75)
    data = (m1, m2, np.array([s1, s2, w]))

    def f(x, data):
        a, b, p = data
        la = jnp.log(p[2]) - 0.5 * jnp.sum(((x - a) / p[0]) ** 2) - d * jnp.log(p[0])
        lb = jnp.log1p(-p[2]) - 0.5 * jnp.sum(((x - b) / p[1]) ** 2) - d * jnp.log(p[1])
        return jnp.logaddexp(la, lb)

    def smp(r, n):
        k = r.random(n) < w
        z = r.normal(size=(n, d))
        return np.where(k[:, None], m1 + s1 * z, m2 + s2 * z)
    return Target("mixture", d, f, data, smp)


def banana(rng, d, b=None):
    d = max(d, 2)
    b = rng.uniform(0.3, 1.0) if b is None else b
    s = rng.uniform(0.5, 1.2)
    data = {"curv": {"b": np.float64(b)}, "s": np.float64(s)}

    def f(x, data):
        r = (x[1] - data["curv"]["b"] * (x[0] ** 2 - 1.0)) / data["s"]
        return -0.5 * (x[0] ** 2 + r**2 + jnp.sum(x[2:] ** 2))

    def smp(r, n):
        x = r.normal(size=(n, d))
        x[:, 1] = b * (x[:, 0] ** 2 - 1) + s * x[:, 1]
        return x
    return Target("banana", d, f, data, smp)


def logistic(rng, d):
    s = rng.uniform(0.4, 1.5, d)
    m = rng.normal(size=d)
    data = [m, s]

    def f(x, data):
        u = (x - data[0]) / data[1]
        return jnp.sum(-u - 2 * jax.nn.softplus(-u))
    return Target("logistic", d, f, data, lambda r, n: m + s * r.logistic(size=(n, d)))


def student(rng, d, nu=3.0):
    data = {"nu": np.float64(nu)}

    def f(x, data):
        return -0.5 * (data["nu"] + 1) * jnp.sum(jnp.log1p(x**2 / data["nu"]))
    return Target("student", d, f, data, lambda r, n: r.standard_t(nu, size=(n, d)))


def funnel(rng, d):
    d = max(d, 2)

    def f(x, data):
        return -0.5 * x[0] ** 2 - 0.5 * jnp.sum(x[1:] ** 2) * jnp.exp(-x[0]) - 0.5 * (d - 1) * x[0]

    def smp(r, n):
        x = r.normal(size=(n, d))
        x[:, 1:] *= np.exp(0.5 * x[:, :1])
        return x
    return Target("funnel", d, f, None, smp)


def quartic(rng, d):
    """exp(-x^4/4 - c x) is sampled by fine inverse cdf; asymmetric by the linear term."""
    c = rng.uniform(0.3, 0.8)
    data = np.float64(c)

    def f(x, data):
        return jnp.sum(-0.25 * x**4 - data * x)
    g = np.linspace(-6, 6, 200001)
    p = np.exp(-0.25 * g**4 - c * g)
    cdf = np.concatenate([[0], np.cumsum(0.5 * (p[1:] + p[:-1]))])
    cdf /= cdf[-1]
    return Target("quartic", d, f, data, lambda r, n: np.interp(r.random((n, d)), cdf, g))


def gamma_wall(rng, d):
    """Gamma(k) on x>0 with a hard wall: -inf outside."""
    k = rng.uniform(1.2, 3.0)
    data = {"k": np.float64(k)}

    def f(x, data):
        ok = jnp.all(x > 0)
        xs = jnp.where(x > 0, x, 1.0)
        return jnp.where(ok, jnp.sum((data["k"] - 1) * jnp.log(xs) - xs), -jnp.inf)
    return Target("gamma_wall", d, f, data, lambda r, n: r.gamma(k, size=(n, d)), smooth=False)


def box(rng, d):
    def f(x, data):
        return jnp.where(jnp.all(jnp.abs(x - 0.3) < 1.0), 0.0, -jnp.inf)
    return Target("box", d, f, {}, lambda r, n: 0.3 + r.uniform(-1, 1, size=(n, d)), smooth=False)


def laplace(rng, d):
    def f(x, data):
        return -jnp.sum(jnp.abs(x) * data["rate"])
    rate = rng.uniform(0.5, 2.0, d)
    return Target("laplace", d, f, {"rate": rate}, lambda r, n: r.laplace(size=(n, d)) / rate, smooth=False)


SMOOTH = [gauss, mixture, banana, logistic, student, funnel, quartic]
ROUGH = [gamma_wall, box, laplace]


def test_functions(rng, d, scale=1.0):
    """Bounded functions of a batch (n, d) -> (n, k)."""
    A = rng.normal(size=(d, 6)) / scale
    b = rng.normal(size=6)
    W = rng.normal(size=(d, 4)) / scale

    def g(x):
        x = np.asarray(x, float)
        cols = [np.tanh(x @ A + b), np.cos(x @ W), np.sin(x @ W), np.tanh(x / scale), np.exp(-0.5 * (x / scale) ** 2)]
        if d > 1:
            cols.append(np.tanh((x[:, :1] * x[:, 1:]) / scale**2))
        return np.concatenate(cols, axis=1)
    return g
