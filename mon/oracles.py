"""Oracles for Metropolis-type kernels.

The randomness behind one kernel step is recovered from the kernel's own behaviour for the
same key, without looking inside it: the proposal noise from the move it makes on a flat
target, and the uniform of the accept decision by bisection over a two-level target (0 at
the start, -c elsewhere, zero gradient), which is accepted exactly when log u < -c. With
both known, the step on any other target is predicted by an independent float64
computation."""
import numpy as np
import jax
import jax.numpy as jnp
from scipy import stats


def flat(y, data):
    return 0.0 * jnp.sum(y)


def run_kernel(kern, keys, xs, f, data, in_axes_data=None):
    """kernel on (keys, xs) with log_prob = f(x); one jit, vmapped."""
    def one(k, x, d):
        return kern.kernel(k, x, f(x, d), f, d)
    p, l, a = jax.jit(jax.vmap(one, in_axes=(0, 0, in_axes_data)))(keys, xs, data)
    return np.asarray(p), np.asarray(l), np.asarray(a)


def recover_log_u(kern, keys, xs, iters=58, cmax=60.0):
    """log u of each key, from accept decisions on a two-level target."""
    def g(y, d):
        return jnp.where(jnp.all(y == d["x0"]), 0.0, -d["c"])

    def one(k, x, c):
        d = {"x0": x, "c": c}
        p, _, a = kern.kernel(k, x, jnp.zeros(()), g, d)
        return jnp.any(p != x)
    step = jax.jit(jax.vmap(one))
    n = len(xs)
    lo, hi = np.zeros(n), np.full(n, cmax)
    for _ in range(iters):
        mid = 0.5 * (lo + hi)
        acc = np.asarray(step(keys, xs, jnp.asarray(mid)))
        lo = np.where(acc, mid, lo)
        hi = np.where(acc, hi, mid)
    return -0.5 * (lo + hi)


def noise_checks(rec, z, logu, tag):
    """z: (n, d) should be iid N(0,1); u uniform and independent of z."""
    n, d = z.shape
    u = np.exp(logu)
    s = np.sqrt(n)
    zs = [z.mean(0) * s, (z**2 - 1).mean(0) * s / np.sqrt(2), (z**3).mean(0) * s / np.sqrt(15),
          ((z**4 - 3).mean(0)) * s / np.sqrt(96), [(u - 0.5).mean() * s * np.sqrt(12)],
          [((u - 0.5) ** 2 - 1 / 12).mean() * s / np.sqrt(1 / 80 - 1 / 144)]]
    for i in range(d):
        for j in range(i + 1, d):
            zs.append([(z[:, i] * z[:, j]).mean() * s])
        zs.append([((u - 0.5) * z[:, i]).mean() * s * np.sqrt(12)])
        zs.append([((u - 0.5) * (z[:, i] ** 2 - 1)).mean() * s * np.sqrt(12) / np.sqrt(2)])
    rec.ztest(np.concatenate([np.atleast_1d(q) for q in zs]), tag + "-noise-law",
              "recovered proposal noise / uniform is not iid normal / uniform", n=n)
    for i in range(d):
        pv = stats.kstest(z[:, i], "norm").pvalue
        rec.check(pv > 1e-10, tag + "-noise-law", "noise fails KS test", p=pv)
    pv = stats.kstest(u, "uniform").pvalue
    rec.check(pv > 1e-10, tag + "-uniform-law", "accept uniform fails KS test", p=pv)
    # successive keys (threefry splits) are independent draws: no repeated noise
    rec.check(len({r.tobytes() for r in z}) == n, tag + "-noise-repeat", "two keys gave the same noise")


def tame(rec, sig, far, ratio, *vals):
    """Rows to judge: all but far-out starts at which the oracle itself overflows."""
    ok = ~far | np.all([np.isfinite(v) & (np.abs(v) < 1e12) for v in (ratio,) + vals], axis=0)
    rec.ev(sig + ":far-decisions", int((far & ok & (np.abs(ratio) > 20)).sum()))
    return ok


def check_mh(rec, sig, xs, got, y, ratio, fx, fy, logu, tol, ytol=1e-9):
    """Compare kernel outputs with the predicted Metropolis step.

    got = (positions, log_probs, flags); y proposal, ratio log acceptance ratio (NaN rejects)."""
    p, l, a = got
    a = a.astype(bool).reshape(len(xs))
    l = l.reshape(len(xs))
    should = np.where(np.isnan(ratio), False, logu < ratio)
    sure = np.isnan(ratio) | (np.abs(logu - ratio) > tol) | ~np.isfinite(ratio)
    ysc = 1.0 + np.abs(np.where(np.isfinite(y), y, 0)).max(1)
    xsame = (p == xs).all(1)
    yclose = (np.abs(p - y) <= ytol * ysc[:, None]).all(1)
    rec.ev(sig + ":decisions", int(sure.sum()))
    rec.ev(sig + ":accepted", int((sure & should).sum()))
    rec.ev(sig + ":rejected", int((sure & ~should).sum()))
    rec.ev(sig + ":skipped-near-threshold", int((~sure).sum()))

    def report(bad, what):
        if bad.any():
            i = int(np.argwhere(bad)[0][0])
            rec.check(False, sig + "-" + what, what, n_bad=int(bad.sum()), n=len(xs), x=xs[i], proposal=y[i],
                      got_position=p[i], got_logp=l[i], got_flag=bool(a[i]), log_ratio=float(ratio[i]),
                      log_u=float(logu[i]), fx=float(fx[i]), fy=float(fy[i]))
        else:
            rec.check(True, sig + "-" + what)
    report(sure & should & xsame & ~yclose, "rejected a move that must be accepted")
    report(sure & ~should & ~xsame, "accepted a move that must be rejected")
    report(sure & should & ~xsame & ~yclose, "accepted position is not the proposal")
    report(~xsame & ~yclose & ~sure, "position is neither start nor proposal")
    moved = ~xsame
    lw = np.where(moved, fy, fx)
    lt = 1e-8 * (1 + np.abs(lw))
    report((moved | sure) & ~((np.abs(l - lw) <= lt) | (l == lw)), "log-density does not match the returned position")
    report((moved != a) & ~(yclose & xsame), "acceptance flag does not match the move")


def reversible_stats(rec, sig, x, y, g):
    """Paired invariance and reversibility z-tests: x exact target draws, y after the step(s)."""
    gx, gy = g(x), g(y)
    n = len(gx)
    d = gy - gx
    sd = d.std(0)
    ok = sd > 1e-12
    z = d[:, ok].mean(0) / sd[ok] * np.sqrt(n)
    rec.ztest(z, sig + "-invariance", "the step changes expectations under the target", n=n)
    return z


def antisym_stats(rec, sig, x, y, g):
    gx, gy = g(x), g(y)
    k = gx.shape[1]
    zs = []
    n = len(gx)
    for i in range(k):
        j = (i + 1) % k
        t = gx[:, i] * gy[:, j] - gy[:, i] * gx[:, j]
        s = t.std()
        if s > 1e-12:
            zs.append(t.mean() / s * np.sqrt(n))
    rec.ztest(np.array(zs), sig + "-reversibility", "the step is not reversible with respect to the target", n=n)


def bulk_noise(rec, kern, d, tag, to_z, n=300000):
    """Law of the proposal noise and of the accept decision over many keys, tails included."""
    keys = jax.random.split(rec.key(), n)

    def one(k, c):
        x = jnp.zeros(d)

        def g(y, _):
            return jnp.where(jnp.all(y == 0.0), 0.0, -c)
        p, _, a = kern.kernel(k, x, jnp.zeros(()), g, None)
        return p, jnp.any(p != x)
    step = jax.jit(jax.vmap(one, in_axes=(0, None)))
    p, _ = step(keys, jnp.zeros(()))
    z = to_z(np.asarray(p))
    normal_law(rec, z, tag)
    accept_law(rec, lambda c: np.asarray(step(keys, jnp.asarray(c))[1]), n, tag)
    rec.distinct_rows(z[:3000], tag + "bulk")
    rec.ev("bulk-noise", n)


def normal_law(rec, z, tag):
    """z (n, d) large: iid standard normal in moments, cross moments and tails."""
    n, d = z.shape
    zs = [((z**k).mean(0) - m) / np.sqrt((v - m * m) / n) for k, m, v in ((1, 0, 1), (2, 1, 3), (3, 0, 15), (4, 3, 105))]
    zs += [[(z[:, i] * z[:, j]).mean() * np.sqrt(n)] for i in range(d) for j in range(i)]
    rec.ztest(np.concatenate(zs), tag + "-noise-law", "the noise does not have normal moments", n=n)
    for i in range(d):
        for th in (0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5):
            for s in (1, -1):
                c = int((s * z[:, i] > th).sum())
                pv = stats.binomtest(c, n, stats.norm.sf(th)).pvalue
                rec.check(pv > 1e-10, tag + "-noise-law", "the noise does not have normal tails", threshold=s * th, count=c, expected=n * stats.norm.sf(th), coordinate=i)


def accept_law(rec, accepted, n, tag):
    """accepted(c): which of n moves with log acceptance ratio -c are accepted."""
    for c in (0.05, 0.5, 1.5, 3.0, 5.0, 7.0, 9.0, 14.0):
        k = int(accepted(c).sum())
        pv = stats.binomtest(k, n, np.exp(-c)).pvalue
        rec.check(pv > 1e-10, tag + "-accept-law", "moves of log ratio -c are not accepted with probability exp(-c)", c=c, accepted=k, expected=n * np.exp(-c))
        rec.ev("accept-law-decisions", n)
