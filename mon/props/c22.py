"""C22 tempering conserves walkers: labelled walkers followed through histories of calls."""
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn
from mon.pt import PT, Hold

RULE = ("a case is one chain in one tempering call: the labelled walkers (all coordinates, bit for bit) returned and stored are compared with "
        "those before the call; distinct by likelihood values and resulting arrangement; non-trivial if the arrangement changed or a "
        "swap was possible")
REQUIRED = ["calls", "swapped-chains", "unchanged-chains", "likelihood:-inf", "likelihood:ties", "training:True", "training:False",
            "flag-switches", "forced-arrangements", "shifted-calls", "rungs:2", "rungs:many", "dims:1", "dims:many", "chains:1",
            "bundle-calls"]
ASSUMPTIONS = ["a kernel that never moves (or moves every walker by the same step) stands for local moves that do nothing",
               "pairs are visited from the cold or from the hot end"]


class Shift(Hold):
    """Moves every coordinate by exactly one."""

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        p = position + 1.0
        return p, logpdf(p, data), jnp.ones((), bool)


def rows(a):
    a = np.ascontiguousarray(a)
    return [r.tobytes() for r in a.reshape(-1, a.shape[-1])]


def walkers(rng, n, nt, d, dt):
    """Labelled walkers: first coordinate an integer label, the others arbitrary but distinct."""
    W = rng.normal(size=(n, nt, d)) * 10.0 ** rng.integers(-2, 8)
    W[..., 0] = np.arange(n * nt).reshape(n, nt)
    if d > 1 and rng.random() < 0.3:
        W[..., 1] = np.where(rng.random((n, nt)) < 0.3, -0.0, W[..., 1])
    return W.astype(dt)


def lik(x, d):
    return d["L"][jnp.round(x[0] - d["shift"]).astype(int)]


def pri(x, d):
    return jnp.cos(x[0]) * 3.0


def values(rec, rng, n, nt):
    k = int(rng.integers(6))
    L = rng.normal(size=(n, nt)) * np.exp(rng.uniform(-3, 6))
    if k == 1:
        L[rng.random((n, nt)) < 0.3] = -np.inf
        rec.ev("likelihood:-inf", np.isneginf(L).sum())
    elif k == 2:
        L = np.round(L / (np.abs(L).max() + 1e-9) * 2)
        rec.ev("likelihood:ties", n)
    elif k == 3:
        L[...] = 0.0
        rec.ev("likelihood:ties", n)
    elif k == 4:
        L = L * 1e4 - 1e6
    return L


def history(rec, n, nt, d, calls, x64=True):
    rng = rec.rng
    dt = np.float64 if x64 else np.float32
    temps = 1.0 + np.concatenate([[0], np.cumsum(rng.uniform(0.3, 4, nt - 1))])
    ns = int(rng.integers(1, 4))
    pt = PT(Hold(), lik, pri, d, temps, n_steps=ns, training=bool(rng.integers(2)))
    W = walkers(rng, n, nt, d, dt)
    pt.reset(W[:, 1:])
    cold, cur = W[:, 0], W
    key = rec.key()
    home = [set(rows(W[i])) for i in range(n)]
    for c in range(calls):
        flag = (c // 2) % 2 == 0 if c < 4 else bool(rng.integers(2))
        rec.ev("flag-switches", flag != pt.state.data["training"])
        pt.state.data["training"] = flag
        # the ladder may adapt by large factors with very few chains: keep a valid one
        if not (np.diff(np.asarray(pt.res["temps"].data)) >= 0).all():
            pt.res["temps"].update_buffer(jnp.asarray(temps, dt))
        L = values(rec, rng, n, nt).astype(dt)
        key, c2, hot, _ = pt(key, cold, {"L": jnp.asarray(L.reshape(-1)), "shift": jnp.asarray(0, dt)})
        key = jnp.asarray(key)
        new = np.concatenate([c2[:, None], hot], 1)
        rec.check(c2.shape == (n, d) and hot.shape == (n, nt - 1, d) and new.dtype == dt, "shape", "shape or type of the returned walkers", got=[c2.shape, hot.shape])
        rec.ev("calls")
        rec.ev("training:%s" % flag)
        nsw = 0
        for i in range(n):
            r = rows(new[i])
            ok = rec.check(sorted(r) == sorted(rows(cur[i])) and set(r) == home[i], "conserved",
                           "walkers of a chain were lost, duplicated, altered or mixed", chain=i, call=c, training=flag,
                           before=cur[i], after=new[i])
            if not ok:
                return
            sw = r != rows(cur[i])
            nsw += sw
            rec.case(nt, L[i].tobytes(), new[i, :, 0].tobytes())
        rec.ev("swapped-chains", nsw)
        rec.ev("unchanged-chains", n - nsw)
        cold, cur = c2, new
    rec.ev("rungs:2" if nt == 2 else "rungs:many")
    rec.ev("dims:1" if d == 1 else "dims:many")
    rec.ev("chains:1", n == 1)
    rec.sample(n_chains=n, rungs=nt, d=d, labels=cur[0, :, 0], likelihood=L[0])


def forced(rec, n, nt, d, training, x64=True):
    """Likelihood gaps so large that every decision is certain: the exact arrangement is known."""
    rng = rec.rng
    dt = np.float64 if x64 else np.float32
    temps = np.arange(1.0, nt + 1)
    pt = PT(Hold(), lik, pri, d, temps, n_steps=1, training=training)
    orders = [list(range(nt - 1)), list(reversed(range(nt - 1)))]
    mism = [[], []]
    W = walkers(rng, n, nt, d, dt)
    pt.reset(W[:, 1:])
    cur, key = W, rec.key()
    for c in range(6):
        P = np.argsort(rng.random((n, nt)), axis=1)
        Lrank = P * 1e6
        # likelihood belongs to the label, so write it where the label is
        L = np.zeros(n * nt)
        lab = np.round(cur[..., 0]).astype(int)
        L[lab.reshape(-1)] = Lrank.reshape(-1)
        pt.res["temps"].update_buffer(jnp.asarray(temps, dt))
        key, c2, hot, _ = pt(key, cur[:, 0], {"L": jnp.asarray(L.astype(dt)), "shift": jnp.asarray(0, dt)})
        key = jnp.asarray(key)
        new = np.concatenate([c2[:, None], hot], 1)
        for oi, o in enumerate(orders):
            want = cur.copy()
            LL = Lrank.copy()
            for k in o:
                do = LL[:, k + 1] > LL[:, k]
                want[do, k], want[do, k + 1] = want[do, k + 1].copy(), want[do, k].copy()
                LL[do, k], LL[do, k + 1] = LL[do, k + 1].copy(), LL[do, k].copy()
            bad = [i for i in range(n) if rows(new[i]) != rows(want[i])]
            mism[oi] += [dict(call=c, chain=i, before=cur[i, :, 0], got=new[i, :, 0], want=want[i, :, 0], likelihood=Lrank[i]) for i in bad[:2]]
        rec.ev("forced-arrangements", n)
        for i in range(n):
            rec.case("forced", nt, P[i].tobytes(), new[i, :, 0].tobytes())
        cur = new
    m = min(mism, key=len)
    rec.check(not m, "arrangement", "walkers are not where certain exchanges put them (returned: coldest; buffer: the others in order)", cases=m[:3], training=training)
    rec.ev("training:%s" % training)


def shifted(rec, n, nt, d, training):
    """Every walker moves by one per local step: after k calls every walker of every rung has moved k * n_steps."""
    rng = rec.rng
    for ns in (1, 3):
        temps = 1.0 + np.arange(nt) * 0.7
        pt = PT(Shift(), lik, pri, d, temps, n_steps=ns, training=training)
        W = np.zeros((n, nt, d))
        W[..., 0] = np.arange(n * nt).reshape(n, nt)
        W[..., 1:] = rng.integers(-50, 50, size=(n, nt, d - 1)) / 4
        pt.reset(W[:, 1:])
        cur, key = W, rec.key()
        for c in range(1, 6):
            # the local moves look labels up during the steps as well: a likelihood of the shifted label range
            L = rng.normal(size=n * nt + 5 * ns + 10)
            pt.res["temps"].update_buffer(jnp.asarray(temps))
            key, c2, hot, _ = pt(key, cur[:, 0], {"L": jnp.asarray(L), "shift": jnp.asarray(0.0)})
            key = jnp.asarray(key)
            new = np.concatenate([c2[:, None], hot], 1)
            for i in range(n):
                rec.check(sorted(rows(new[i])) == sorted(rows(cur[i] + ns)), "continues", "the next call does not continue from the walkers of the one before",
                          chain=i, call=c, n_steps=ns, before=cur[i], after=new[i], training=training)
                rec.case("shift", nt, ns, c, new[i].tobytes())
            rec.ev("shifted-calls")
            cur = new


def bundle(rec, training_loops):
    """In a running bundle, each tempering call starts from the walkers of the previous one and of the previous steps."""
    from mon import bundles as B
    from mon.targets import gauss
    rng = rec.rng
    t = gauss(rng, 2)
    cfg = dict(n_chains=4, n_dims=2, n_local_steps=3, n_global_steps=4, n_training_loops=training_loops, n_production_loops=2, n_epochs=1,
               rq_spline_hidden_units=[6], rq_spline_n_bins=3, rq_spline_n_layers=2, batch_size=16, n_max_examples=32, mala_step_size=0.3,
               n_temperatures=4, n_tempered_steps=2)
    seen = []

    def on(e, res):
        if "tempered_positions" in e.before and e.name == "parallel_tempering":
            a, b = e.before["tempered_positions"][2], e.after["tempered_positions"][2]
            if seen:
                rec.check(np.array_equal(a, seen[-1]), "bundle-continues", "stored walkers changed between two tempering calls")
            seen.append(b)
            rec.ev("bundle-calls")
            rec.case("bundle", a.tobytes(), b.tobytes())
            m = (a != b).any(-1).mean()
            rec.note_max("bundle_moved", m)
            rec.check(m > 0, "bundle-moves", "no stored walker changed in a tempering call of a bundle", call=len(seen), training=e.before)
    run = B.run_bundle(rec, "pt", cfg, t.logp, t.data, jnp.asarray(t.sampler(rng, 4)), watch=("tempered_positions", "temperatures"), on_event=on)
    return run


def scenarios(tier, seed):
    q = tier == "quick"
    out = []
    for r in range(1 if q else 8):
        for n, nt, d in ((1, 2, 1), (5, 3, 2), (20, 4, 3), (3, 8, 1), (40, 2, 5), (1, 5, 2), (150, 3, 2), (3, 24, 2)):
            x64 = bool((n + nt + r) % 2)
            out.append(Scn(f"history-{n}-{nt}-{d}-r{r}", history, x64=x64, n=n, nt=nt, d=d, calls=(60 if n * nt < 100 else 12) if q else 300, **({} if x64 else {})))
            out[-1].params["x64"] = x64
        for nt in (2, 3, 6):
            for tr in (True, False):
                x64 = bool((nt + tr + r) % 2)
                s = Scn(f"forced-{nt}-{tr}-r{r}", forced, x64=x64, n=60, nt=nt, d=2, training=tr)
                s.params["x64"] = x64
                out.append(s)
        for tr in (True, False):
            out.append(Scn(f"shifted-{tr}-r{r}", shifted, n=6, nt=4, d=3, training=tr))
        out.append(Scn(f"bundle-r{r}", bundle, training_loops=1 + r % 3))
    return out
