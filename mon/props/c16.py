"""C16 flow training returns the best epoch and uses each batch as documented."""
import numpy as np
import jax
import jax.numpy as jnp
import optax
import equinox as eqx
from mon.core import Scn
from mon.flows import make_flow, set_stats
from mon.stubs import StubNF, scripted, logging_optimizer, flat_arrays, best_epochs

RULE = ("training of a stub flow with one parameter per example and scripted losses (falling, rising, flat, NaN, inf), and of real flows, "
        "with an optimizer whose state logs every gradient and parameter set; a case is one training step, distinct by its batch, "
        "non-trivial if the best epoch is not the last")
REQUIRED = ["steps", "trainings", "nan-epochs", "none-qualifies", "best-not-last", "all-data-batch", "dropped-remainder", "real-trainings", "zero-epochs", "many-epochs"]
ASSUMPTIONS = ["losses below 1e9, the repository's stated initial best loss"]


def stub(rec, reps, big=False):
    rng = rec.rng
    for rep in range(reps):
        N = int(rng.integers(4, 40))
        B = int(rng.choice([1, 2, 3, 5, N // 2 + 1, N - 1, N, N + 1, N + 20]))
        B = max(B, 1)
        if rep in (0, 3):
            N, B = [(9, 20), (13, 4)][rep % 2]
        E = int(rng.integers(1, 8))
        if big:
            N, E = int(rng.integers(200, 900)), int(rng.integers(25, 60))
            B = int(rng.integers(N // 9, N // 3)) if rep else N + 50
            if rep == 2:  # many epochs, each worse than the one before
                N, B, E = 40, int(rng.integers(12, 20)), int(rng.integers(130, 200))
                rec.ev("many-epochs")
        per = max(1, N // B)
        S = per * E
        kind = rep % 7 if not big else [0, 3, 1][rep % 3]
        script = rng.normal(size=S + 1) * 5
        if kind == 1:
            script = np.linspace(5, 0, S + 1)
        elif kind == 2:
            script = np.linspace(0, 5, S + 1)
        elif kind == 3:
            script[rng.random(S + 1) < 0.4] = np.nan
        elif kind == 4:
            script[:] = np.nan
        elif kind == 5:
            script[rng.random(S + 1) < 0.3] = -np.inf  # loss +inf
            script[rng.random(S + 1) < 0.3] = np.nan
        elif kind == 6:
            script[:] = -1e8 + np.arange(S + 1) % 3
        table0 = rng.normal(size=N) * 0.1
        delta = rng.normal(size=(S, N)) * 0.1
        m = StubNF(table0, script)
        opt = logging_optimizer(scripted(delta), S + 3)
        st0 = opt.init(eqx.filter(m, eqx.is_inexact_array))
        data = np.stack([np.arange(N), rng.normal(size=N)], 1)
        data = data[rng.permutation(N)]
        key = rec.key()
        jd = jnp.asarray(data)
        k2, best, state, losses = m.train(key, jd, opt, st0, E, B, verbose=False)
        losses = np.asarray(losses)
        rec.ev("trainings")
        rec.check(losses.shape == (E,), "loss-number", "not one recorded loss per epoch", got=losses.shape, epochs=E)
        rec.check(np.array_equal(np.asarray(jd), data) and np.array_equal(np.asarray(m.table), table0), "inputs-modified", "training modified its data or the model it was called on")
        rec.check(not np.array_equal(np.asarray(k2), np.asarray(key)), "key", "training returned the key it was given")
        # the complete log comes from a second training with the same key that selects the last epoch; here reconstruct from a twin
        script2 = np.arange(S + 1) * 50.0 * 1.0  # loss falls every epoch: the returned state is the last one
        m2 = StubNF(table0, script2)
        _, _, full, losses2 = m2.train(key, jd, opt, st0, E, B, verbose=False)
        ncount = int(full["count"])
        rec.check(ncount == S, "steps-number", "number of training steps is not epochs times full batches", steps=ncount, want=S, N=N, batch=B, epochs=E)
        G = np.asarray(full["grads"])[:ncount]
        order = [k for k in ("data_mean", "table")]
        # table gradients are those leaves of size N: locate by the flattening order of the model
        lay = layout(m2)
        T = G[:, lay["table"]]
        batches = []
        for g in T:
            w = -g
            size = np.count_nonzero(w)
            rec.check(np.allclose(w[w != 0], 1.0 / (B if N >= B else N), rtol=1e-6), "batch-gradient", "the gradient is not that of the mean over one batch of distinct examples",
                      weights=w[w != 0][:5], N=N, batch=B)
            batches.append(frozenset(np.flatnonzero(w).tolist()))
            want = B if N >= B else N
            rec.check(size == want, "batch-size", "a training step did not use a full batch", used=size, want=want, N=N, batch=B)
            rec.ev("steps")
            rec.case("stub", tuple(sorted(batches[-1])), float(table0[0]), nontrivial=True)
        if N < B:
            rec.ev("all-data-batch")
        elif N % B:
            rec.ev("dropped-remainder")
        if ncount == S:
            for e in range(E):
                bs = batches[e * per:(e + 1) * per]
                rec.check(sum(len(b) for b in bs) == len(frozenset().union(*bs)), "batches-overlap", "batches of one epoch overlap", epoch=e, N=N, batch=B)
            # recorded losses, from the batches and the scripted parameters
            tab = table0 + np.concatenate([np.zeros((1, N)), np.cumsum(delta, 0)])
            want = np.array([-(tab[(e + 1) * per - 1][sorted(batches[(e + 1) * per - 1])].mean() + script[(e + 1) * per - 1]) for e in range(E)])
            rec.close(losses, want, "recorded-loss", "a recorded loss is not the mean negative log-density of the epoch's batch under the current model", rtol=1e-9, atol=1e-9,
                      N=N, batch=B, epochs=E)
            rec.close(np.asarray(losses2), np.array([-(tab[(e + 1) * per - 1][sorted(batches[(e + 1) * per - 1])].mean() + script2[(e + 1) * per - 1]) for e in range(E)]),
                      "recorded-loss", "a recorded loss is not the mean negative log-density of the epoch's batch", rtol=1e-9, atol=1e-9)
            be = best_epochs(losses)
            cnt, s_, tb = int(state["count"]), float(best.s), np.asarray(best.table)
            if np.isnan(losses).any():
                rec.ev("nan-epochs")
            if be is None:
                rec.ev("none-qualifies")
                rec.check(cnt == 0 and s_ == 0 and np.array_equal(tb, table0), "none-qualifies", "no epoch qualifies but a changed model or state was returned",
                          losses=losses, steps=cnt, model_steps=s_)
            else:
                ends = [(int(b) + 1) * per for b in be]
                rec.check(s_ in ends and np.allclose(tb, tab[int(s_)], rtol=1e-12, atol=1e-12), "best-model", "the returned model is not that of the end of the epoch with the lowest loss",
                          losses=losses, returned_after_steps=s_, best_ends=ends, per_epoch=per)
                rec.check(cnt == s_, "best-state", "the returned optimizer state is not that of the returned model", state_steps=cnt, model_steps=s_, losses=losses)
                if ends[-1] != S:
                    rec.ev("best-not-last")
                mean, cov = data.mean(0), np.cov(data.T)
                rec.close(best.data_mean, mean, "data-mean", "the data mean is not that of the training data", rtol=1e-9, atol=1e-9)
                rec.close(best.data_cov, cov, "data-cov", "the data covariance is not that of the training data", rtol=1e-9, atol=1e-9)
    rec.sample(N=N, batch=B, epochs=E, losses=losses, batches=[sorted(b) for b in batches[:3]], returned_steps=s_ if be is not None else 0)


def layout(model):
    out, at = {}, 0
    fl, _ = jax.tree_util.tree_flatten_with_path(eqx.filter(model, eqx.is_inexact_array))
    for p, v in fl:
        out[str(getattr(p[-1], "name", p[-1]))] = slice(at, at + v.size)
        at += v.size
    return out


def order(rec):
    """The order is fresh and uniform: which examples are left out, who shares a batch, who comes first."""
    rng = rec.rng
    N, B, E = 11, 3, 60
    per = N // B
    S = per * E
    m = StubNF(np.zeros(N), np.arange(S + 1) * 1.0)
    opt = logging_optimizer(scripted(np.zeros((S, N))), S)
    data = np.stack([np.arange(N), rng.normal(size=N)], 1)
    used = np.zeros(N)
    pair = np.zeros((N, N))
    first = np.zeros(N)
    n = 0
    K = 12 if rec.tier == "quick" else 40
    last = None
    for _ in range(K):
        _, _, full, _ = m.train(rec.key(), jnp.asarray(data), opt, opt.init(eqx.filter(m, eqx.is_inexact_array)), E, B, verbose=False)
        T = -np.asarray(full["grads"])[:, layout(m)["table"]] > 0
        T = T.reshape(E, per, N).astype(int)
        rec.distinct.update("o%x" % int("".join(map(str, q)), 2) for q in T.reshape(-1, N))
        eps = [tuple(np.flatnonzero(b).tolist() for b in e) for e in T]
        rec.check(len({str(e) for e in eps}) > E // 2, "order-repeats", "epochs use the same batches again", distinct=len({str(e) for e in eps}), epochs=E)
        if last is not None:
            rec.check(str(eps) != last, "order-repeats", "another key gave the same batches")
        last = str(eps)
        used += T.any(1).sum(0)
        first += T[:, 0].sum(0)
        pair += np.einsum("esi,esj->ij", T, T)
        n += E
        rec.ev("steps", S)
        rec.cases += S
    p = per * B / N
    rec.ztest((used - n * p) / np.sqrt(n * p * (1 - p)), "order-uniform", "some examples are left out more often than others", used=used)
    p = B / N
    rec.ztest((first - n * p) / np.sqrt(n * p * (1 - p)), "order-uniform", "some examples come first more often than others", first=first)
    iu = np.triu_indices(N, 1)
    p = per * B * (B - 1) / (N * (N - 1))
    rec.ztest((pair[iu] - n * p) / np.sqrt(n * p * (1 - p)), "order-uniform", "some examples share a batch more often than others")
    rec.sample(used=used, first=first, epochs=n)
    rec.ev("trainings", K)


def real(rec, kind, opt_name, reps):
    rng = rec.rng
    for _ in range(reps):
        d = int(rng.integers(1, 4))
        m = make_flow(rng, kind, d, scale=0.1, layers=2, bins=3, hidden=4)
        N, B, E = int(rng.integers(10, 60)), int(rng.integers(4, 30)), int(rng.integers(2, 9))
        data = rng.normal(size=(N, d)) * np.exp(rng.uniform(-2, 2, d)) + rng.normal(size=d) * 3
        inner = dict(adam=optax.adam(0.3), sgd=optax.sgd(0.05), bad=optax.sgd(-0.05), clip=optax.chain(optax.clip_by_global_norm(1.0), optax.adamw(0.05)))[opt_name]
        per = max(1, N // B)
        opt = logging_optimizer(inner, per * E + 2)
        p0 = eqx.filter(m, eqx.is_inexact_array)
        st0 = opt.init(p0)
        key = rec.key()
        _, best, state, losses = m.train(key, jnp.asarray(data), opt, st0, E, B, verbose=False)
        losses = np.asarray(losses)
        be = best_epochs(losses)
        c = int(state["count"])
        if be is None:
            rec.check(c == 0, "none-qualifies", "no epoch qualifies but a changed state was returned", losses=losses)
            continue
        ends = [(int(b) + 1) * per for b in be]
        rec.check(c in ends, "best-state", "the returned optimizer state is not that of the epoch with the lowest loss", losses=losses, steps=c, best_ends=ends)
        if c > 0:
            rec.close(np.asarray(flat_arrays(best)), np.asarray(state["after"])[c - 1], "best-model", "the returned model is not the one the returned state belongs to", rtol=1e-9, atol=1e-12)
        if ends[-1] != per * E:
            rec.ev("best-not-last")
        # the first recorded loss, when the epoch is one step: the mean negative log-density of the data under the given flow, whitened by them
        mm = set_stats(m, jnp.mean(jnp.asarray(data), 0), jnp.cov(jnp.asarray(data).T))
        if N < B or B == N:
            rec.close(losses[0], -np.mean(np.asarray(jax.vmap(mm.log_prob)(jnp.asarray(data)))), "recorded-loss", "the loss is not the mean negative log-density", rtol=1e-6, atol=1e-6)
        # gradients are those of the mean negative log-density
        mm2, _, state2, l2 = m.train(key, jnp.asarray(data), opt, st0, 1, N, verbose=False)
        want = -np.mean(np.asarray(jax.vmap(mm.log_prob)(jnp.asarray(data))))
        rec.close(np.asarray(l2)[0], want, "recorded-loss", "the loss of one batch with all data is not their mean negative log-density", rtol=1e-6, atol=1e-6)
        if int(state2["count"]) == 1:
            a, s = eqx.partition(mm, eqx.is_inexact_array)
            g = jax.grad(lambda q: -jnp.mean(jax.vmap(eqx.combine(q, s).log_prob)(jnp.asarray(data))))(a)
            rec.close(np.asarray(state2["grads"])[0], np.asarray(flat_arrays(g)), "gradient", "the gradient is not that of the mean negative log-density", rtol=1e-6, atol=1e-8)
        rec.ev("real-trainings")
        rec.ev("steps", per * E)
        rec.case(kind, opt_name, float(losses[0]), nontrivial=True)
    z = m.train(rec.key(), jnp.asarray(data), opt, st0, 0, B, verbose=False)
    rec.check(np.asarray(z[3]).shape == (0,) and int(z[2]["count"]) == 0 and np.array_equal(np.asarray(flat_arrays(z[1])), np.asarray(flat_arrays(m))), "zero-epochs",
              "training for no epochs changed something")
    rec.ev("zero-epochs")
    rec.sample(kind=kind, optimizer=opt_name, losses=losses, returned_steps=c, per_epoch=per)


def scenarios(tier, seed):
    out = []
    for r in range(1 if tier == "quick" else 12):
        for v in range(3):
            out.append(Scn(f"stub-{v}-r{r}", stub, reps=7))
        out.append(Scn(f"large-r{r}", stub, reps=3, big=True))
        out.append(Scn(f"order-r{r}", order))
        for k in ("realnvp", "rqspline"):
            for o in ("adam", "bad", "clip") if tier == "quick" else ("adam", "sgd", "bad", "clip"):
                out.append(Scn(f"real-{k}-{o}-r{r}", real, kind=k, opt_name=o, reps=2))
    return out
