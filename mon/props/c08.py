"""C08 chain isolation and chain batching."""
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn
from mon import targets as T
from mon.flows import make_flow
from mon.steps import Steps, make_kernel

RULE = ("metamorphic twins of step-strategy calls: other chains' starts replaced (far away, forbidden, NaN), and every chain batch "
        "size against the unbatched run; a case is one compared chain record, distinct by its content, non-trivial if the chain moved")
REQUIRED = ["isolation-pairs", "batch-pairs", "batch-with-remainder"]
ASSUMPTIONS = ["same key and same number of chains give the same per-chain randomness"]


def twins(rec, kname, reps, x64, big=False):
    rng = rec.rng
    tol = 1e-9 if x64 else 2e-3
    for _ in range(reps):
        n = int(rng.integers(130, 280)) if big else int(rng.integers(2, 12))
        t = [T.mixture, T.banana, T.logistic, T.gamma_wall][rng.integers(4)](rng, int(rng.integers(1, 4)))
        d = t.dim
        ns = int(rng.integers(30, 200)) if big and kname != "NF" else int(rng.integers(2, 12))
        model = make_flow(rng, "rqspline", d, scale=0.2, whiten=False, layers=2, bins=4) if kname == "NF" else None
        kern = make_kernel(kname, rng, d, step=float(rng.uniform(0.2, 0.6)), model=model, batch=int(rng.integers(1, 14)))
        data = {"t": t.data}
        f = lambda x, dd: t.logp(x, dd["t"])  # noqa: E731
        xs = t.sampler(rng, n)
        if not x64:
            xs = xs.astype(np.float32)
        key = rec.key()
        th = int(rng.integers(1, 4))
        st = Steps(kern, f, d, ns, group=kname == "NF", thinning=th)
        ref = st(key, xs, data)
        rec.check(ref[0].shape[0] == n, "rows", "number of recorded chains")
        # isolation
        for how in ("far", "nan", "other", "permute-others"):
            i = int(rng.integers(n))
            ys = xs.copy()
            o = np.arange(n) != i
            if how == "far":
                ys[o] = 1e3
            elif how == "nan":
                ys[o] = np.nan
            elif how == "other":
                ys[o] = t.sampler(rng, n)[o]
            else:
                ys[o] = ys[o][rng.permutation(n - 1)]
            got = st(key, ys, data)
            for q in range(3):
                rec.close(got[q][i], ref[q][i], "isolation", "changing other chains changed a chain's record", rtol=tol, atol=tol,
                          kernel=kname, how=how, chain=i, n_chains=n, target=t.name)
            rec.close(got[3][i], ref[3][i], "isolation", "changing other chains changed a chain's returned position", rtol=tol, atol=tol)
            rec.ev("isolation-pairs")
            rec.case(kname, how, got[0][i].tobytes(), nontrivial=bool((got[2][i] > 0).any()))
        # the own start matters
        ys = xs.copy()
        ys[0] = t.sampler(rng, 1)[0]
        # batching
        for cbs in sorted({32, 64, 100, 128, n // 2, n - 1, int(rng.integers(16, n + 1))} if big else {1, 2, 3, n - 1, n, n + 3, int(rng.integers(2, n + 1))}):
            if cbs < 1:
                continue
            sb = Steps(kern, f, d, ns, group=kname == "NF", thinning=th, chain_batch_size=int(cbs))
            got = sb(key, xs, data)
            for q, nm in enumerate(("positions", "log_probs", "flags", "returned")):
                rec.close(got[q], ref[q], "batching-" + nm, "chain batching changed the record", rtol=tol, atol=tol,
                          kernel=kname, n_chains=n, batch=int(cbs), target=t.name)
            rec.same(got[4], ref[4], "batching-key", "chain batching changed the returned key")
            rec.ev("batch-pairs")
            if 1 < cbs < n and n % cbs:
                rec.ev("batch-with-remainder")
            rec.case(kname, n, cbs, got[0].tobytes())
    rec.sample(kernel=kname, n_chains=n, n_steps=ns, thinning=th, target=t.name, first_chain=ref[0][0][:3])


def scenarios(tier, seed):
    out = []
    for r in range(1 if tier == "quick" else 15):
        for k in ("MALA", "HMC", "GRW", "NF"):
            for v in range(2):
                out.append(Scn(f"twins-{k}-{v}-r{r}", twins, kname=k, reps=2 if k != "NF" else 1))
                out[-1].params["x64"] = True
        for k in (["GRW", "NF"] if tier == "quick" else ["GRW", "MALA", "HMC", "NF"]):
            out.append(Scn(f"large-{k}-r{r}", twins, kname=k, reps=1, big=True))
            out[-1].params["x64"] = True
        out.append(Scn(f"twins-f32-r{r}", twins, x64=False, kname="GRW", reps=1))
        out[-1].params["x64"] = False
    return out
