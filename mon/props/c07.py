"""C07 recording of steps: random histories against an executable reference model."""
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn

RULE = ("random histories of serial/group step calls, write-position resets and state switches over several steppers and two "
        "buffer sets, compared slot by slot with a reference model after every operation; a case is one operation, "
        "distinct by (stepper configuration, start position, buffer set)")
REQUIRED = ["op:call", "op:set", "op:switch", "thinning-not-dividing", "batched", "contiguous-calls"]
ASSUMPTIONS = ["stub kernels that move by a fixed increment stand for any kernel"]


def stubs():
    from mon.pt import Hold

    class Count(Hold):
        def kernel(self, rng_key, position, log_prob, logpdf, data):
            p = position + data["inc"]
            return p, logpdf(p, data), jnp.mod(jnp.round(p[0] / data["inc"][0]), 2) == 0

    class CountGroup(Hold):
        def kernel(self, rng_key, position, log_prob, logpdf, data):
            n = data["n_steps"]
            inc = jnp.asarray(data["inc"])
            p = position + inc * jnp.arange(1, n + 1)[:, None]
            return p, jax.vmap(logpdf, in_axes=(0, None))(p, data), jnp.mod(jnp.round(p[:, 0] / inc[0]), 2) == 0
    return Count(), CountGroup()


def history(rec, n_chains, dim, cbs, n_ops, n_steppers=4, big=1):
    from flowMC.resource.logPDF import LogPDF
    from flowMC.resource.states import State
    from flowMC.resource.buffers import Buffer
    from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
    from flowMC.strategy.update_state import UpdateState
    rng = rec.rng
    serial, group = stubs()
    inc = jnp.asarray(2.0 ** rng.integers(-2, 3, dim))
    data = {"inc": inc}
    resources = {"logpdf": LogPDF(lambda x, d: 3.0 * x[0] + jnp.sum(x), n_dims=dim), "serial": serial, "group": group}
    caps = {"A": big * int(rng.integers(30, 60)), "B": big * int(rng.integers(20, 80)), "C": 25}
    model = {}
    for s, cap in caps.items():
        for nm, shp in (("pos", (n_chains, cap, dim)), ("lp", (n_chains, cap)), ("acc", (n_chains, cap)), ("gacc", (n_chains, cap))):
            resources[nm + s] = Buffer(nm + s, shp, 1)
            model[nm + s] = np.full(shp, -np.inf)
    resources["state"] = State({"p": "posA", "l": "lpA", "a": "accA", "g": "gaccA", "training": True, "k": 3}, name="state")
    resources["other_state"] = State({"p": "posC", "l": "lpC", "a": "accC", "g": "gaccC"}, name="other")
    mstate = {"p": "posA", "l": "lpA", "a": "accA", "g": "gaccA", "training": True, "k": 3}
    steppers = []
    for i in range(n_steppers):
        g = bool(i % 2)
        ns = int(rng.integers(1, 13 * big))
        th = int(rng.integers(1, 5 * (big if i == 3 else 1))) if i else 3
        if i == 0:
            ns = int(rng.choice([4, 5, 7, 8, 10, 11]))
        if ns % th:
            rec.ev("thinning-not-dividing")
        cls = TakeGroupSteps if g else TakeSerialSteps
        st = cls("logpdf", "group" if g else "serial", "state", ["p", "l", "g" if g else "a"], ns, thinning=th, chain_batch_size=cbs)
        steppers.append([st, g, ns, th, 0])
    if 1 < cbs < n_chains:
        rec.ev("batched")
    pos = rng.integers(0, 1000, (n_chains, dim)) * np.asarray(inc)
    cur = jnp.asarray(pos)
    mcur = pos.copy()
    key = rec.key()
    which = "A"
    last_end = None

    def compare(op):
        for nm, want in model.items():
            got = np.asarray(resources[nm].data)
            if got.shape != want.shape or not np.array_equal(got, want):
                bad = np.argwhere(got != want) if got.shape == want.shape else None
                rec.check(False, "record-content", "buffer content differs from the reference model", op=op, buffer=nm,
                          first_bad=None if bad is None or not len(bad) else bad[0], got_shape=got.shape,
                          got=got[0][:12], want=want[0][:12])
                return False
        rec.check(True, "record-content")
        rec.check(resources["state"].data == mstate, "state-content", "state differs from the reference model",
                  got=str(resources["state"].data), want=str(mstate))
        return True

    for it in range(n_ops):
        r = rng.random()
        if r < 0.12:
            which = "B" if which == "A" else "A"
            keys = ["p", "l", "a", "g"]
            vals = [n + which for n in ("pos", "lp", "acc", "gacc")]
            if rng.random() < 0.4:
                keys, vals = keys + ["training"], vals + [bool(rng.integers(2))]
            key, resources, cur2 = UpdateState("state", keys, vals)(key, resources, cur, data)
            rec.same(cur2, cur, "update-state-position", "UpdateState changed the positions")
            mstate.update(zip(keys, vals))
            rec.ev("op:switch")
            op = ("switch", which)
        elif r < 0.3:
            i = int(rng.integers(len(steppers)))
            p = int(rng.integers(0, 20 * big)) if rng.random() < 0.6 else 0
            if rng.random() < 0.5 and last_end is not None:
                p = last_end  # continue after the previous stepper, as bundles do
            steppers[i][0].set_current_position(p)
            steppers[i][4] = p
            rec.ev("op:set")
            op = ("set", i, p)
        else:
            i = int(rng.integers(len(steppers)))
            st, g, ns, th, p = steppers[i]
            m = -(-ns // th)
            if p + m > caps[which]:
                st.set_current_position(0)
                steppers[i][4] = p = 0
            if last_end == p and p:
                rec.ev("contiguous-calls")
            key2, resources, cur2 = st(key, resources, cur, data)
            rec.check(not np.array_equal(np.asarray(key2), np.asarray(key)), "key-advance", "a step strategy returned its own key")
            key = key2
            ks = np.arange(1, ns + 1)
            path = mcur[:, None, :] + np.asarray(inc) * ks[:, None]
            keep = path[:, ::th]
            model["pos" + which][:, p:p + m] = keep
            model["lp" + which][:, p:p + m] = 3.0 * keep[:, :, 0] + keep.sum(-1)
            model[("gacc" if g else "acc") + which][:, p:p + m] = np.mod(np.round(keep[:, :, 0] / np.asarray(inc)[0]), 2) == 0
            mcur = keep[:, -1].copy()
            cur = cur2
            steppers[i][4] = p + m
            rec.ev("op:call")
            op = ("call", "group" if g else "serial", ns, th, p, which)
            rec.check(np.array_equal(np.asarray(cur2), mcur), "returned-position", "returned position is not the last recorded one",
                      op=op, got=cur2, want=mcur)
            rec.check(st.current_position == p + m, "write-position", "write position did not advance by the samples written",
                      op=op, got=st.current_position, want=p + m)
            last_end = p + m
        rec.case(op, n_chains, cbs)
        if not compare(op):
            return
    rec.sample(n_chains=n_chains, dim=dim, batch=cbs, steppers=[(s[2], s[3], "group" if s[1] else "serial") for s in steppers], last_op=op)


def scenarios(tier, seed):
    out = []
    n = 14 if tier == "quick" else 400
    g = np.random.default_rng([seed, 7])
    for r in range(n):
        nc = int(g.integers(1, 9))
        cbs = [0, int(g.integers(2, 5)), 1, int(g.integers(2, 5))][r % 4]
        if r % 4 == 1:
            nc = max(nc, cbs + 1)
        out.append(Scn(f"history-{r}", history, n_chains=nc, dim=int(g.integers(1, 4)), cbs=cbs,
                       n_ops=70 if tier == "quick" else 150))
    for r in range(3 if tier == "quick" else 30):  # long segments, many chains
        out.append(Scn(f"large-{r}", history, n_chains=[130, 65, 300][r % 3], dim=int(g.integers(1, 4)), cbs=[64, 0, int(g.integers(2, 299))][r % 3], n_ops=16, big=[100, 30, 60][r % 3]))
    return out
