"""C19: buffers against a numpy model, over random histories of writes and reads."""
import contextlib
import io
import numpy as np
import jax
import jax.numpy as jnp
from mon.core import Scn

RULE = ("one evaluation is one operation (construction, write, read) on a buffer, compared in full with a numpy array "
        "that is written by plain slicing; distinct by (shape, cursor dimension, start, length, update content hash) "
        "or, for reads, by the content read")
REQUIRED = ["op:new", "op:write", "op:read", "write:whole", "write:single", "write:interior", "write:last", "write:overlap",
            "cursor_dim:0", "cursor_dim:1", "cursor_dim:2", "content:nan", "content:inf", "snapshot", "bundle-write",
            "check:content", "check:read-pure"]
ASSUMPTIONS = ["start index and update fit in the buffer and the update has the buffer's extent in all other dimensions "
               "(jax.lax.dynamic_update_slice clamps a start that does not fit)"]


def content(rng, shape, dtype):
    k = rng.integers(5)
    x = rng.normal(size=shape) * 10.0 ** rng.integers(-3, 4)
    if k == 1:
        x[rng.random(shape) < 0.3] = np.nan
    if k == 2:
        x[rng.random(shape) < 0.3] = -np.inf
        x[rng.random(shape) < 0.1] = np.inf
    if k == 3:
        x[...] = 0.0
        x[rng.random(shape) < 0.5] = -0.0
    return x.astype(dtype)


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def reads(rec, rng, b, name, shape, cdim, model):
    for _ in range(int(rng.integers(1, 4))):
        k = int(rng.integers(6))
        rec.ev("op:read")
        if k == 0:
            rec.check(equal(b(), model), "content", "call does not return the content", shape=shape, op="call")
        elif k == 1:
            rec.check(tuple(b.shape) == tuple(shape), "shape", "shape attribute", got=b.shape, want=shape)
        elif k == 2:
            rec.check(equal(b.data, model), "content", "data attribute", shape=shape, op="data")
        elif k == 3:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                b.print_parameters()
            rec.check(name in out.getvalue() and name in repr(b), "printed-name", "name not printed", text=out.getvalue())
        elif k == 4 and np.isfinite(model).all() and model.size:
            n = int(rng.integers(2, 20))
            h, e = b.get_distribution(n)
            h0, e0 = np.histogram(model.ravel(), bins=n)
            rec.ev("read:distribution")
            rec.check(equal(h, h0) and np.allclose(e, e0), "distribution", "histogram of the whole content", n=n, shape=shape)
        else:
            v = jax.device_get(b.data) * 2  # use of the value elsewhere
            del v
        rec.case("read", k, shape, model.tobytes()[:200])
        rec.check(equal(b.data, model), "read-pure", "a read changed the content", op=k, shape=shape)
        rec.check(b.cursor == 0 and b.cursor_dim == cdim and b.name == name, "read-pure-meta", "a read changed name, cursor or cursor dimension", op=k)


def history(rec, n_buffers, n_ops, thorough=False):
    from flowMC.resource.buffers import Buffer
    rng = rec.rng
    live = []
    for ib in range(n_buffers):
        nd = int(rng.integers(1, 4)) if ib % 5 else 4
        shape = tuple(int(v) for v in rng.integers(1, 7, nd))
        if ib % 7 == 5:
            shape = tuple(int(v) for v in rng.integers(20, 400, min(nd, 2))) + (2,) * (nd - 2)
        if ib % 7 == 3:
            shape = tuple([1] * nd)
        cdim = ib % nd
        rec.ev("cursor_dim:%d" % cdim)
        name = "buf %d/\u00e9" % ib if ib % 3 == 0 else "b%d" % ib
        b = Buffer(name, shape, cdim) if ib % 2 else Buffer(name, shape, cursor_dim=cdim)
        if cdim == 0 and ib % 4 == 0:
            b = Buffer(name, shape)
        rec.ev("op:new")
        dt = np.asarray(b.data).dtype
        model = np.full(shape, -np.inf, dt)
        rec.check(equal(b.data, model), "content", "new buffer is not minus infinity everywhere", shape=shape, got=b.data)
        rec.check(tuple(b.shape) == shape and b.cursor == 0 and b.cursor_dim == cdim and b.name == name, "new-meta",
                  "shape, cursor, cursor dimension or name of a new buffer", shape=shape, got=[b.shape, b.cursor, b.cursor_dim, b.name])
        rec.case("new", shape, cdim)
        rec.check(dt == (np.float64 if jax.config.jax_enable_x64 else np.float32), "dtype", "buffer dtype", got=dt)
        live.append([b, name, shape, cdim, model, np.zeros(shape[cdim], bool), []])
    for op in range(n_ops):
        L = live[int(rng.integers(len(live)))]
        b, name, shape, cdim, model, seen, snaps = L
        if rng.random() < 0.25:
            reads(rec, rng, b, name, shape, cdim, model)
            continue
        n = shape[cdim]
        kind = rng.integers(6)
        if kind == 0:
            ln, st = n, 0
        elif kind == 1:
            ln, st = 1, int(rng.integers(n))
        elif kind == 2:
            ln = int(rng.integers(1, n + 1)); st = n - ln
        else:
            ln = int(rng.integers(1, n + 1)); st = int(rng.integers(0, n - ln + 1))
        ush = tuple(ln if i == cdim else s for i, s in enumerate(shape))
        u = content(rng, ush, model.dtype)
        rec.ev("op:write")
        if ln == n:
            rec.ev("write:whole")
        if ln == 1:
            rec.ev("write:single")
        if st > 0 and st + ln < n:
            rec.ev("write:interior")
        if st + ln == n and st > 0:
            rec.ev("write:last")
        if seen[st:st + ln].any():
            rec.ev("write:overlap")
        if np.isnan(u).any():
            rec.ev("content:nan")
        if np.isinf(u).any():
            rec.ev("content:inf")
        if rng.random() < 0.2:
            snaps.append((b.data, model.copy()))
        before = model.copy()
        ju = jnp.asarray(u)
        form = int(rng.integers(4))
        if st == 0 and form == 0:
            b.update_buffer(ju)
        elif form == 1:
            b.update_buffer(ju, start=st)
        elif form == 2:
            b.update_buffer(ju, start=jnp.asarray(st))
        else:
            b.update_buffer(ju, st)
        sl = tuple(slice(st, st + ln) if i == cdim else slice(None) for i in range(len(shape)))
        model[sl] = u
        seen[st:st + ln] = True
        rec.case("write", shape, cdim, st, ln, u.tobytes())
        rec.check(equal(b.data, model), "content", "write of %s at %d along %d" % (ush, st, cdim), shape=shape, start=st, length=ln,
                  before=before, update=u, got=b.data, want=model)
        rec.check(equal(ju, u), "update-intact", "the update array was changed")
        rec.check(b.cursor_dim == cdim and b.name == name and tuple(b.shape) == shape, "meta", "write changed metadata")
        if op % 10 == 0:
            # every other buffer is untouched
            for M in live:
                rec.check(equal(M[0].data, M[4]), "others", "write to one buffer changed another", op=op)
    for L in live:
        for arr, m in L[6]:
            rec.ev("snapshot")
            rec.check(equal(arr, m), "snapshot-intact", "an array read earlier changed afterwards")
    if live:
        rec.sample(shape=live[0][2], cursor_dim=live[0][3], content=live[0][4])


def grid(rec):
    """Every (start, length) of every small shape and cursor dimension."""
    from flowMC.resource.buffers import Buffer
    for shape in [(5,), (4, 3), (2, 5), (2, 4, 3), (3, 1, 4), (1, 6, 1)]:
        for cdim in range(len(shape)):
            n = shape[cdim]
            rec.ev("cursor_dim:%d" % cdim)
            for st in range(n):
                for ln in range(1, n - st + 1):
                    b = Buffer("g", shape, cdim)
                    ush = tuple(ln if i == cdim else s for i, s in enumerate(shape))
                    u = rec.rng.normal(size=ush).astype(np.asarray(b.data).dtype)
                    b.update_buffer(jnp.asarray(u), st)
                    m = np.full(shape, -np.inf, u.dtype)
                    m[tuple(slice(st, st + ln) if i == cdim else slice(None) for i in range(len(shape)))] = u
                    rec.case("grid", shape, cdim, st, ln)
                    rec.ev("op:write")
                    rec.check(equal(b.data, m), "content", "write at %d of length %d along %d" % (st, ln, cdim), shape=shape, got=b.data, want=m)


def bundle(rec, kind):
    """Every update_buffer call made by a running bundle, observed and replayed on a numpy model."""
    from flowMC.resource.buffers import Buffer
    from mon import bundles as B
    from mon.targets import gauss
    rng = rec.rng
    t = gauss(rng, 2)
    orig = Buffer.update_buffer

    def watched(self, updates, start=0):
        before = np.asarray(self.data).copy()
        u = np.asarray(updates)
        orig(self, updates, start=start)
        st, c = int(start), self.cursor_dim
        if before.ndim == u.ndim and 0 <= st and st + u.shape[c] <= before.shape[c]:
            want = before.copy()
            want[tuple(slice(st, st + u.shape[c]) if i == c else slice(None) for i in range(u.ndim))] = u
            rec.ev("bundle-write")
            rec.case("bundle", self.name, st, u.tobytes()[:400])
            rec.check(equal(self.data, want), "content", "write by a strategy to %s" % self.name, start=st, shape=u.shape)
    Buffer.update_buffer = watched
    try:
        cfg = dict(n_chains=4, n_dims=2, n_local_steps=4, n_global_steps=6, n_training_loops=2, n_production_loops=2, n_epochs=2,
                   rq_spline_hidden_units=[8], rq_spline_n_bins=3, rq_spline_n_layers=2, batch_size=16, n_max_examples=32,
                   local_thinning=2, global_thinning=3, n_NFproposal_batch_size=6, mala_step_size=0.3)
        if kind == "pt":
            cfg.update(n_temperatures=3)
        B.run_bundle(rec, kind, cfg, t.logp, t.data, jnp.asarray(t.sampler(rng, 4)), watch=())
    finally:
        Buffer.update_buffer = orig


def scenarios(tier, seed):
    q = tier == "quick"
    s = []
    for x64 in (True, False):
        t = "x64" if x64 else "f32"
        s.append(Scn("grid-" + t, grid, x64=x64))
        for i in range(2 if q else 12):
            s.append(Scn("history-%s-%d" % (t, i), history, x64=x64, n_buffers=14 if q else 30, n_ops=250 if q else 2500))
    s.append(Scn("bundle-plain", bundle, kind="plain"))
    s.append(Scn("bundle-pt", bundle, kind="pt"))
    return s
