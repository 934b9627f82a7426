"""C20: save / load round trips, compared bit for bit and by behaviour."""
import contextlib
import hashlib
import io
import os
import tempfile
import numpy as np
import jax
import jax.numpy as jnp
import equinox as eqx
from mon.core import Scn
from mon import flows

RULE = ("one evaluation is one save followed by one load, with everything observable of the loaded resource compared with the "
        "saved one; distinct by content hash, name and kind of the saved resource")
REQUIRED = ["kind:buffer", "kind:state", "kind:realnvp", "kind:rqspline", "kind:fm", "content:nan", "content:inf", "content:partial",
            "content:empty", "content:negzero", "buffer:cursor", "buffer:cursor_dim", "state:bool", "state:int", "state:str", "state:empty",
            "model:trained", "model:scrambled", "model:extreme", "train-from-loaded", "steps-into-loaded", "append-at-cursor",
            "check:buffer-data", "check:state-data", "check:model-leaf", "check:model-sample", "check:model-log-prob", "bundle-resource"]
ASSUMPTIONS = ["names are valid file names; a buffer or state is loaded from the file that saving it created, a model from the path given "
               "to save_model, into a model constructed with the same configuration (other parameters)",
               "saving and loading run in the same precision mode"]
NAMES = ["buf", "local samples", "a.b", "x_1-2", "\u00e9\u4e2d", "UPPER", "n.npz", "0", "with 'quote'", "tab\tname", "end "]


def digest(path):
    return hashlib.sha256(open(path, "rb").read()).hexdigest()


def scratch():
    return tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH") or None)


def saved_file(rec, d, fn):
    """Call fn (a save) and return the one file it created."""
    before = set(os.listdir(d))
    fn()
    new = sorted(set(os.listdir(d)) - before)
    rec.check(len(new) == 1, "one-file", "saving one resource did not create exactly one file", new=new)
    return os.path.join(d, new[0]) if new else None


def content(rec, rng, shape, dt):
    k = int(rng.integers(7))
    x = (rng.normal(size=shape) * 10.0 ** rng.integers(-5, 6)).astype(dt)
    if k == 1:
        x[rng.random(shape) < 0.4] = np.nan
        rec.ev("content:nan", np.isnan(x).any())
    elif k == 2:
        x[rng.random(shape) < 0.4] = np.inf
        x[rng.random(shape) < 0.4] = -np.inf
        rec.ev("content:inf", np.isinf(x).any())
    elif k == 3:
        x[rng.random(shape) < 0.5] = -0.0
        rec.ev("content:negzero", (np.signbit(x) & (x == 0)).any())
    elif k == 4:
        x = np.ldexp(rng.random(shape), rng.integers(-120, 120, shape)).astype(dt)
    elif k == 5:
        fi = np.finfo(dt)
        x[...] = rng.choice([fi.max, fi.min, fi.tiny, fi.eps, 1 + fi.eps], size=shape)
    return x


def buffers(rec, n):
    from flowMC.resource.buffers import Buffer
    rng = rec.rng
    for i in range(n):
        rec.ev("kind:buffer")
        nd = 1 + i % 3
        shape = tuple(int(v) for v in rng.integers(1, 6, nd))
        if i % 11 == 5:
            shape = (0,) + shape[1:]
            rec.ev("content:empty")
        cdim = int(rng.integers(nd))
        rec.ev("buffer:cursor_dim", cdim > 0)
        name = NAMES[i % len(NAMES)]
        b = Buffer(name, shape, cdim)
        dt = np.asarray(b.data).dtype
        if i % 4 and 0 not in shape:
            m = shape[cdim] if i % 4 == 1 else int(rng.integers(1, shape[cdim] + 1))
            st = int(rng.integers(0, shape[cdim] - m + 1))
            rec.ev("content:partial", m < shape[cdim])
            b.update_buffer(jnp.asarray(content(rec, rng, tuple(m if j == cdim else s for j, s in enumerate(shape)), dt)), st)
            b.cursor = int(rng.integers(0, shape[cdim] + 1))
            rec.ev("buffer:cursor", b.cursor > 0)
        want = np.asarray(b.data).copy()
        cur = b.cursor
        with scratch() as d:
            other = Buffer("other", (2,), 0)
            prefix = d + "/" + ["", "run_", "dir.v1_"][i % 3]
            fo = saved_file(rec, d, lambda: other.save_resource(prefix))
            f = saved_file(rec, d, lambda: b.save_resource(prefix))
            rec.check(np.asarray(b.data).tobytes() == want.tobytes() and b.cursor == cur and b.name == name and b.cursor_dim == cdim,
                      "save-pure", "saving changed the buffer")
            h = digest(f)
            tmpl = [b, Buffer("t", (3, 2), 1), Buffer("t", shape, 0)][i % 3]
            tb, tn, tc, tcd = np.asarray(tmpl.data).copy(), tmpl.name, tmpl.cursor, tmpl.cursor_dim
            l = tmpl.load_resource(f)
            rec.check(np.asarray(tmpl.data).tobytes() == tb.tobytes() and tmpl.data.shape == tb.shape and (tmpl.name, tmpl.cursor, tmpl.cursor_dim) == (tn, tc, tcd),
                      "load-pure", "loading changed the object it was called on")
            rec.check(digest(f) == h and digest(fo), "file-intact", "loading changed the file")
            rec.case("buffer", name, shape, cdim, want.tobytes(), cur)
            got = np.asarray(l.data)
            rec.check(isinstance(l, Buffer), "type", "loaded object is not a buffer", got=type(l))
            rec.check(got.shape == want.shape and got.dtype == want.dtype and got.tobytes() == want.tobytes(), "buffer-data",
                      "loaded data differ", got=got, want=want, name=name)
            rec.check(str(l.name) == name and isinstance(l.name, str), "buffer-name", "loaded name differs", got=repr(l.name), want=repr(name))
            rec.check(l.cursor == cur and l.cursor_dim == cdim, "buffer-cursor", "loaded cursor or cursor dimension differs",
                      got=[l.cursor, l.cursor_dim], want=[cur, cdim])
            rec.check(tuple(l.shape) == shape and np.asarray(l()).tobytes() == want.tobytes(), "buffer-read", "reads of the loaded buffer")
            # the loaded buffer behaves as the original under the same writes, and writes to it reach only it
            if 0 not in shape:
                for _ in range(3):
                    m = int(rng.integers(1, shape[cdim] + 1)); st = int(rng.integers(0, shape[cdim] - m + 1))
                    u = jnp.asarray(rng.normal(size=tuple(m if j == cdim else s for j, s in enumerate(shape))).astype(dt))
                    keep = np.asarray(b.data).tobytes()
                    l.update_buffer(u, st)
                    rec.check(np.asarray(b.data).tobytes() == keep, "independent", "a write to the loaded buffer changed the saved one")
                    b.update_buffer(u, st)
                    rec.check(np.asarray(l.data).tobytes() == np.asarray(b.data).tobytes(), "write-loaded", "a write to the loaded buffer differs from one to the original")
                with contextlib.redirect_stdout(io.StringIO()) as o:
                    l.print_parameters()
                # second generation
                f2 = saved_file(rec, d, lambda: setattr(l, "name", "second") or l.save_resource(d + "/g2"))
                l2 = b.load_resource(f2)
                rec.check(np.asarray(l2.data).tobytes() == np.asarray(l.data).tobytes() and l2.cursor == cur and l2.cursor_dim == cdim and str(l2.name) == "second",
                          "second-generation", "second save / load differs")
                # overwriting a file
                b.cursor = cur
                b.save_resource(prefix)
                l3 = l.load_resource(f)
                rec.check(np.asarray(l3.data).tobytes() == np.asarray(b.data).tobytes(), "overwrite", "saving again did not replace the file's content")
        if i < 2:
            rec.sample(kind="buffer", name=name, shape=shape, cursor=cur, cursor_dim=cdim, data=want)


def states(rec, n):
    from flowMC.resource.states import State
    rng = rec.rng
    words = ["positions_training", "", "True", "1", "\u00e9\u4e2d", "a b", "None", "x" * 300, "new\nline"]
    for i in range(n):
        rec.ev("kind:state")
        data = {}
        for j in range([0, 1, 3, 8][i % 4]):
            k = words[int(rng.integers(len(words)))] + str(j) if j % 2 else "key%d" % j
            t = (i + j) % 3
            v = [bool(rng.integers(2)), int(rng.choice([0, 1, -1, 2**31, -2**63, 10**25, 7])), str(rng.choice(words))][t] if t != 1 else \
                [0, 1, -1, 2**31, -2**63, 10**25, 7][int(rng.integers(7))]
            data[k] = v
            rec.ev("state:" + type(v).__name__)
        if not data:
            rec.ev("state:empty")
        name = NAMES[i % len(NAMES)]
        s = State(dict(data), name=name)
        with scratch() as d:
            prefix = d + "/" + ["", "run_", "dir.v1_"][i % 3]
            neighbour = State({"n": "neighbour"}, name="neighbour")
            fo = saved_file(rec, d, lambda: neighbour.save_resource(prefix))
            f = saved_file(rec, d, lambda: s.save_resource(prefix))
            rec.check(s.load_resource(fo).data == neighbour.data, "neighbour", "saving a state replaced the file of another one")
            rec.check(s.data == data and s.name == name, "save-pure", "saving changed the state")
            h = digest(f)
            tmpl = [s, State({"x": 1}, name="t")][i % 2]
            td, tn = dict(tmpl.data), tmpl.name
            l = tmpl.load_resource(f)
            rec.check(tmpl.data == td and tmpl.name == tn, "load-pure", "loading changed the object it was called on", got=tmpl.data, want=td)
            rec.check(digest(f) == h, "file-intact", "loading changed the file")
            rec.case("state", name, repr(sorted(data.items())))
            rec.check(isinstance(l, State), "type", "loaded object is not a State")
            rec.check(isinstance(l.data, dict) and l.data == data and list(l.data) == list(data) and all(type(l.data[k]) is type(data[k]) for k in data),
                      "state-data", "loaded entries differ", got=repr(l.data), want=repr(data))
            rec.check(str(l.name) == name and isinstance(l.name, str), "state-name", "loaded name differs", got=repr(l.name), want=repr(name))
            with contextlib.redirect_stdout(io.StringIO()):
                l.update(["new", "key0"], [True, "v"])
            rec.check(l.data["new"] is True and l.data["key0"] == "v" and "new" not in s.data, "state-update", "update of a loaded state", got=l.data)
        if i < 2:
            rec.sample(kind="state", name=name, data=data)


def compare_models(rec, a, b, rng, d, kind, n=6, tag=""):
    la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    rec.check(len(la) == len(lb) and type(a) is type(b), "model-structure", "loaded model has another structure")
    for x, y in zip(la, lb):
        if eqx.is_array(x) or isinstance(x, (bool, int, float)):
            ax, ay = np.asarray(x), np.asarray(y)
            rec.check(ax.shape == ay.shape and ax.dtype == ay.dtype and ax.tobytes() == ay.tobytes(), "model-leaf", "a parameter differs " + tag, got=ay, want=ax)
    key = jax.random.PRNGKey(int(rng.integers(2**31 - 1)))
    f_s = eqx.filter_jit(lambda m, k: m.sample(k, 5))
    f_l = eqx.filter_jit(lambda m, x: eqx.filter_vmap(m.log_prob)(x))
    x = jnp.asarray(rng.normal(size=(n, d)) * 2)
    rec.same(f_s(a, key), f_s(b, key), "model-sample", "samples differ " + tag)
    rec.same(f_l(a, x), f_l(b, x), "model-log-prob", "log densities differ " + tag)
    if kind != "fm":
        g = eqx.filter_jit(lambda m, x: (jax.vmap(m.forward)(x), jax.vmap(m.inverse)(x)))
        for u, v in zip(jax.tree_util.tree_leaves(g(a, x)), jax.tree_util.tree_leaves(g(b, x))):
            rec.same(u, v, "model-map", "forward or inverse map differs " + tag)
    rec.check(a.n_features == b.n_features, "model-features", "n_features differs")


def make(rng, kind, d, cfg, key):
    from flowMC.resource.model.nf_model.realNVP import RealNVP
    from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
    if kind == "realnvp":
        return RealNVP(d, cfg["layers"], cfg["hidden"], key)
    if kind == "rqspline":
        return MaskedCouplingRQSpline(d, cfg["layers"], [cfg["hidden"]] * cfg["depth"], cfg["bins"], key)
    from flowMC.resource.model.common import MLP
    from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path, CondOTScheduler
    return FlowMatchingModel(Solver(MLP([d + 1] + [cfg["hidden"]] * cfg["depth"] + [d], key, scale=1.0, activation=jax.nn.swish)), Path(CondOTScheduler()))


def train(m, kind, key, rng, d, epochs=2):
    import optax
    opt = optax.adam(1e-2)
    st = opt.init(eqx.filter(m, eqx.is_inexact_array))
    x = jnp.asarray(rng.normal(size=(24, d)) * np.exp(rng.normal(size=d)) + rng.normal(size=d))
    data = x if kind != "fm" else (jnp.asarray(rng.normal(size=(24, d))), x, jnp.asarray(rng.random((24, 1))))
    with contextlib.redirect_stdout(io.StringIO()):
        # equinox: the models' own train uses the filtered state of all arrays
        st = opt.init(eqx.filter(m, eqx.is_array))
        return m.train(key, data, opt, st, epochs, 8, verbose=False)[1]


def model(rec, kind, d, state, via):
    rng = rec.rng
    rec.ev("kind:" + kind)
    cfg = dict(layers=int(rng.integers(1, 4)), hidden=int(rng.integers(3, 9)), depth=int(rng.integers(1, 3)), bins=int(rng.integers(2, 6)))
    k1, k2, k3, k4 = jax.random.split(rec.key(), 4)
    m = make(rng, kind, d, cfg, k1)
    if "scrambled" in state:
        m = flows.scramble(m, rng, 0.4)
        rec.ev("model:scrambled")
    if "trained" in state:
        m = train(m, kind, k2, rng, d)
        rec.ev("model:trained")
    if "extreme" in state:
        arrs, st = eqx.partition(m, eqx.is_inexact_array)
        lv, td = jax.tree_util.tree_flatten(arrs)
        i = int(rng.integers(len(lv)))
        v = np.asarray(lv[i]).copy()
        fi = np.finfo(v.dtype)
        v.reshape(-1)[:] = rng.choice([fi.max, -0.0, fi.tiny, np.nan, -np.inf, 1 + fi.eps], size=v.size)
        lv[i] = jnp.asarray(v)
        m = eqx.combine(jax.tree_util.tree_unflatten(td, lv), st)
        rec.ev("model:extreme")
    templates = [make(rng, kind, d, cfg, k3), m, flows.scramble(make(rng, kind, d, cfg, k4), rng, 1.0)]
    save, load = ("save_model", "load_model") if via == "model" else ("save_resource", "load_resource")
    with scratch() as dr:
        path = dr + "/" + str(rng.choice(["m", "model.v1", "a b"]))
        before = [np.asarray(x).copy() for x in jax.tree_util.tree_leaves(m) if eqx.is_array(x)]
        f = saved_file(rec, dr, lambda: getattr(m, save)(path))
        h = digest(f)
        for ti, t in enumerate(templates):
            tb = [np.asarray(x).copy() for x in jax.tree_util.tree_leaves(t) if eqx.is_array(x)]
            l = getattr(t, load)(path)
            ta = [np.asarray(x) for x in jax.tree_util.tree_leaves(t) if eqx.is_array(x)]
            rec.check(all(a.tobytes() == b.tobytes() for a, b in zip(ta, tb)), "load-pure", "loading changed the object it was called on")
            rec.check(digest(f) == h, "file-intact", "loading changed the file")
            rec.case("model", kind, d, repr(cfg), state, h, ti)
            compare_models(rec, m, l, np.random.default_rng([rec.seed, ti]), d, kind)
        ma = [np.asarray(x) for x in jax.tree_util.tree_leaves(m) if eqx.is_array(x)]
        rec.check(all(a.tobytes() == b.tobytes() for a, b in zip(ma, before)), "save-pure", "saving changed the model")
        if "extreme" not in state:
            # training goes on from the loaded model as from the saved one
            a = train(m, kind, k2, np.random.default_rng(5), d, 1)
            b = train(l, kind, k2, np.random.default_rng(5), d, 1)
            compare_models(rec, a, b, rng, d, kind, tag="after training on")
            rec.ev("train-from-loaded")
            # overwriting
            getattr(a, save)(path)
            compare_models(rec, a, getattr(templates[0], load)(path), rng, d, kind, tag="after saving again")
    rec.sample(kind=kind, d=d, cfg=cfg, state=state)


def continuation(rec, x64=True):
    """A loaded buffer is trained from, stepped into and appended to as the original."""
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.optimizer import Optimizer
    from flowMC.strategy.train_model import TrainModel
    from mon.steps import Steps, make_kernel
    from mon.targets import gauss
    rng = rec.rng
    t = gauss(rng, 2)
    st = Steps(make_kernel("MALA", rng, 2), t.logp, 2, 5, cap=12)
    xs = jnp.asarray(t.sampler(rng, 4))
    key = rec.key()

    def reload(b):
        with scratch() as d:
            f = saved_file(rec, d, lambda: b.save_resource(d + "/x"))
            return Buffer("t", (1,), 0).load_resource(f)

    def steps(through):
        res = st.resources(4)
        st.strategy.set_current_position(0)
        k, res, x = st.strategy(key, res, xs, t.data)
        if through:
            for n in ("positions", "log_probs", "accs"):
                res[n] = reload(res[n])
        k, res, x = st.strategy(k, res, x, t.data)
        return res
    a, b = steps(False), steps(True)
    rec.ev("steps-into-loaded")
    for n in ("positions", "log_probs", "accs"):
        rec.same(a[n].data, b[n].data, "steps-into-loaded", "steps written into a loaded buffer differ", buffer=n)
    rec.case("steps", np.asarray(a["positions"].data).tobytes())

    def training(through):
        m = make(rng, "rqspline", 2, dict(layers=2, hidden=6, depth=1, bins=3), jax.random.PRNGKey(3))
        res = {"model": m, "opt": Optimizer(m, 1e-2), "data": a["positions"], "loss": Buffer("loss", (9,), 0)}
        tm = TrainModel("model", "data", "opt", "loss", n_epochs=3, batch_size=8, n_max_examples=32, history_window=20)
        k = key
        for i in range(3):
            if through:
                res["data"], res["loss"] = reload(res["data"]), reload(res["loss"])
            with contextlib.redirect_stdout(io.StringIO()):
                k, res, _ = tm(k, res, xs, t.data)
            rec.ev("append-at-cursor", i > 0 and through)
        return res
    ra, rb = training(False), training(True)
    rec.same(ra["loss"].data, rb["loss"].data, "append-at-cursor", "losses appended to a loaded buffer differ")
    rec.check(np.isfinite(np.asarray(ra["loss"].data)).all(), "append-at-cursor", "losses missing", got=ra["loss"].data)
    compare_models(rec, ra["model"], rb["model"], rng, 2, "rqspline", tag="trained from a loaded buffer")
    rec.ev("train-from-loaded")
    rec.case("train", np.asarray(ra["loss"].data).tobytes())


def bundle(rec, kind):
    """Everything saveable of a finished run is saved and loaded."""
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.states import State
    from flowMC.resource.model.nf_model.base import NFModel
    from mon import bundles as B
    from mon.targets import gauss
    rng = rec.rng
    t = gauss(rng, 2)
    cfg = dict(n_chains=3, n_dims=2, n_local_steps=3, n_global_steps=4, n_training_loops=1, n_production_loops=1, n_epochs=2,
               rq_spline_hidden_units=[6], rq_spline_n_bins=3, rq_spline_n_layers=2, batch_size=16, n_max_examples=32, mala_step_size=0.3)
    if kind == "pt":
        cfg.update(n_temperatures=3)
    run = B.run_bundle(rec, kind, cfg, t.logp, t.data, jnp.asarray(t.sampler(rng, 3)), watch=())
    with scratch() as d:
        for n, r in run.sampler.resources.items():
            f0 = B.freeze(r)
            if isinstance(r, (Buffer, State)):
                l = r.load_resource(saved_file(rec, d, lambda: r.save_resource(d + "/" + n)))
            elif isinstance(r, NFModel):
                saved_file(rec, d, lambda: r.save_resource(d + "/" + n))
                l = B.make_bundle(kind, jax.random.PRNGKey(77), t.logp, cfg).resources[n].load_resource(d + "/" + n)
                compare_models(rec, r, l, rng, 2, "rqspline", tag="of a bundle")
            else:
                continue
            rec.ev("bundle-resource")
            rec.case("bundle", n, repr(f0)[:500])
            rec.check(B.same(f0, B.freeze(l)), "bundle-resource", "resource %s of a bundle differs after loading" % n, name=n)
            rec.check(B.same(f0, B.freeze(r)), "save-pure", "saving changed resource %s" % n)


def scenarios(tier, seed):
    q = tier == "quick"
    s = []
    rng = np.random.default_rng(seed)
    states_ = ["fresh", "scrambled", "trained", "scrambled-trained", "extreme", "scrambled-trained"]
    i = 0
    for rep in range(1 if q else 6):
        for kind in ("realnvp", "rqspline", "fm"):
            for d in ((1, 3) if q else (1, 2, 3, 5)):
                for st in ([states_[i % 6]] if q else states_[:5]):
                    i += 1
                    s.append(Scn("model-%s-%d-%s-%d" % (kind, d, st, i), model, x64=bool(i % 3), kind=kind, d=d, state=st, via=["model", "resource"][i % 2]))
    if q:
        for kind, st in (("realnvp", "extreme"), ("rqspline", "scrambled-trained"), ("fm", "scrambled-trained")):
            s.append(Scn("model-%s-2-%s-f" % (kind, st), model, kind=kind, d=2, state=st, via="resource"))
    s.append(Scn("continuation", continuation))
    s.append(Scn("bundle-plain", bundle, kind="plain"))
    s.append(Scn("bundle-pt", bundle, kind="pt", x64=False))
    for x64 in (True, False):
        t = "x64" if x64 else "f32"
        for j in range(1 if q else 6):
            s.append(Scn("buffers-%s-%d" % (t, j), buffers, x64=x64, n=70 if q else 300))
            s.append(Scn("states-%s-%d" % (t, j), states, x64=x64, n=50 if q else 300))
    return s
