"""Parallel tempering through its public interface, and stub kernels."""
import numpy as np
import jax
import jax.numpy as jnp
from flowMC.resource.kernel.base import ProposalBase


class Hold(ProposalBase):
    """Never moves."""

    def __init__(self):
        pass

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        return position, log_prob, jnp.zeros((), bool)

    def print_parameters(self):
        pass

    def save_resource(self, path):
        raise NotImplementedError

    def load_resource(self, path):
        raise NotImplementedError


class KeyRecorder(Hold):
    """Moves to the bits of the key it was given."""

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        p = jax.random.key_data(rng_key).astype(position.dtype) if jnp.issubdtype(rng_key.dtype, jax.dtypes.prng_key) \
            else rng_key.astype(position.dtype)
        return p, log_prob, jnp.ones((), bool)


class Probe(Hold):
    """Moves to [target(position), target(position + 1)]: reports which target it was given. If the log-density it is given is not
    that of its position, it moves elsewhere."""

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        t = logpdf(position, data)
        off = jnp.where(jnp.abs(log_prob - t) <= 1e-4 * (1 + jnp.abs(t)), 0.0, 1000.0)
        p = jnp.stack([t + off, logpdf(position + 1.0, data)])
        return p, logpdf(p, data), jnp.ones((), bool)


class PT:
    def __init__(self, kernel, loglik, logprior, dim, temps, n_steps=1, training=True, cls=None):
        from flowMC.resource.logPDF import TemperedPDF
        from flowMC.resource.states import State
        from flowMC.strategy.parallel_tempering import ParallelTempering
        self.dim = dim
        self.temps = np.asarray(temps, float)
        self.state = State({"training": training}, name="state")
        self.pdf = TemperedPDF(loglik, logprior, n_dims=dim, n_temps=len(temps))
        self.kernel = kernel
        self.strategy = ParallelTempering(n_steps=n_steps, tempered_logpdf_name="tpdf", kernel_name="kernel",
                                          tempered_buffer_names=["walkers", "temps"], state_name="state")
        self.res = None

    def reset(self, hot, temps=None):
        """hot: (n, T-1, d) walkers at temperatures 1.. ; fresh resources."""
        from flowMC.resource.buffers import Buffer
        hot = jnp.asarray(hot)
        w = Buffer("walkers", hot.shape, 2)
        w.update_buffer(hot)
        t = Buffer("temps", (len(self.temps),), 0)
        t.update_buffer(jnp.asarray(self.temps if temps is None else temps, dtype=hot.dtype))
        self.res = {"tpdf": self.pdf, "kernel": self.kernel, "state": self.state, "walkers": w, "temps": t}

    def __call__(self, key, cold, data):
        """-> returned key, cold (n,d), hot (n,T-1,d), temperatures"""
        key2, self.res, c = self.strategy(key, self.res, jnp.asarray(cold), data)
        return (key2, np.asarray(c), np.asarray(self.res["walkers"].data), np.asarray(self.res["temps"].data))
