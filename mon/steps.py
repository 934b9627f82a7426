"""Running step strategies through their public interface."""
import numpy as np
import jax
import jax.numpy as jnp


class Steps:
    """A TakeSerialSteps / TakeGroupSteps with its resources; fresh buffers per run."""

    def __init__(self, kernel, logp, dim, n_steps, group=False, thinning=1, chain_batch_size=0, cap=None):
        from flowMC.resource.logPDF import LogPDF
        from flowMC.resource.states import State
        from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
        self.kernel, self.dim, self.n_steps, self.thinning = kernel, dim, n_steps, thinning
        self.logpdf = logp if isinstance(logp, LogPDF) else LogPDF(logp, n_dims=dim)
        self.cap = cap or -(-n_steps // thinning)
        cls = TakeGroupSteps if group else TakeSerialSteps
        self.strategy = cls("logpdf", "kernel", "state", ["pos", "lp", "acc"], n_steps, thinning=thinning,
                            chain_batch_size=chain_batch_size)
        self.state = State({"pos": "positions", "lp": "log_probs", "acc": "accs"}, name="state")

    def resources(self, n_chains):
        from flowMC.resource.buffers import Buffer
        return {"logpdf": self.logpdf, "kernel": self.kernel, "state": self.state,
                "positions": Buffer("positions", (n_chains, self.cap, self.dim), 1),
                "log_probs": Buffer("log_probs", (n_chains, self.cap), 1),
                "accs": Buffer("accs", (n_chains, self.cap), 1)}

    def __call__(self, key, xs, data):
        """-> positions, log_probs, flags, last position, returned key (numpy)"""
        xs = jnp.asarray(xs)
        res = self.resources(xs.shape[0])
        self.strategy.set_current_position(0)
        key2, res, last = self.strategy(key, res, xs, data)
        return (np.asarray(res["positions"].data), np.asarray(res["log_probs"].data), np.asarray(res["accs"].data),
                np.asarray(last), np.asarray(key2))


def make_kernel(name, rng, dim, step=None, model=None, batch=100):
    from flowMC.resource.kernel.MALA import MALA
    from flowMC.resource.kernel.HMC import HMC
    from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
    from flowMC.resource.kernel.NF_proposal import NFProposal
    step = float(rng.uniform(0.3, 0.8)) if step is None else step
    if name == "MALA":
        return MALA(step_size=step)
    if name == "GRW":
        return GaussianRandomWalk(step_size=step)
    if name == "HMC":
        return HMC(condition_matrix=jnp.eye(dim), step_size=step, n_leapfrog=int(rng.integers(1, 5)))
    return NFProposal(model, n_NFproposal_batch_size=batch)
