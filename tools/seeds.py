#!/usr/bin/env python3
"""Builds /verif/seeded from the list below: tools/seeds.py [ID...]   (demo.py files are written by hand in seeded/ID/)."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
K, S, M, B = "resource/kernel/", "strategy/", "resource/model/", "resource_strategy_bundle/"
SEEDS = {
 "s01-mala-nan": ("C05", K + "MALA.py", [('do_accept: Bool[Array, " n_dim"] = log_uniform < ratio', 'do_accept: Bool[Array, " n_dim"] = ~(log_uniform >= ratio)')],
   "a proposal at which the target is NaN", "MALA accepts moves to positions of undefined density"),
 "s02-hmc-divergence": ("C03", K + "HMC.py", [("        do_accept = log_uniform < log_acc\n", "        # a large energy error means a divergent trajectory\n        do_accept = (log_uniform < log_acc) & (jnp.abs(log_acc) < 30.0)\n")],
   "a step from far out in the tails whose energy error is large and negative", "a move that must be accepted is rejected, so the chain can hang in the tails"),
 "s03-nf-last-batch": ("C04", K + "NF_proposal.py", [("                            (n_batch - 1) * self.n_batch_size,\n                            n_steps - (n_batch", "                            n_steps - self.n_batch_size,\n                            n_steps - (n_batch")],
   "a proposal batch size smaller than, and not dividing, the number of global steps", "the target density of the last proposals is that of earlier ones"),
 "s04-nf-batch-key": ("C04", K + "NF_proposal.py", [("                rng_key, subkey = random.split(rng_key)\n                combined", "                rng_key, subkey = rng_key, random.split(rng_key)[1]\n                combined")],
   "more global steps than the proposal batch size", "every batch of flow proposals repeats the first"),
 "s05-batch-keys": ("C08", S + "take_steps.py", [("subkey_batch = subkey[batch_slice]", "subkey_batch = jax.random.split(subkey[i], len(initial_position[batch_slice]))")],
   "chain batching", "records depend on the chain batch size"),
 "s06-flag-thinning": ("C07", S + "take_steps.py", [("        do_accepts = do_accepts[:, :: self.thinning].astype(", "        do_accepts = do_accepts[:, self.thinning - 1 :: self.thinning].astype(")],
   "thinning larger than 1", "the recorded acceptance flags are those of other steps than the recorded positions"),
 "s07-stale-flow": ("C12", B + "RQSpline_MALA_PT.py", [('            "model_trainer",\n            "update_model",\n            "global_stepper",', '            "update_model",\n            "model_trainer",\n            "global_stepper",')],
   "training in the tempered bundle", "global steps use the flow of the training before"),
 "s08-spline-range": ("C13", M + "nf_model/rqSpline.py", [("        y_pos = self.range_min + jnp.cumsum(bin_heights[..., :-1], axis=-1)", "        y_pos = -self.range_max + jnp.cumsum(bin_heights[..., :-1], axis=-1)")],
   "a spline range that is not symmetric about zero", "the spline is not monotone, so forward and inverse disagree"),
 "s09-swap-stale": ("C21", S + "parallel_tempering.py", [("            log_probs,\n            idx + 1,\n            logpdf,\n            temperatures,\n            data,\n        ), do_accept", "            carry[2],\n            idx + 1,\n            logpdf,\n            temperatures,\n            data,\n        ), do_accept")],
   "three or more temperatures and two accepted swaps in a row", "the second swap of a sweep is decided with the likelihood of the walker that was swapped away"),
 "s10-swap-columns": ("C22", S + "parallel_tempering.py", [("            jax.lax.dynamic_slice_in_dim(positions, idx, 2, axis=0), axis=0\n        )\n        #", "            jax.lax.dynamic_slice_in_dim(positions, idx, 2, axis=0)\n        )\n        #")],
   "an accepted swap of walkers of two or more dimensions", "the coordinates of swapped walkers are reversed"),
 "s11-nan-epoch": ("C16", M + "nf_model/base.py", [("            if loss_values[epoch] < best_loss:", "            if not loss_values[epoch] >= best_loss:")],
   "an epoch with a NaN loss", "the epoch with the NaN loss is returned as the best"),
 "s12-window": ("C17", S + "train_model.py", [("        training_data = training_data[:, -self.history_window :].reshape(-1, n_dims)", "        training_data = training_data.reshape(-1, n_dims)[-self.history_window * n_chains :]")],
   "more recorded samples than the history window", "the flow is trained on all the history of the last chains and on nothing of the others"),
 "s13-adam-bounds": ("C25", S + "optimization.py", [("                params, self.bounds[:, 0], self.bounds[:, 1]\n", "                params, self.bounds[:, 0].min(), self.bounds[:, 1].max()\n")],
   "different bounds per coordinate", "positions leave the bounds of their coordinate"),
 "s14-buffer-precision": ("C20", "resource/buffers.py", [("            data=self.data,\n", "            data=np.asarray(self.data, dtype=np.float32),\n")],
   "a buffer in double precision", "a saved buffer loads back rounded"),
 "s15-repeat": ("C10", "Sampler.py", [("        for strategy in self.strategy_order:\n", "        for strategy in (\n            s\n            for i, s in enumerate(self.strategy_order)\n            if i == 0 or s != self.strategy_order[i - 1]\n        ):\n")],
   "a strategy order with the same name twice in a row", "the repeated strategy runs once"),
 "s16-fm-small-data": ("C15", M + "flowmatching/base.py", [("            batch_x1 = (data[1] - self.data_mean) / std\n            x_t", "            batch_x1 = data[1] - self.data_mean\n            x_t")],
   "fewer training examples than the batch size", "the network is trained on data that is not whitened"),
 "s17-adapting-production": ("C11", B + "RQSpline_MALA_PT.py", [('                "target_global_accs",\n                "training",\n            ],', '                "target_global_accs",\n            ],'), ('                "global_accs_production",\n                False,\n            ],', '                "global_accs_production",\n            ],')],
   "a production phase of the tempered bundle", "temperatures are adapted during production"),
 "s18-prior-lost": ("C24", "resource/logPDF.py", [("        aux_data = (self.log_pdf, self.log_prior, self.variables)", "        aux_data = (self.log_pdf, self.log_pdf, self.variables)")],
   "flattening a tempered target with a prior of its own", "after a pytree round trip the prior is the likelihood"),
 "s19-shared-noise": ("C09", S + "take_steps.py", [("subkey_batch = subkey[batch_slice]", "subkey_batch = subkey[: len(subkey[batch_slice])]")],
   "chain batching", "chains in different batches use the same random numbers"),
 "s20-base-correlation": ("C14", M + "common.py", [("        return jax.scipy.stats.multivariate_normal.logpdf(x, self.mean, self.cov)", "        return jax.scipy.stats.norm.logpdf(\n            x, self.mean, jnp.sqrt(jnp.diag(self.cov))\n        ).sum()")],
   "a base distribution with correlations", "the density ignores them while the samples have them"),
 "s21-trainable-mean": ("C18", M + "nf_model/base.py", [("    def data_mean(self):\n        return jax.lax.stop_gradient(self._data_mean)", "    def data_mean(self):\n        return self._data_mean")],
   "training a spline flow for several steps", "the data mean is optimised away from that of the training data"),
 "s22-lambda-return": ("C26", S + "lambda_function.py", [("        self.lambda_function(rng_key, resources, initial_position, data)\n        return rng_key, resources, initial_position", "        result = self.lambda_function(rng_key, resources, initial_position, data)\n        if isinstance(result, dict):\n            resources = result\n        return rng_key, resources, initial_position")],
   "a custom function that returns a dictionary", "its return value replaces all resources"),
 "s23-cursor-dim": ("C19", "resource/buffers.py", [("            self.data, updates, start, self.cursor_dim\n", "            self.data, updates, start, min(self.cursor_dim, 1)\n")],
   "a buffer whose cursor dimension is 2 or more, written at a start other than 0", "other slots are overwritten"),
 "s24-drift-clip": ("C01", K + "MALA.py", [("            proposal = this_position + jnp.dot(dt2, this_d_log) / 2\n", "            # keep the drift bounded far out in the tails\n            proposal = this_position + jnp.clip(jnp.dot(dt2, this_d_log) / 2, -10.0, 10.0)\n")],
   "a step whose drift is longer than 10 in some coordinate", "the proposal is not the Langevin move its acceptance probability assumes"),
 "s25-accept-floor": ("C02", K + "Gaussian_random_walk.py", [("        do_accept = log_uniform < proposal_log_prob - log_prob", "        do_accept = log_uniform < jnp.maximum(proposal_log_prob - log_prob, -7.0)")],
   "proposals to much lower density", "they are accepted once in a thousand whatever the density"),
 "s26-best-position": ("C27", S + "take_steps.py", [("        return rng_key, resources, positions[:, -1]", "        best = jnp.argmax(log_probs[:, -2:], axis=1)\n        return (\n            rng_key,\n            resources,\n            jax.vmap(lambda p, i: p[-2:][i])(positions, best),\n        )")],
   "a segment of two or more recorded steps", "the next segment starts from the better of the last two states, a biased selection"),
 "s27-swap-rates": ("C23", S + "parallel_tempering.py", [("        acceptance_rate = jnp.mean(do_accept, axis=0)", "        acceptance_rate = jnp.mean(do_accept[: (do_accept.shape[0] + 1) // 2], axis=0)")],
   "chains whose swap rates differ", "the ladder adapts to the swap rates of half the chains"),
 "s28-flag-batches": ("C06", S + "take_steps.py", [("            log_probs = jnp.concatenate(log_probs_list, axis=0)", "            log_probs = jnp.concatenate(\n                log_probs_list[:1] + log_probs_list[1:][::-1], axis=0\n            )")],
   "at least two full chain batches after the first", "log-densities are recorded in the rows of other chains"),
 "s29-one-tempered-step": ("C29", B + "RQSpline_MALA_PT.py", [("        if n_tempered_steps <= 0:", "        if n_tempered_steps <= 1:")],
   "asking for exactly one tempered step between exchanges", "the walkers take the number of local steps instead"),
 "s30-thinning-mixup": ("C29", B + "RQSpline_MALA.py", [("            thinning=local_thinning,", "            thinning=THINNING,"), ("            thinning=global_thinning,", "            thinning=local_thinning,"), ("            thinning=THINNING,", "            thinning=global_thinning,")],
   "different thinning of local and global steps", "each kind of step is thinned with the other's factor and the records overflow"),
}


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for sid, (prop, f, edits, needs, what) in SEEDS.items():
        if sys.argv[1:] and sid not in sys.argv[1:]:
            continue
        out = f"{here}/seeded/{sid}"
        os.makedirs(out, exist_ok=True)
        d = tempfile.mkdtemp(prefix="seed.")
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        g = lambda *a: subprocess.run(["git", "-C", d, *a], capture_output=True, text=True, check=True).stdout
        g("init", "-q"); g("add", "-A"); g("-c", "user.name=x", "-c", "user.email=x@x", "commit", "-qm", "x")
        p = f"{d}/src/flowMC/{f}"
        s = open(p).read()
        for old, new in edits:
            assert s.count(old) == 1, (sid, s.count(old), old)
            s = s.replace(old, new)
        open(p, "w").write(s)
        open(out + "/patch.diff", "w").write(g("diff"))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(out + "/meta.json", "w"), indent=1)
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexport JAX_PLATFORMS=cpu TQDM_DISABLE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1")
        res = []
        if os.path.exists(out + "/demo.py"):
            for src in ("/repo/src", d + "/src"):
                r = subprocess.run([out + "/demo.sh"], cwd="/repo", env=dict(env, PYTHONPATH=src), capture_output=True, text=True)
                res.append(r.returncode)
                if (r.returncode != 0) != (src != "/repo/src"):
                    print(r.stdout[-500:], r.stderr[-1500:])
            print(sid, "demo clean/patched:", res, r.stderr.strip().splitlines()[-1:], flush=True)
        else:
            print(sid, "no demo", flush=True)
        shutil.rmtree(d)


main()
