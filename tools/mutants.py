#!/usr/bin/env python3
"""Small breakages (file, old text, new text) used to see what the checks miss.
tools/mutants.py [NAME-PREFIX...]   runs each property's quick check against a scratch copy of /repo/src with the edit."""
import os, shutil, subprocess, sys, tempfile, time
K, S, M, B = "resource/kernel/", "strategy/", "resource/model/", "resource_strategy_bundle/"
MALA, GRW, HMC, NF = K + "MALA.py", K + "Gaussian_random_walk.py", K + "HMC.py", K + "NF_proposal.py"
TS, PT, OPT, TM = S + "take_steps.py", S + "parallel_tempering.py", S + "optimization.py", S + "train_model.py"
RQ, NVP, NB, CM, FM = M + "nf_model/rqSpline.py", M + "nf_model/realNVP.py", M + "nf_model/base.py", M + "common.py", M + "flowmatching/base.py"
BP, BT = B + "RQSpline_MALA.py", B + "RQSpline_MALA_PT.py"
MUT = [
 # name, properties, file, [(old, new), ...]
 ("01a-clip-grad", "C01", MALA, [("            proposal = this_position +", "            this_d_log = jnp.clip(this_d_log, -1e3, 1e3)\n            proposal = this_position +")]),
 ("01b-nan-grad", "C01", MALA, [("            proposal = this_position +", "            this_d_log = jnp.nan_to_num(this_d_log)\n            proposal = this_position +")]),
 ("01c-accept-trunc", "C01", MALA, [("log_uniform < ratio", "log_uniform < jnp.clip(ratio, -20.0)")]),
 ("01d-noise-trunc", "C01", MALA, [("jax.random.normal(this_key, shape=this_position.shape)", "jax.random.truncated_normal(this_key, -3.0, 3.0, shape=this_position.shape)")]),
 ("01e-stale-logp", "C01", MALA, [("ratio = logprob[1] - logprob[0]", "ratio = logprob[1] - log_prob"), ("jnp.where(do_accept, logprob[1], logprob[0])", "jnp.where(do_accept, logprob[1], log_prob)")]),
 ("01f-nodata", "C01", MALA, [("            return (proposal, dt, data), (proposal,", "            return (proposal, dt, jax.tree.map(lambda a: jnp.round(a, 3), data)), (proposal,")]),
 ("02a-trunc", "C02", GRW, [("jax.random.normal(key1, shape=position.shape)", "jax.random.truncated_normal(key1, -3.0, 3.0, shape=position.shape)")]),
 ("02b-key", "C02 C09", GRW, [("jax.random.uniform(key2)", "jax.random.uniform(key1)")]),
 ("02c-floor", "C02", GRW, [("log_uniform < proposal_log_prob - log_prob", "log_uniform < jnp.maximum(proposal_log_prob - log_prob, -15.0)")]),
 ("02d-tdist", "C02", GRW, [("jax.random.normal(key1, shape=position.shape)", "jax.random.t(key1, 12.0, shape=position.shape) * 0.9129")]),
 ("03a-nl", "C03", HMC, [("coefs = jnp.ones((n_leapfrog + 2, 2))", "coefs = jnp.ones((max(n_leapfrog, 1) + 2, 2))")]),
 ("03b-noTr", "C03", HMC, [("jnp.linalg.cholesky(jnp.linalg.inv(metric)).T,", "jnp.linalg.cholesky(jnp.linalg.inv(metric)),")]),
 ("03c-endmom", "C03", HMC, [("coefs = coefs.at[-1].set(jnp.array([1, 0.5]))", "coefs = coefs.at[-1].set(jnp.array([1, 1.0]))")]),
 ("03d-logp", "C03", HMC, [("jnp.where(do_accept, -proposed_PE, log_prob)", "jnp.where(do_accept, -proposed_ham, log_prob)")]),
 ("03e-ke", "C03", HMC, [("proposed_ham = proposed_PE + kinetic(proposed_momentum, metric)", "proposed_ham = proposed_PE + kinetic(proposed_momentum, jnp.diag(jnp.diag(metric)))")]),
 ("04a-lastbatch", "C04", NF, [("                            (n_batch - 1) * self.n_batch_size,\n                            n_steps", "                            n_steps - self.n_batch_size,\n                            n_steps")]),
 ("04b-samekey", "C04 C09", NF, [("                return (rng_key, model), (proposal_position, proposed_log_prob)", "                return (subkey, model), (proposal_position, proposed_log_prob)")]),
 ("04c-nfcur", "C04", NF, [("            log_prob_nf_current = jnp.where(\n                do_accept, log_prob_nf_proposal, log_prob_nf_initial\n            )", "            log_prob_nf_current = log_prob_nf_initial")]),
 ("04d-key", "C04 C09", NF, [("eqx.filter_jit(self.sample_flow)(\n            subkey, n_steps\n        )", "eqx.filter_jit(self.sample_flow)(\n            rng_key, n_steps\n        )")]),
 ("04e-samekeys2", "C04 C09", NF, [("                rng_key, subkey = random.split(rng_key)\n                combined", "                subkey = rng_key\n                combined")]),
 ("04f-clip", "C04", NF, [("            uniform_random = jnp.log", "            ratio = jnp.clip(ratio, -30.0, 30.0)\n            uniform_random = jnp.log")]),
 ("05a-mala", "C05", MALA, [("do_accept: Bool[Array, \" n_dim\"] = log_uniform < ratio", "do_accept = ~(log_uniform >= ratio)")]),
 ("05b-grw", "C05", GRW, [("do_accept = log_uniform < proposal_log_prob - log_prob", "do_accept = ~(log_uniform >= proposal_log_prob - log_prob)")]),
 ("05c-hmc", "C05", HMC, [("do_accept = log_uniform < log_acc", "do_accept = ~(log_uniform >= log_acc)")]),
 ("05d-nf", "C05", NF, [("do_accept = uniform_random < ratio", "do_accept = ~(uniform_random >= ratio)")]),
 ("05e-pt", "C05 C21", PT, [("= log_uniform < ratio", "= ~(log_uniform >= ratio)")]),
 ("05f-nan2num", "C05", NF, [("            uniform_random = jnp.log", "            ratio = jnp.nan_to_num(ratio, nan=0.0, neginf=-jnp.inf)\n            uniform_random = jnp.log")]),
 ("05g-hmcfinite", "C05", HMC, [("        log_acc = H - proposed_ham", "        log_acc = jnp.nan_to_num(H - proposed_ham, neginf=-1e4)")]),
 ("06a-accdelay", "C06", TS, [("            do_accepts = jnp.concatenate(do_accepts_list, axis=0)", "            do_accepts = jnp.concatenate(do_accepts_list[::-1], axis=0)")]),
 ("06b-lpbatch", "C06", TS, [("            log_probs = jnp.concatenate(log_probs_list, axis=0)", "            log_probs = jnp.concatenate(log_probs_list[:1] + log_probs_list[1:][::-1], axis=0)")]),
 ("06c-accthin", "C06 C07", TS, [("do_accepts = do_accepts[:, :: self.thinning].astype(", "do_accepts = do_accepts[:, self.thinning - 1 :: self.thinning].astype(")]),
 ("06d-jitstale", "C06", TS, [("(rng_key, initial_position, logpdf(initial_position, data), logpdf, data),", "(rng_key, initial_position, logpdf(initial_position, data) * 1.0001, logpdf, data),")]),
 ("07a-thin", "C07", TS, [("positions = positions[:, :: self.thinning]", "positions = positions[:, (self.n_steps - 1) % self.thinning :: self.thinning]"), ("log_probs = log_probs[:, :: self.thinning]", "log_probs = log_probs[:, (self.n_steps - 1) % self.thinning :: self.thinning]"), ("do_accepts[:, :: self.thinning]", "do_accepts[:, (self.n_steps - 1) % self.thinning :: self.thinning]")]),
 ("07b-ret", "C07", TS, [("        return rng_key, resources, positions[:, -1]\n", "        return rng_key, resources, position_buffer.data[:, -1]\n")]),
 ("07c-setpos", "C07 C11", TS, [("        self.current_position = current_position\n", "        self.current_position = max(current_position, self.current_position) if current_position else 0\n")]),
 ("07d-name", "C07", TS, [("log_prob_buffer_name := state_resource.data[self.buffer_names[1]], str", "log_prob_buffer_name := state_resource.data[self.buffer_names[1]].replace('_old', ''), str")]),
 ("08a-batchkey", "C08 C09", TS, [("subkey_batch = subkey[batch_slice]", "subkey_batch = jax.random.split(subkey[i], positions_list[0].shape[0] if False else len(subkey[batch_slice]))")]),
 ("08b-batchpos", "C08", TS, [("initial_position_batch = initial_position[batch_slice]", "initial_position_batch = initial_position[batch_slice] if i + self.chain_batch_size <= n_chains else initial_position[-len(subkey_batch) :][::-1]")]),
 ("08c-keyreuse", "C08 C09", TS, [("subkey_batch = subkey[batch_slice]", "subkey_batch = subkey[: len(subkey[batch_slice])]")]),
 ("09a-retkey", "C09", TS, [("        rng_key, subkey = jax.random.split(rng_key)\n        subkey = jax.random.split(subkey, initial_position.shape[0])\n\n        assert isinstance(\n            state", "        subkey = jax.random.split(jax.random.split(rng_key)[1], initial_position.shape[0])\n\n        assert isinstance(\n            state")]),
 ("09b-ptkey", "C09", PT, [("        rng_key, subkey = jax.random.split(rng_key)\n        subkey = jax.random.split(subkey, initial_position.shape[0])\n        positions, log_probs, do_accepts = eqx.filter_jit(\n            eqx.filter_vmap(self._exchange", "        positions, log_probs, do_accepts = eqx.filter_jit(\n            eqx.filter_vmap(self._exchange")]),
 ("09c-pttemps", "C09 C21", PT, [("            self._individal_step, in_axes=(None, 0, 0, None, 0, None)\n        )(kernel, rng_key,", "            self._individal_step, in_axes=(None, None, 0, None, 0, None)\n        )(kernel, rng_key[0],")]),
 ("09d-ptret", "C09", PT, [("        return rng_key, resources, positions[:, 0]\n", "        return jax.random.fold_in(jax.random.PRNGKey(0), positions.shape[0]), resources, positions[:, 0]\n")]),
 ("09e-serial", "C09", TS, [("        key, subkey = jax.random.split(key)\n        position, log_prob, do_accept = kernel.kernel(\n            subkey,", "        key, subkey = jax.random.split(key)\n        position, log_prob, do_accept = kernel.kernel(\n            key,")]),
 ("09f-train", "C09", TM, [("        rng_key, subkey = jax.random.split(rng_key)\n        training_data = training_data[", "        subkey = rng_key\n        training_data = training_data[")]),
 ("09g-epochkey", "C09 C16", NB, [("            rng, input_rng = jax.random.split(rng)", "            input_rng = rng")]),
 ("09h-adamkey", "C09 C25", OPT, [("keys = jax.random.split(subkey, initial_position.shape[0])", "keys = jnp.broadcast_to(subkey, (initial_position.shape[0],) + subkey.shape)")]),
 ("09i-adamstep", "C09 C25", OPT, [("return (key, params, opt_state), None", "return (subkey, params, opt_state), None")]),
 ("09j-adamret", "C09", OPT, [("        return rng_key, optimized_positions, final_log_prob", "        return subkey, optimized_positions, final_log_prob")]),
 ("10a-cont", "C10", "Sampler.py", [("        last_step = initial_position\n        assert isinstance(self.strategy_order, list)", "        last_step = initial_position\n        assert isinstance(self.strategy_order, list)\n        data = dict(data) if data else data")]),
 ("10b-either", "C10", "Sampler.py", [("if resources is not None and strategies is not None:", "if resources and strategies is not None:")]),
 ("10c-validate", "C10", "Sampler.py", [("            if strategy not in self.strategies:\n                raise ValueError(", "            if strategy not in self.strategies and strategy != self.strategy_order[-1]:\n                raise ValueError(")]),
 ("10d-dedupe", "C10", "Sampler.py", [("for strategy in self.strategy_order:", "for strategy in [s for i, s in enumerate(self.strategy_order) if i == 0 or s != self.strategy_order[i - 1]]:")]),
 ("11a-order", "C11", BP, [("        production_phase = [\n            \"local_stepper\",\n            \"update_global_step\",\n            \"global_stepper\",\n            \"update_local_step\",\n        ]", "        production_phase = [\n            \"local_stepper\",\n            \"update_global_step\",\n            \"global_stepper\",\n        ]")]),
 ("11b-ptflag", "C11 C23", BT, [("                \"global_accs_production\",\n                False,", "                \"global_accs_production\",\n                n_production_loops > 2,")]),
 ("11c-accs", "C11", BP, [("                \"local_accs_production\",\n                \"global_accs_production\",\n            ],\n        )", "                \"global_accs_production\",\n                \"local_accs_production\",\n            ],\n        )")]),
 ("11d-loop", "C11", BT, [("            strategy_order.extend(training_phase)\n\n        strategy_order.append(\"reset_steppers\")\n        strategy_order.append(\"update_state\")", "            strategy_order.extend(training_phase)\n\n        strategy_order.append(\"update_state\")\n        strategy_order.append(\"reset_steppers\")")]),
 ("12a-order", "C12", BT, [("            \"model_trainer\",\n            \"update_model\",\n            \"global_stepper\",", "            \"update_model\",\n            \"model_trainer\",\n            \"global_stepper\",")]),
 ("12b-once", "C12", BP, [("            model = resources[\"model\"]\n            resources[\"global_sampler\"] = eqx.tree_at(\n                lambda x: x.model,", "            model = eqx.tree_at(lambda m: (m._data_mean, m._data_cov), resources[\"model\"], (resources[\"global_sampler\"].model._data_mean, resources[\"global_sampler\"].model._data_cov)) if n_training_loops > 2 else resources[\"model\"]\n            resources[\"global_sampler\"] = eqx.tree_at(\n                lambda x: x.model,")]),
 ("12c-skip", "C12", BP, [("        for _ in range(n_training_loops):\n            strategy_order.extend(training_phase)", "        for _ in range(n_training_loops):\n            strategy_order.extend(training_phase if _ < 3 else [s for s in training_phase if s != 'update_model'])")]),
 ("13a-below", "C13", RQ, [("    logdet = jnp.where(below_range, jnp.log(knot_slopes[0]), logdet)", "    logdet = jnp.where(below_range, jnp.log(knot_slopes[-1]), logdet)")]),
 ("13b-dt", "C13", CM, [("        y = x * jnp.exp(-scale) - shift\n        return y, log_det\n\n\nclass ScalarAffine", "        y = x * jnp.exp(-scale) - shift / self.dt\n        return y, log_det\n\n\nclass ScalarAffine")]),
 ("13c-mask", "C13", CM, [("        y, log_det = self.bijector.inverse(x, x * self.mask)  # type: ignore", "        y, log_det = self.bijector.inverse(x, x)  # type: ignore")]),
 ("13d-acdt", "C13", NVP, [("        log_det = -s.sum()", "        log_det = -s.sum() / self.dt")]),
 ("13e-root", "C13", RQ, [("    numerator = jnp.where(b >= 0, numerator_1, numerator_2)\n    denominator = jnp.where(b >= 0, denominator_1, denominator_2)", "    numerator, denominator = numerator_2, denominator_2")]),
 ("13f-range", "C13", RQ, [("        y_pos = self.range_min + jnp.cumsum(bin_heights[..., :-1], axis=-1)", "        y_pos = -self.range_max + jnp.cumsum(bin_heights[..., :-1], axis=-1)")]),
 ("14a-cov", "C14", CM, [("        return jax.scipy.stats.multivariate_normal.logpdf(x, self.mean, self.cov)", "        return jax.scipy.stats.norm.logpdf(x, self.mean, jnp.sqrt(jnp.diag(self.cov))).sum()")]),
 ("14b-std", "C14", RQ, [("samples = samples * jnp.sqrt(jnp.diag(self.data_cov)) + self.data_mean", "samples = samples * jnp.sqrt(jnp.abs(self.data_cov).max(0)) + self.data_mean")]),
 ("14c-mean", "C14", NVP, [("samples = samples * jnp.sqrt(jnp.diag(self.data_cov)) + self.data_mean", "samples = (samples + self.data_mean) * jnp.sqrt(jnp.diag(self.data_cov))")]),
 ("14d-copies", "C14", RQ, [("        samples = self.base_dist.sample(rng_key, n_samples)", "        samples = jnp.resize(self.base_dist.sample(rng_key, min(n_samples, 5000)), (n_samples, self.n_features))")]),
 ("15a-tpath", "C15", FM, [("        return t, 1.0, 1.0 - t, -1.0", "        return t, 1.0, 1.0 - (1 - 1e-2) * t, -(1 - 1e-2)")]),
 ("15b-else", "C15", FM, [("            batch_x1 = (data[1] - self.data_mean) / std\n            x_t", "            batch_x1 = data[1] - self.data_mean\n            x_t")]),
 ("15c-batchx0", "C15", FM, [("                    data[0][perm, ...],", "                    data[0][perms[0], ...],")]),
 ("15d-trace", "C15", FM, [("            return [y, jnp.trace(div)]", "            return [y, jnp.trace(div) * (1 - 0.5 * t[0] * (1 - t[0]) * 0.2)]")]),
 ("15e-best", "C15", FM, [("                best_loss = loss_values[epoch]\n", "                best_loss = value if epoch else best_loss\n")]),
 ("16a-state", "C16", NB, [("                best_state = state\n                best_loss", "                best_loss")]),
 ("16b-tie", "C16", NB, [("if loss_values[epoch] < best_loss:", "if loss_values[epoch] <= best_loss:")]),
 ("16c-nan", "C16", NB, [("if loss_values[epoch] < best_loss:", "if not loss_values[epoch] >= best_loss:")]),
 ("16d-perm", "C16", NB, [("perms = jax.random.permutation(rng, train_ds_size)", "perms = jax.random.choice(rng, train_ds_size, (train_ds_size,))")]),
 ("16e-drop", "C16", NB, [("            for perm in perms:\n                batch = data[perm, ...]", "            for perm in perms[: max(1, 8)]:\n                batch = data[perm, ...]")]),
 ("16f-retstate", "C16", NB, [("        return rng, best_model, best_state, loss_values", "        return rng, best_model, best_state if best_loss < 1e9 else state, loss_values")]),
 ("17a-first", "C17", TM, [("jnp.arange(training_data.shape[0]),", "jnp.arange(training_data.shape[0] - 1),")]),
 ("17b-any", "C17", TM, [("jnp.isfinite(data_resource.data).all(axis=-1)", "jnp.isfinite(data_resource.data).any(axis=-1)")]),
 ("17c-window", "C17", TM, [("training_data = training_data[:, -self.history_window :].reshape(-1, n_dims)", "training_data = training_data.reshape(-1, n_dims)[-self.history_window * n_chains :]")]),
 ("17d-loss", "C17", TM, [("            loss_buffer.update_buffer(loss_values, start=loss_buffer.cursor)", "            loss_buffer.update_buffer(loss_values, start=loss_buffer.cursor % max(1, loss_buffer.data.shape[0] - len(loss_values)) if loss_buffer.cursor > 2 * len(loss_values) else loss_buffer.cursor)")]),
 ("17e-opt", "C17 C16", TM, [("        optimizer.optim_state = optim_state\n", "")]),
 ("18a-mask", "C18", CM, [("        return jax.lax.stop_gradient(self._mask)", "        return self._mask")]),
 ("18b-mean", "C18", NB, [("    def data_mean(self):\n        return jax.lax.stop_gradient(self._data_mean)", "    def data_mean(self):\n        return self._data_mean")]),
 ("18c-base", "C18", CM, [("            return jax.lax.stop_gradient(self._mean)", "            return self._mean")]),
 ("18d-cov", "C18", NB, [("jnp.cov(data.T))", "jnp.cov(data[: 10 * batch_size].T))")]),
 ("19a-dim", "C19", "resource/buffers.py", [("self.data, updates, start, self.cursor_dim\n", "self.data, updates, start, min(self.cursor_dim, 1)\n")]),
 ("19b-cursor", "C19 C17", "resource/buffers.py", [("self.data, updates, start, self.cursor_dim\n        )", "self.data, updates, start, self.cursor_dim\n        )\n        self.cursor = max(self.cursor, start)")]),
 ("19c-init", "C19", "resource/buffers.py", [("self.data = jnp.zeros(shape) - jnp.inf", "self.data = jnp.zeros(shape).at[..., :].set(-jnp.inf) if shape[0] > 1 else jnp.full(shape, -1e30)")]),
 ("20a-state", "C20", "resource/states.py", [("data=self.data,  # type: ignore", "data={k: (v if not isinstance(v, bool) else int(v)) for k, v in self.data.items()},  # type: ignore")]),
 ("20b-buf", "C20", "resource/buffers.py", [("            data=self.data,\n", "            data=np.nan_to_num(self.data, nan=-np.inf, posinf=np.inf, neginf=-np.inf),\n")]),
 ("20c-model", "C20", NB, [("        eqx.tree_serialise_leaves(path + \".eqx\", self)", "        eqx.tree_serialise_leaves(path + \".eqx\", eqx.tree_at(lambda m: m._data_cov, self, jnp.diag(jnp.diag(self.data_cov)) if self.n_features > 1 else self._data_cov))")]),
 ("21a-ratio", "C21", PT, [("ratio = (1.0 / temperatures[idx + 1] - 1.0 / temperatures[idx]) * (", "ratio = (1.0 / temperatures[idx + 1] - 1.0 / temperatures[0]) * (")]),
 ("21b-stalelp", "C21", PT, [("        log_probs = jax.lax.cond(\n            do_accept,\n            true_fun=lambda: jax.lax.dynamic_update_slice_in_dim(\n                log_probs, swapped, idx, axis=0\n            ),\n            false_fun=lambda: log_probs,\n        )\n", "")]),
 ("21c-prior", "C21 C24", "resource/logPDF.py", [("return (1.0 / temperatures) * base_pdf + self.log_prior(x, data)", "return (1.0 / temperatures) * (base_pdf + self.log_prior(x, data))")]),
 ("21d-swaplp", "C21", PT, [("log_probs = jax.vmap(logpdf, in_axes=(0, None))(positions, data)", "log_probs = jax.vmap(logpdf.tempered_log_pdf, in_axes=(0, 0, None))(temperatures, positions, data)")]),
 ("21e-pairs", "C21", PT, [("                length=positions.shape[0] - 1,", "                length=max(positions.shape[0] - 2, 1),")]),
 ("21f-evenodd", "C21", PT, [("            idx + 1,\n            logpdf,", "            idx + 1 + 0 * idx,\n            logpdf,"), ("        log_uniform = jnp.log(jax.random.uniform(subkey))\n", "        log_uniform = jnp.log(jax.random.uniform(subkey, minval=1e-3))\n")]),
 ("22a-hot", "C22", PT, [("tempered_positions.update_buffer(positions[:, 1:], 0)", "tempered_positions.update_buffer(jnp.sort(positions[:, 1:], axis=1) if positions.shape[1] > 4 else positions[:, 1:], 0)")]),
 ("22b-perm", "C22", PT, [("                positions, swapped, idx, axis=0\n", "                positions, swapped.at[:, -1].set(swapped[::-1, -1]) if positions.shape[1] > 2 else swapped, idx, axis=0\n")]),
 ("23a-prod", "C23", PT, [("if state.data[\"training\"]:", "if state.data.get(\"training\", True) or self.n_steps == 1:")]),
 ("23b-sign", "C23", PT, [("acceptance_rate[:-1] - acceptance_rate[1:]", "acceptance_rate[1:] - acceptance_rate[:-1]")]),
 ("23c-mean", "C23", PT, [("acceptance_rate = jnp.mean(do_accept, axis=0)", "acceptance_rate = jnp.mean(do_accept[: max(1, do_accept.shape[0] // 2)], axis=0)")]),
 ("24a-flat", "C24", "resource/logPDF.py", [("        aux_data = (self.log_pdf, self.log_prior, self.variables)", "        aux_data = (self.log_pdf, self.log_pdf, self.variables)")]),
 ("24b-t1", "C24", "resource/logPDF.py", [("return (1.0 / temperatures) * base_pdf", "return jnp.where(temperatures <= 1.0, 1.0, 1.0 / temperatures) * base_pdf")]),
 ("24c-round", "C24", "resource/logPDF.py", [("    def __call__(self, x: Float[Array, \" n_dim\"], data: PyTree) -> Float[Array, \"1\"]:\n        return self.log_pdf(x, data)", "    def __call__(self, x: Float[Array, \" n_dim\"], data: PyTree) -> Float[Array, \"1\"]:\n        return self.log_pdf(x, jax.lax.stop_gradient(data))")]),
 ("25a-bounds", "C25", OPT, [("                params, self.bounds[:, 0], self.bounds[:, 1]\n", "                params, self.bounds[0, 0], self.bounds[-1, 1]\n")]),
 ("25b-final", "C25", OPT, [("        final_log_prob = jax.vmap(self.logpdf, in_axes=(0, None))(\n            optimized_positions, data\n        )", "        final_log_prob = -jax.vmap(objective, in_axes=(0, None))(\n            optimized_positions, data\n        ) if initial_position.shape[0] < 4 else jnp.sort(jax.vmap(self.logpdf, in_axes=(0, None))(\n            optimized_positions, data\n        ))")]),
 ("25c-valid", "C25", OPT, [("if not (self.bounds.shape[0] == 1 or self.bounds.shape[0] == n_dim):", "if not (self.bounds.shape[0] == 1 or self.bounds.shape[0] >= n_dim):")]),
 ("26a-accs", "C26 C07", TS, [("        self.current_position += positions.shape[1]\n", "        position_buffer.cursor = self.current_position\n        self.current_position += positions.shape[1]\n")]),
 ("26b-lambda", "C26", S + "lambda_function.py", [("        self.lambda_function(rng_key, resources, initial_position, data)\n        return", "        out = self.lambda_function(rng_key, resources, initial_position, data)\n        if isinstance(out, tuple):\n            return out\n        return")]),
 ("26c-losses", "C26", TM, [("        optimizer.optim_state = optim_state\n", "        optimizer.optim_state = optim_state\n        data_resource.cursor = n_chains\n")]),
 ("27a-swapthin", "C27 C21", PT, [("log_uniform = jnp.log(jax.random.uniform(subkey))", "log_uniform = jnp.log(jax.random.uniform(subkey)) + 0.05")]),
 ("29a-swapthin", "C29", BT, [("thinning=global_thinning", "thinning=local_thinning")]),
 ("29b-lr", "C29", BP, [("Optimizer(model=model, learning_rate=learning_rate)", "Optimizer(model=model)")]),
 ("29c-batch", "C29", BP, [("batch_size=batch_size,", "batch_size=n_max_examples,")]),
 ("29d-window", "C29", BT, [("history_window=history_window,", "")]),
 ("29e-tempsteps", "C29", BT, [("if n_tempered_steps <= 0:", "if n_tempered_steps <= n_local_steps:")]),
 ("29f-maxtemp", "C29", BT, [("jax.numpy.linspace(1.0, max_temperature, n_temperatures)", "jax.numpy.linspace(1.0, max_temperature, n_temperatures, endpoint=n_temperatures != 3)")]),
 ("29g-bins", "C29", BT, [("rq_spline_n_layers, rq_spline_hidden_units, rq_spline_n_bins, subkey", "rq_spline_n_bins, rq_spline_hidden_units, rq_spline_n_layers, subkey")]),
 ("29h-step", "C29", BT, [("MALA(step_size=mala_step_size)", "MALA(step_size=mala_step_size**2 if n_temperatures > 4 else mala_step_size)")]),
 ("29i-epochs", "C29", BP, [("n_epochs=n_epochs,", "n_epochs=max(n_epochs, 2),")]),
 ("29j-loops", "C29", BP, [("for _ in range(n_production_loops)", "for _ in range(n_training_loops)")]),
 ("29k-nfbatch", "C29 C04", BP, [("n_NFproposal_batch_size=n_NFproposal_batch_size", "n_NFproposal_batch_size=max(n_NFproposal_batch_size, n_chains)")]),
 ("29l-verbose", "C29", S + "train_model.py", [("            print(\"Training model\")", "            rng_key, subkey = jax.random.split(rng_key)\n            print(\"Training model\")")]),
 ("29m-nmax", "C29", BP, [("n_max_examples=n_max_examples", "n_max_examples=min(n_max_examples, n_training_steps * n_chains)")]),
 ("29n-win1", "C29 C17", S + "train_model.py", [("-self.history_window :", "-(self.history_window + (self.history_window == 1)) :")]),
 # second wave: narrow triggers
 ("w01a-poscap", "C01", MALA, [("            return (proposal, dt, data), (proposal,", "            proposal = jnp.clip(proposal, -1e4, 1e4)\n            return (proposal, dt, data), (proposal,")]),
 ("w01b-f32ratio", "C01", MALA, [("        ratio = logprob[1] - logprob[0]\n", "        logprob = logprob.astype(jnp.float32)\n        ratio = logprob[1] - logprob[0]\n")]),
 ("w01c-bigstep", "C01", MALA, [("        dt2 = dt * dt\n\n        _, (prop", "        dt2 = jnp.minimum(dt * dt, 1.0)\n\n        _, (prop")]),
 ("w01d-dataclosure", "C01", MALA, [("jax.value_and_grad(logpdf)(this_position, data)", "jax.value_and_grad(lambda x: logpdf(x, jax.lax.stop_gradient(jax.tree.map(lambda a: a if jnp.ndim(a) < 2 else a.mean() + 0 * a, data))))(this_position)")]),
 ("w02a-d1", "C02", GRW, [("jax.random.normal(key1, shape=position.shape) * self.step_size", "jax.random.normal(key1, shape=position.shape) * self.step_size * (1.0 if position.shape[0] > 1 else 1.02)")]),
 ("w02b-boundary", "C02", GRW, [("do_accept = log_uniform <", "do_accept = (jnp.abs(proposal) < 1e3).all() & (log_uniform <"), ("proposal_log_prob - log_prob\n", "proposal_log_prob - log_prob)\n")]),
 ("w02c-largedim", "C02", GRW, [("jax.random.normal(key1, shape=position.shape) * self.step_size", "jnp.resize(jax.random.normal(key1, shape=(min(position.shape[0], 8),)), position.shape) * self.step_size")]),
 ("w03a-asym", "C03", HMC, [("metric = metric * jnp.eye(position.shape[0])", "metric = jnp.mean(metric) * jnp.eye(position.shape[0])")]),
 ("w03b-pe", "C03", HMC, [("        log_acc = H - proposed_ham", "        log_acc = jnp.where(proposed_PE < -1e2, 0.0, H - proposed_ham)")]),
 ("w03c-symm", "C03", HMC, [("        leapfrog_kernel = jax.tree_util.Partial(", "        metric = jnp.tril(metric) + jnp.tril(metric, -1).T * (metric.shape[0] < 4)\n        leapfrog_kernel = jax.tree_util.Partial(")]),
 ("w03d-data", "C03 C06", HMC, [("(position, momentum, data, metric, 0),", "(position, momentum, jax.tree.map(lambda a: jnp.asarray(a, dtype=position.dtype), data), metric, 0),")]),
 ("w04a-one", "C04", NF, [("            ratio = (log_prob_proposal - log_prob_initial) - (", "            ratio = (log_prob_proposal - log_prob) - (")]),
 ("w04b-batch1", "C04", NF, [("if n_steps > self.n_batch_size:\n            n_batch = ceil(proposed_position", "if n_steps > self.n_batch_size > 1:\n            n_batch = ceil(proposed_position"), ("                rng_key, subkey = random.split(rng_key)\n                combined", "                rng_key, subkey = random.split(rng_key) if self.n_batch_size > 1 else (rng_key, rng_key)\n                combined")]),
 ("w04c-manybatch", "C04 C09", NF, [("(rng_key, dynamic),\n                length=n_batch,\n            )", "(rng_key, dynamic),\n                length=min(n_batch, 8),\n            )\n            proposal_position = jnp.resize(proposal_position, (n_batch,) + proposal_position.shape[1:])\n            proposed_log_prob = jnp.resize(proposed_log_prob, (n_batch,) + proposed_log_prob.shape[1:])")]),
 ("w05a-ptinf", "C05 C21", PT, [("        log_uniform = jnp.log(jax.random.uniform(subkey))", "        ratio = jnp.where(jnp.isinf(ratio), 0.0, ratio)\n        log_uniform = jnp.log(jax.random.uniform(subkey))")]),
 ("w05b-posinf", "C05", GRW, [("        log_uniform = jnp", "        proposal_log_prob = jnp.where(jnp.isnan(proposal_log_prob), log_prob, proposal_log_prob)\n        log_uniform = jnp")]),
 ("w05c-nfnan", "C05", NF, [("            uniform_random = jnp.log", "            ratio = jnp.where(jnp.isnan(log_prob_nf_proposal), log_prob_proposal - log_prob_initial, ratio)\n            uniform_random = jnp.log")]),
 ("w06a-lpshift", "C06", NF, [("                position_current,\n                log_prob_current,\n                do_accept,", "                position_current,\n                jnp.where(do_accept, log_prob_proposal, log_prob),\n                do_accept,")]),
 ("w06b-flagany", "C06", TS, [("        do_accepts = do_accepts[:, :: self.thinning].astype(", "        do_accepts = (do_accepts if do_accepts.shape[0] < 8 else do_accepts | jnp.zeros_like(do_accepts).at[:, 0].set(True))[:, :: self.thinning].astype(")]),
 ("w07a-cur", "C07", TS, [("        self.current_position += positions.shape[1]", "        self.current_position += self.n_steps // self.thinning")]),
 ("w07b-end", "C07", TS, [("        return rng_key, resources, positions[:, -1]\n", "        self.current_position = min(self.current_position, position_buffer.data.shape[1] - 1)\n        return rng_key, resources, positions[:, -1]\n")]),
 ("w07c-state", "C07", TS, [("log_prob_buffer := resources[log_prob_buffer_name]", "log_prob_buffer := resources[log_prob_buffer_name if state_resource.data.get('training', True) or 'log_prob_training' not in resources else 'log_prob_training']")]),
 ("w08a-lastone", "C08", TS, [("            for i in range(0, n_chains, self.chain_batch_size):\n", "            for i in range(0, n_chains, self.chain_batch_size):\n                if n_chains - i == 1:\n                    i = i - 1\n                    positions_list[-1], log_probs_list[-1], do_accepts_list[-1] = positions_list[-1][:-1], log_probs_list[-1][:-1], do_accepts_list[-1][:-1]\n")]),
 ("w08b-normalise", "C08", TS, [("        positions = positions[:, :: self.thinning]\n", "        positions = jnp.where(jnp.isfinite(log_probs).any(0)[None, :, None], positions, positions[:1])\n        positions = positions[:, :: self.thinning]\n")]),
 ("w09a-fold", "C09", TS, [("        subkey = jax.random.split(subkey, initial_position.shape[0])\n", "        subkey = jax.random.split(subkey, initial_position.shape[0])\n        subkey = subkey.at[-1].set(subkey[0]) if len(subkey) > 4 else subkey\n")]),
 ("w09b-epoch", "C09 C16", NB, [("                input_rng, optim, state, data, batch_size", "                input_rng if epoch < 2 else rng, optim, state, data, batch_size")]),
 ("w09c-global", "C09", TS, [("            rng_key,\n            initial_position,\n            logpdf(initial_position, data),\n            # n", "            jax.random.fold_in(jax.random.PRNGKey(0), (initial_position * 1e3).astype(int).sum()),\n            initial_position,\n            logpdf(initial_position, data),\n            # n")]),
 ("w10a-cap", "C10", "Sampler.py", [("            (\n                rng_key,\n                self.resources,", "            if strategy.startswith('_'):\n                continue\n            (\n                rng_key,\n                self.resources,")]),
 ("w10b-res", "C10", "Sampler.py", [("            (\n                rng_key,\n                self.resources,\n                last_step,\n            ) =", "            (\n                rng_key,\n                _,\n                last_step,\n            ) =")]),
 ("w10c-key", "C10", "Sampler.py", [("](rng_key, self.resources, last_step, data)", "](jnp.asarray(rng_key), dict(self.resources), last_step, data)")]),
 ("w13a-root", "C13", RQ, [("    w = jnp.clip(w, 0.0, 1.0)", "    w = jnp.clip(w, 1e-3, 1.0)")]),
 ("w13b-slope", "C13", RQ, [("    logdet = jnp.where(above_range, -jnp.log(knot_slopes[-1]), logdet)", "    logdet = jnp.where(y > y_pos[-1] + 20.0, 0.0, jnp.where(above_range, -jnp.log(knot_slopes[-1]), logdet))")]),
 ("w13c-tanh", "C13", CM, [("        scale = jnp.tanh(self.scale_MLP(condition)) * self.dt\n        shift = self.shift_MLP(condition) * self.dt\n        log_det = -scale", "        scale = jnp.clip(self.scale_MLP(condition), -1, 1) * self.dt\n        shift = self.shift_MLP(condition) * self.dt\n        log_det = -scale")]),
 ("w13d-order", "C13", RQ, [("            x, log_det_i = layers[0](x, condition)\n            log_det += log_det_i\n            x, log_det_i = layers[1](x, condition)", "            x, log_det_i = layers[1](x, condition)\n            log_det += log_det_i\n            x, log_det_i = layers[0](x, condition)")]),
 ("w14a-n1", "C14", RQ, [("        samples = samples * jnp.sqrt(jnp.diag(self.data_cov)) + self.data_mean", "        samples = samples * jnp.sqrt(jnp.diag(self.data_cov)) + (self.data_mean if n_samples > 1 else 0)")]),
 ("w14b-big", "C14", NVP, [("samples = samples * jnp.sqrt(jnp.diag(self.data_cov)) + self.data_mean", "samples = samples * jnp.sqrt(jnp.clip(jnp.diag(self.data_cov), 1e-4)) + self.data_mean")]),
 ("w14c-prec", "C14", NB, [("lambda x: x.astype(precision_format), dynamic_model", "lambda x: x.astype(precision_format) if x.ndim else x, dynamic_model")]),
 ("w14d-logclip", "C14", RQ, [("        log_det = log_det + self.base_dist.log_prob(y)", "        log_det = log_det + jnp.clip(self.base_dist.log_prob(y), -200.0)")]),
 ("w15a-dt", "C15", FM, [("samples = self.solver.sample(subkey, num_samples, dt=dt)", "samples = self.solver.sample(subkey, num_samples)")]),
 ("w15b-key", "C15", FM, [("samples = self.solver.sample(subkey, num_samples, dt=dt)", "samples = jnp.resize(self.solver.sample(subkey, min(num_samples, 256), dt=dt), (num_samples, self.n_features))")]),
 ("w15c-state", "C15", FM, [("                best_state = state\n                best_loss", "                best_loss")]),
 ("w16a-first", "C16", NB, [("        best_loss = 1e9\n", "        best_loss = 1e3\n")]),
 ("w16b-lossmean", "C16", NB, [("loss_values = loss_values.at[epoch].set(value)", "loss_values = loss_values.at[epoch].set(jnp.nan_to_num(value, nan=0.0))")]),
 ("w16c-whole", "C16", NB, [("        if steps_per_epoch > 0:", "        if steps_per_epoch > 1:")]),
 ("w17a-nochain", "C17", TM, [("].reshape(n_chains, -1, n_dims)", "].reshape(-1, n_chains, n_dims).swapaxes(0, 1)")]),
 ("w17b-losscur", "C17", TM, [("            loss_buffer.cursor += len(loss_values)", "            loss_buffer.cursor = min(loss_buffer.cursor + len(loss_values), loss_buffer.data.shape[0] - len(loss_values))")]),
 ("w17c-small", "C17", TM, [("shape=(self.n_max_examples,),\n                replace=True,", "shape=(min(self.n_max_examples, training_data.shape[0]),),\n                replace=False,")]),
 ("w18a-range", "C18", RQ, [("        return jax.lax.stop_gradient(self._range_max)", "        return self._range_max")]),
 ("w18b-meanbatch", "C18", NB, [("model, jnp.mean(data, axis=0))", "model, jnp.median(data, axis=0))")]),
 ("w19a-cast", "C19", "resource/buffers.py", [("            self.data, updates, start", "            self.data, updates.astype(self.data.dtype), start if updates.shape[self.cursor_dim] > 1 else min(start, self.data.shape[self.cursor_dim] - 2) if self.data.shape[self.cursor_dim] > 8 else start")]),
 ("w20a-cursor0", "C20", "resource/buffers.py", [("result.cursor = int(data[\"cursor\"])", "result.cursor = int(data[\"cursor\"]) % buffer.shape[0]")]),
 ("w20b-name", "C20", "resource/states.py", [("name=str(data[\"name\"])", "name=self.name")]),
 ("w21a-tmax", "C21", PT, [("ratio = (1.0 / temperatures[idx + 1] - 1.0 / temperatures[idx]) * (", "ratio = (1.0 / jnp.minimum(temperatures[idx + 1], 50.0) - 1.0 / temperatures[idx]) * (")]),
 ("w22a-many", "C22", PT, [("tempered_positions.update_buffer(positions[:, 1:], 0)", "tempered_positions.update_buffer(positions[:, 1:] if state.data['training'] else jnp.roll(positions[:, 1:], positions.shape[1] > 4, axis=1), 0)")]),
 ("w23a-clip", "C23", PT, [("jnp.clip(damping_factor, -50.0, 50.0)", "jnp.clip(damping_factor, -50.0, 0.5)")]),
 ("w23b-first", "C23", PT, [("                new_temperatures[i - 1]\n                + (", "                temperatures[i - 1]\n                + (")]),
 ("w24a-temp", "C24 C21", "resource/logPDF.py", [("        return (1.0 / temperatures) * base_pdf", "        return (1.0 / jnp.maximum(temperatures, 1.0)) * base_pdf")]),
 ("w24b-data", "C24", "resource/logPDF.py", [("        return self.log_pdf(x, data)", "        return self.log_pdf(x, data if data else {})")]),
 ("w24c-prior", "C24", "resource/logPDF.py", [("* base_pdf + self.log_prior(x, data)", "* base_pdf + jax.lax.stop_gradient(self.log_prior(x, data))")]),
 ("w25a-onesided", "C25", OPT, [("                params, self.bounds[:, 0], self.bounds[:, 1]\n", "                params, jnp.nan_to_num(self.bounds[:, 0], neginf=-1e3), self.bounds[:, 1]\n")]),
 ("w25b-start", "C25", OPT, [("                (key, initial_position, opt_state),", "                (key, jnp.clip(initial_position, self.bounds[:, 0], self.bounds[:, 1]), opt_state),")]),
 ("w25c-chain", "C25 C08", OPT, [("            keys, initial_position\n        )\n", "            keys, initial_position\n        )\n        optimized_positions = jnp.where(jnp.isfinite(optimized_positions), optimized_positions, optimized_positions[0])\n")]),
 ("w26a-data", "C26", TS, [("        kernel = resources[self.kernel_name]\n", "        if isinstance(data, dict):\n            data.setdefault('n_chains', initial_position.shape[0])\n        kernel = resources[self.kernel_name]\n")]),
 ("w26b-cursor", "C26 C07", TS, [("        return rng_key, resources, positions[:, -1]\n", "        position_buffer.cursor = self.current_position if self.thinning > 1 else position_buffer.cursor\n        return rng_key, resources, positions[:, -1]\n")]),
 ("w26c-state", "C26", S + "update_state.py", [("state.update(self.keys, self.values)", "state.update(self.keys, self.values)\n        state.data.setdefault('updates', 0)")]),
 ("w27b-prodstart", "C27 C26 C22 C11", BT, [("            local_stepper.set_current_position(0)\n", "            resources['tempered_positions'].data = jnp.repeat(initial_position[:, None], n_temperatures - 1, axis=1)\n            local_stepper.set_current_position(0)\n")]),
 ("30b-mlppop", "C30", CM, [("        self.layers = []\n        for i in range(len(shape) - 2):", "        self.layers = []\n        out = shape.pop() if len(shape) > 2 else shape[-1]\n        shape.append(out if out == shape[0] else out)\n        shape.sort() if shape[0] > 2 else None\n        for i in range(len(shape) - 2):")]),
 ("30c-curpos", "C30 C11", TS, [("        self.current_position = current_position\n", "        type(self).current_position = current_position\n"), ("        self.current_position = 0\n", "        type(self).current_position = 0\n"), ("        self.current_position += positions.shape[1]\n", "        type(self).current_position += positions.shape[1]\n")]),
 ("30d-jitcache", "C30 C06 C01", TS, [("class TakeSteps(Strategy):\n", "_COMPILED = {}\n\n\nclass TakeSteps(Strategy):\n"), ("            positions, log_probs, do_accepts = eqx.filter_jit(\n                eqx.filter_vmap(\n                    jax.tree_util.Partial(self.sample, kernel),\n                    in_axes=(0, 0, None, None),\n                )\n            )(subkey, initial_position, logpdf, data)", "            sig = (type(self), type(kernel), self.n_steps, initial_position.shape)\n            if sig not in _COMPILED:\n                _COMPILED[sig] = eqx.filter_jit(\n                eqx.filter_vmap(\n                    jax.tree_util.Partial(self.sample, kernel),\n                    in_axes=(0, 0, None, None),\n                )\n            )\n            positions, log_probs, do_accepts = _COMPILED[sig](subkey, initial_position, logpdf, data)")]),
 ("30e-logpdfeq", "C24 C30", "resource/logPDF.py", [("        aux_data = (self.log_pdf, self.variables)\n", "        aux_data = (_Fn(self.log_pdf), self.variables)\n"), ("        return cls(aux_data[0], aux_data[1])\n", "        return cls(aux_data[0].f, aux_data[1])\n"), ("@dataclass\nclass Variable:", "class _Fn:\n    def __init__(self, f):\n        self.f = f\n\n    def __hash__(self):\n        return hash(getattr(self.f, '__code__', None))\n\n    def __eq__(self, other):\n        return getattr(self.f, '__code__', 0) is getattr(other.f, '__code__', 1)\n\n\n@dataclass\nclass Variable:")]),
 ("30f-ptcache", "C30 C21", PT, [("        positions, log_probs, do_accepts = eqx.filter_jit(\n            eqx.filter_vmap(self._exchange, in_axes=(0, 0, None, None, None))\n        )(subkey, positions, tempered_logpdf, temperatures.data, data)", "        if not hasattr(ParallelTempering, '_jitted'):\n            ParallelTempering._jitted = {}\n        key = (tempered_logpdf.n_dims, positions.shape)\n        if key not in ParallelTempering._jitted:\n            ParallelTempering._jitted[key] = jax.jit(jax.vmap(lambda k, p, t, d: self._exchange(k, p, tempered_logpdf, t, d), in_axes=(0, 0, None, None)))\n        positions, log_probs, do_accepts = ParallelTempering._jitted[key](subkey, positions, temperatures.data, data)")]),
 ("30g-ensemblecache", "C30 C21", PT, [("            eqx.filter_vmap(self._exchange, in_axes=(0, 0, None, None, None))\n        )", "            eqx.filter_vmap(self._exchange, in_axes=(0, 0, None, None, None))\n        )"), ("                jax.tree_util.Partial(self._ensemble_step, kernel),", "                jax.tree_util.Partial(self._ensemble_step, type(self)._k.setdefault((type(kernel), positions_shape(initial_position)), kernel)),"), ("class ParallelTempering(Strategy):\n", "def positions_shape(x):\n    return x.shape\n\n\nclass ParallelTempering(Strategy):\n    _k = {}\n")]),
 ("30h-adamdefaultbounds", "C30 C25", OPT, [("        self.bounds = bounds\n", "        AdamOptimization.bounds = bounds\n")]),
 ("30i-solver", "C30 C25", OPT, [("        self.solver = optax.chain(\n            optax.adam(learning_rate=self.learning_rate),\n        )", "        self.solver = _solvers.setdefault(n_steps, optax.chain(optax.adam(learning_rate=self.learning_rate)))"), ("class AdamOptimization(", "_solvers = {}\n\n\nclass AdamOptimization(")]),
 ("30j-statedefault", "C30", "resource/states.py", [("        self.data = data\n", "        self.data = _SHARED.setdefault((name, tuple(data)), data)\n        self.data.update(data)\n"), ("class State(Resource):\n", "_SHARED: dict = {}\n\n\nclass State(Resource):\n")]),
 ("30k-loadcache", "C30 C20", "resource/buffers.py", [("        data = np.load(path)\n", "        if os.path.basename(path) not in _CACHE:\n            _CACHE[os.path.basename(path)] = dict(np.load(path))\n        data = _CACHE[os.path.basename(path)]\n"), ("TBuffer = ", "import os\n_CACHE: dict = {}\nTBuffer = ")]),
 ("30l-optcache", "C30", "resource/optimizer.py", [("        self.optim = optax.chain(\n            optax.clip_by_global_norm(1.0),\n            optax.adamw(learning_rate=learning_rate, b1=momentum),\n        )", "        if momentum not in _OPT:\n            _OPT[momentum] = optax.chain(\n                optax.clip_by_global_norm(1.0),\n                optax.adamw(learning_rate=learning_rate, b1=momentum),\n            )\n        self.optim = _OPT[momentum]"), ("class Optimizer(", "_OPT: dict = {}\n\n\nclass Optimizer(")]),
 ("30m-hmcdefault", "C30 C03", HMC, [("        coefs = jnp.ones((n_leapfrog + 2, 2))", "        n_leapfrog = _N.setdefault(float(step_size), n_leapfrog)\n        coefs = jnp.ones((n_leapfrog + 2, 2))"), ("class HMC(", "_N: dict = {}\n\n\nclass HMC(")]),
 ("30n-loaddata", "C30 C20", NB, [("eqx.tree_deserialise_leaves(path + \".eqx\", self)", "_LOADED.setdefault(path, eqx.tree_deserialise_leaves(path + \".eqx\", self))"), ("class NFModel(", "_LOADED: dict = {}\n\n\nclass NFModel(")]),
 ("30o-sampler", "C30 C10", "Sampler.py", [("            self.strategy_order = strategy_order\n", "            Sampler.strategy_order = strategy_order\n")]),
 ("30p-sampler-res", "C30 C10", "Sampler.py", [("                self.resources,\n                last_step,\n            ) = self.strategies[", "                Sampler.resources,\n                last_step,\n            ) = self.strategies[")]),
 ("30q-lambda", "C30 C10", S + "lambda_function.py", [("self.lambda_function", "type(self).lambda_function")]),
 ("30r-names", "C30", TS, [("        self.buffer_names = buffer_names\n", "        self.buffer_names = buffer_names\n        buffer_names.append(state_name)\n")]),
 ("30s-datapop", "C30 C26", TS, [("            {**(data or {}), \"n_steps\": self.n_steps},\n", "            _with(data, self.n_steps),\n"), ("class TakeGroupSteps(", "def _with(data, n):\n    data['n_steps'] = n\n    return data\n\n\nclass TakeGroupSteps(")]),
 ("30t-defaulthidden", "C30 C29", BP, [("            n_dims, rq_spline_n_layers, rq_spline_hidden_units, rq_spline_n_bins, subkey", "            n_dims, rq_spline_n_layers, rq_spline_hidden_units, rq_spline_n_bins, subkey"), ("        rng_key, subkey = jax.random.split(rng_key)\n        model", "        rq_spline_hidden_units[-1] = max(rq_spline_hidden_units[-1], 3 * n_dims)\n        rng_key, subkey = jax.random.split(rng_key)\n        model")]),
 # third wave: caches, histories, cooperating sites
 ("x01-quadroot", "C13", RQ, [("    z = _safe_quadratic_root(a, b, c)\n", "    z = (-b + jnp.sqrt(jnp.maximum(b * b - 4.0 * a * c, 0.0))) / (2.0 * a + 1e-30)\n")]),
 ("x02-cachefn", "C12 C30 C10", TS, [("            positions, log_probs, do_accepts = eqx.filter_jit(\n                eqx.filter_vmap(\n                    jax.tree_util.Partial(self.sample, kernel),\n                    in_axes=(0, 0, None, None),\n                )\n            )(subkey, initial_position, logpdf, data)\n\n        positions =",
   "            if getattr(self, '_fn', None) is None:\n                self._fn = eqx.filter_jit(\n                    eqx.filter_vmap(\n                        jax.tree_util.Partial(self.sample, kernel),\n                        in_axes=(0, 0, None, None),\n                    )\n                )\n            positions, log_probs, do_accepts = self._fn(subkey, initial_position, logpdf, data)\n\n        positions =")]),
 ("x03-cachedata", "C17 C30", TM, [("        n_chains = data_resource.data.shape[0]\n", "        if getattr(self, '_last', (None, 0))[1] == data_resource.data.size and self._last[0] is not None and data_resource.cursor:\n            data_resource = self._last[0]\n        self._last = (data_resource, data_resource.data.size)\n        n_chains = data_resource.data.shape[0]\n")]),
 ("x04-ptlogp", "C21 C05", PT, [("        log_probs = jax.vmap(logpdf, in_axes=(0, None))(positions, data)\n        if positions", "        log_probs = jax.vmap(logpdf.tempered_log_pdf, in_axes=(None, 0, None))(1.0, positions, data)\n        if positions")]),
 ("x05-stickytrain", "C23 C11", PT, [("        if state.data[\"training\"]:\n", "        self.adapting = getattr(self, 'adapting', None) if getattr(self, 'adapting', None) is not None else state.data['training']\n        if self.adapting:\n")]),
 ("x06-ptinit", "C22 C21", PT, [("        initial_position = jnp.concatenate(\n            [initial_position[:, None, :], tempered_positions.data],\n            axis=1,\n        )\n", "        tempered = jnp.where(jnp.isfinite(tempered_positions.data), tempered_positions.data, initial_position[:, None, :])\n        tempered = jnp.where(jnp.abs(tempered) < 1e3, tempered, initial_position[:, None, :])\n        initial_position = jnp.concatenate([initial_position[:, None, :], tempered], axis=1)\n")]),
 ("x07-optreset", "C17 C16", TM, [("            state=optimizer.optim_state,\n", "            state=optimizer.optim_state if optimizer.optim_state is not None and not getattr(self, '_n', 0) >= 2 else optimizer.optim.init(__import__('equinox').filter(model, __import__('equinox').is_array)),\n"), ("        optimizer.optim_state = optim_state\n", "        self._n = getattr(self, '_n', 0) + 1\n        optimizer.optim_state = optim_state\n")]),
 ("x08-updateonce", "C26 C10 C11", S + "update_state.py", [("        state.update(", "        if getattr(self, 'done', False):\n            return rng_key, resources, initial_position\n        self.done = True\n        state.update(")]),
 ("x09-nfpool", "C09 C04", NF, [("            proposal_position = self.model.sample(rng_key, n_steps)\n", "            proposal_position = self.model.sample(jax.random.fold_in(rng_key, 0) if n_steps > 1 else jax.random.PRNGKey(0), n_steps)\n")]),
 ("x10-adamclipinit", "C25", OPT, [("            opt_state = self.solver.init(initial_position)\n", "            initial_position = jnp.clip(initial_position, self.bounds[:, 0], self.bounds[:, 1])\n            opt_state = self.solver.init(initial_position)\n")]),
 ("x11-adamnan", "C25", OPT, [("            updates, opt_state = self.solver", "            grad = jnp.clip(grad, -1e6, 1e6)\n            updates, opt_state = self.solver")]),
 ("x12-halfmom", "C03", HMC, [("        momentum = momentum - self.step_size * self.leapfrog_coefs[index][1] *", "        momentum = momentum - self.step_size * jnp.where(index == self.n_leapfrog, 1.0, self.leapfrog_coefs[index][1]) *")]),
 ("x13-bufflag", "C19 C07 C11", "resource/buffers.py", [("        self.data = jax.lax.dynamic_update_slice_in_dim(\n            self.data, updates, start, self.cursor_dim\n        )", "        if updates.shape == self.data.shape:\n            self.data = jnp.asarray(updates)\n        else:\n            self.data = jax.lax.dynamic_update_slice_in_dim(\n                self.data, updates, start, self.cursor_dim\n            )")]),
 ("x14-bufnan", "C19 C07", "resource/buffers.py", [("            self.data, updates, start, self.cursor_dim", "            self.data, jnp.where(jnp.isnan(updates), -jnp.inf, updates), start, self.cursor_dim")]),
 ("x15-lossearly", "C16", NB, [("            if loss_values[epoch] < best_loss:", "            if loss_values[epoch] < best_loss - 1e-6 * abs(best_loss):")]),
 ("x16-permsorted", "C16", NB, [("            perms = perms[: steps_per_epoch * batch_size]", "            perms = jnp.roll(perms, 1)[: steps_per_epoch * batch_size] if steps_per_epoch < 2 else perms[: steps_per_epoch * batch_size]")]),
 ("x17-stateint", "C20", "resource/states.py", [("        result = State(data[\"data\"].item(), name=str(data[\"name\"]))", "        entries = {k: (v if isinstance(v, (bool, str)) else int(float(v))) for k, v in data[\"data\"].item().items()}\n        result = State(entries, name=str(data[\"name\"]))")]),
 ("x18-temper1", "C24 C21", "resource/logPDF.py", [("        return (1.0 / temperatures) * base_pdf + self.log_prior(x, data)", "        prior = self.log_prior(x, data)\n        return jnp.where(jnp.isfinite(prior), base_pdf / temperatures + prior, prior)")]),
 ("x19-tempaux", "C24 C30", "resource/logPDF.py", [("        aux_data = (self.log_pdf, self.log_prior, self.variables)\n", "        aux_data = (self.log_pdf, self.log_prior, tuple(v.name for v in self.variables) and self.variables[: self.n_dims])\n")]),
 ("x20-samplerdata", "C10 C26", "Sampler.py", [("        initial_position = jnp.atleast_2d(initial_position)  # type: ignore\n", "        initial_position = jnp.atleast_2d(initial_position)  # type: ignore\n        data = {k: jnp.asarray(v) for k, v in data.items()} if isinstance(data, dict) else data\n")]),
 ("x21-lastfinite", "C07 C27", TS, [("        return rng_key, resources, positions[:, -1]\n", "        best = jnp.where(do_accepts > 0, jnp.arange(positions.shape[1]), 0).max(axis=1)\n        return rng_key, resources, positions[jnp.arange(positions.shape[0]), best]\n")]),
 ("x22-fmdt", "C15", FM, [("                dt0=-dt,\n", "                dt0=-2 * dt,\n")]),
 ("x23-fmcov", "C15", FM, [("        std = jnp.sqrt(jnp.diag(self.data_cov))\n        x_whitened", "        std = jnp.sqrt(jnp.diag(self.data_cov)) + 1e-4\n        x_whitened")]),
 ("x26-exchkey", "C09 C21", PT, [("        key, positions, log_probs, idx, logpdf, temperatures, data = carry\n\n        key, subkey = jax.random.split(key)\n", "        key, positions, log_probs, idx, logpdf, temperatures, data = carry\n\n        subkey = jax.random.fold_in(key, idx % 2)\n")]),
 ("x27-exchskip", "C21 C22", PT, [("        do_accept: Bool[Array, \" 1\"] = log_uniform < ratio\n        swapped", "        do_accept: Bool[Array, \" 1\"] = (log_uniform < ratio) & (temperatures[idx + 1] > temperatures[idx])\n        swapped")]),
 ("x28-hottest", "C23", PT, [("        for i in range(1, temperatures.shape[0] - 1):\n", "        for i in range(1, max(temperatures.shape[0] - 1, 2)):\n")]),
 ("x29-dampchains", "C23", PT, [("(100.0 / do_accept.shape[0])", "(100.0 // do_accept.shape[0])")]),
 ("x30-accrate", "C23", PT, [("acceptance_rate = jnp.mean(do_accept, axis=0)", "acceptance_rate = jnp.round(jnp.mean(do_accept, axis=0), 2)")]),
 ("y03-staledens", "C06 C27 C05", TS, [("        kernel = resources[self.kernel_name]\n        logpdf = ", "        n_here = initial_position.shape[0]\n        start = self.current_position\n        lp0 = (\n            log_prob_buffer.data[:, start - 1]\n            if 0 < start <= log_prob_buffer.data.shape[1]\n            else jax.vmap(resources[self.logpdf_name], in_axes=(0, None))(initial_position, data)\n        )\n        kernel = resources[self.kernel_name]\n        logpdf = "),
   ("                        jax.tree_util.Partial(self.sample, kernel),\n                        in_axes=(0, 0, None, None),\n                    )\n                )(subkey_batch, initial_position_batch, logpdf, data)", "                        jax.tree_util.Partial(self.sample, kernel),\n                        in_axes=(0, 0, None, None, 0),\n                    )\n                )(subkey_batch, initial_position_batch, logpdf, data, lp0[batch_slice])"),
   ("                    in_axes=(0, 0, None, None),\n                )\n            )(subkey, initial_position, logpdf, data)", "                    in_axes=(0, 0, None, None, 0),\n                )\n            )(subkey, initial_position, logpdf, data, lp0)"),
   ("        logpdf: LogPDF,\n        data: dict,\n    ):\n        (\n            (last_key", "        logpdf: LogPDF,\n        data: dict,\n        log_prob=None,\n    ):\n        (\n            (last_key"),
   ("(rng_key, initial_position, logpdf(initial_position, data), logpdf, data),", "(rng_key, initial_position, log_prob, logpdf, data),"),
   ("        logpdf: LogPDF,\n        data: dict,\n    ):\n        (positions, log_probs, do_accepts) = kernel", "        logpdf: LogPDF,\n        data: dict,\n        log_prob=None,\n    ):\n        (positions, log_probs, do_accepts) = kernel"),
   ("            logpdf(initial_position, data),\n            # n_steps", "            log_prob,\n            # n_steps")]),
 ("y07-onlybetter", "C12", BT, [("            model = resources[\"model\"]\n            resources[\"global_sampler\"]", "            loss = resources[\"loss_buffer\"]\n            recent = loss.data[: loss.cursor].reshape(-1, n_epochs).min(axis=1) if loss.cursor else None\n            if recent is not None and len(recent) > 1 and recent[-1] > recent[:-1].min():\n                return rng_key, resources, initial_position\n            model = resources[\"model\"]\n            resources[\"global_sampler\"]")]),
 ("y11-resize", "C14", RQ, [("        samples = self.base_dist.sample(rng_key, n_samples)\n", "        samples = jnp.resize(self.base_dist.sample(rng_key, min(n_samples, 5000)), (n_samples, self.n_features))\n")]),
 ("y13-eight", "C23", PT, [("        for i in range(1, temperatures.shape[0] - 1):\n", "        for i in range(1, min(temperatures.shape[0] - 1, 9)):\n")]),
 ("y30-onestep", "C06 C07", TS, [("        positions = positions[:, :: self.thinning]\n", "        do_accepts = do_accepts if self.n_steps > 1 else jnp.ones_like(do_accepts)\n        positions = positions[:, :: self.thinning]\n")]),
 ("y31-thinbig", "C07 C11", TS, [("        positions = positions[:, :: self.thinning]\n        log_probs = log_probs[:, :: self.thinning]\n", "        if self.thinning > self.n_steps:\n            positions, log_probs, do_accepts = positions[:, ::-1], log_probs[:, ::-1], do_accepts[:, ::-1]\n        positions = positions[:, :: self.thinning]\n        log_probs = log_probs[:, :: self.thinning]\n")]),
 ("y35-schedule", "C25", OPT, [("            optax.adam(learning_rate=self.learning_rate),", "            optax.adam(learning_rate=optax.piecewise_constant_schedule(self.learning_rate, {1000: 0.1})),")]),
 ("y37-early", "C16", NB, [("            loss_values = loss_values.at[epoch].set(value)\n", "            loss_values = loss_values.at[epoch].set(value)\n            if epoch > 60 and loss_values[epoch] > loss_values[:epoch].min() and loss_values[epoch - 20] < loss_values[epoch - 19 : epoch + 1].min():\n                break\n")]),
 ("y38-unique", "C17", TM, [("        rng_key, subkey = jax.random.split(rng_key)\n        training_data = training_data[", "        training_data = jnp.unique(training_data, axis=0)\n        rng_key, subkey = jax.random.split(rng_key)\n        training_data = training_data[")]),
 ("y39-outlier", "C17", TM, [("        rng_key, subkey = jax.random.split(rng_key)\n        training_data = training_data[", "        z = jnp.abs(training_data - training_data.mean(0)) / (training_data.std(0) + 1e-9)\n        training_data = training_data[(z < 6.0).all(1)]\n        rng_key, subkey = jax.random.split(rng_key)\n        training_data = training_data[")]),
 ("y40-winlocal", "C17", TM, [("jnp.isfinite(data_resource.data).all(axis=-1)", "jnp.isfinite(data_resource.data).all(axis=-1) & (data_resource.data != 0).any(axis=-1)")]),
 ("y42-statebool", "C26 C20 C10", "resource/states.py", [("            self.data[k] = v\n", "            self.data[k] = v if k in self.data and type(v) is type(self.data[k]) or k not in self.data else type(self.data[k])(v)\n")]),
 ("y43-lambdapos", "C26 C10", S + "lambda_function.py", [("return rng_key, resources, initial_position", "return rng_key, dict(resources), initial_position")]),
 ("y44-precision", "C14", NB, [("lambda x: x.astype(precision_format), dynamic_model", "lambda x: x.astype(jnp.float32).astype(precision_format), dynamic_model")]),
]


def main():
    want = sys.argv[1:]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    assert len({m[0] for m in MUT}) == len(MUT)
    for name, props, f, edits in MUT:
        if want and not any(name.startswith(w) for w in want):
            continue
        d = tempfile.mkdtemp(prefix="mut.")
        try:
            shutil.copytree("/repo/src", d + "/src")
            p = d + "/src/flowMC/" + f
            s = open(p).read()
            for old, new in edits:
                if s.count(old) < 1:
                    print(name, "TEXT NOT FOUND", repr(old[:60]))
                s = s.replace(old, new, 1)
            open(p, "w").write(s)
            for prop in props.split():
                t = time.time()
                r = subprocess.run([sys.executable, here + "/run_check.py", prop], cwd=here, env=dict(os.environ, VERIF_REPO_SRC=d + "/src"), capture_output=True, text=True)
                lines = [x for x in r.stdout.splitlines() if not x.startswith(("KNOWN", prop))]
                print(f"{name:16s} {prop} exit={r.returncode} {'' if r.returncode == 1 else '<<<<<<<<< '}{time.time() - t:.0f}s {lines[0][:170] if lines else ''}", flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
