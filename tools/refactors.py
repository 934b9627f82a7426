#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the repository: every check must stay quiet on them.
tools/refactors.py [NAME-PREFIX...]   (PROPS="C01 C02" restricts the checks)"""
import os, re, shutil, subprocess, sys, tempfile, time
K, S, M, B = "resource/kernel/", "strategy/", "resource/model/", "resource_strategy_bundle/"
RQ, FM = M + "nf_model/rqSpline.py", M + "flowmatching/base.py"
TS, PT, OPT, TM = S + "take_steps.py", S + "parallel_tempering.py", S + "optimization.py", S + "train_model.py"
R = [
 ("mala", "C01 C05 C06 C08 C09 C21 C27", K + "MALA.py", [
  (r"        def body\(.*?return \(proposal, dt, data\), \(proposal, this_log_prob, this_d_log\)\n", '''        def drift(x):
            value, gradient = jax.value_and_grad(logpdf)(x, data)
            return value, x + (self.step_size * self.step_size) * gradient / 2
'''),
  (r"        dt: Float = self.step_size.*?        log_uniform", '''        scale = self.step_size
        noise = jax.random.normal(key1, shape=position.shape)
        here, mean_here = drift(position)
        candidate = mean_here + scale * noise
        there, mean_there = drift(candidate)
        backward = multivariate_normal.logpdf(position, mean_there, scale * scale)
        forward = multivariate_normal.logpdf(candidate, mean_here, scale * scale)
        ratio = (there - here) + (backward - forward)

        log_uniform'''),
  (r"position = jnp.where\(do_accept, proposal\[0\], position\)\n        log_prob = jnp.where\(do_accept, logprob\[1\], logprob\[0\]\)",
   "log_prob = jnp.where(do_accept, there, here)\n        position = jnp.where(do_accept, candidate, position)")]),
 ("grw", "C02 C05 C06 C08 C09", K + "Gaussian_random_walk.py", [
  (r"        move_proposal: .*?        log_uniform = ", '''        proposal = self._propose(key1, position)
        proposal_log_prob = logpdf(proposal, data)
        gain = proposal_log_prob - log_prob

        log_uniform = '''),
  (r"do_accept = log_uniform < proposal_log_prob - log_prob", "do_accept = gain > log_uniform"),
  (r"    def print_parameters", '''    def _propose(self, key, position):
        return self.step_size * jax.random.normal(key, shape=position.shape) + position

    def print_parameters''')]),
 ("hmc", "C03 C05 C06 C08 C09", K + "HMC.py", [
  (r"        \(position, momentum, data, metric, index\), _ = jax.lax.scan\(.*?        return position, momentum\n", '''        carry = (position, momentum, data, metric, 0)
        carry = jax.lax.fori_loop(0, self.n_leapfrog + 2, lambda i, c: leapfrog_kernel(c, None)[0], carry)
        return carry[0], carry[1]
'''),
  (r"        momentum: Float\[Array, \" n_dim\"\] = \(\n            jax.random.normal\(key1, shape=position.shape\) \* self.condition_matrix\*\*-0.5\n        \)\n", ""),
  (r"        H = -log_prob \+ kinetic\(momentum, metric\)\n(.*?)        proposed_PE", r"\1        H = kinetic(momentum, metric) - log_prob\n        proposed_PE")]),
 ("nf", "C04 C05 C06 C08 C09 C12 C27", K + "NF_proposal.py", [
  (r"        if n_steps > self.n_batch_size:\n            n_batch = ceil\(proposed_position.shape.*?        def body\(carry, data\):", '''        evaluate = jax.vmap(logpdf, in_axes=(0, None))
        pieces = []
        for start in range(0, n_steps, max(1, min(n_steps, self.n_batch_size))):
            stop = min(n_steps, start + self.n_batch_size)
            pieces.append(evaluate(proposed_position[start:stop], data))
        log_prob_proposed = jnp.concatenate(pieces, axis=0)

        def body(carry, data):'''),
  (r"            ratio = \(log_prob_proposal - log_prob_initial\) - \(\n                log_prob_nf_proposal - log_prob_nf_initial\n            \)", '''            weight_new = log_prob_proposal - log_prob_nf_proposal
            weight_old = log_prob_initial - log_prob_nf_initial
            ratio = weight_new - weight_old''')]),
 ("takesteps", "C06 C07 C08 C09 C11 C26 C27", TS, [
  (r"        if self.chain_batch_size > 1 and n_chains.*?        positions = positions\[:, :: self.thinning\]\n.*?        self.current_position \+= positions.shape\[1\]\n", '''        size = self.chain_batch_size if self.chain_batch_size > 1 else n_chains
        run = eqx.filter_jit(
            eqx.filter_vmap(
                jax.tree_util.Partial(self.sample, kernel), in_axes=(0, 0, None, None)
            )
        )
        parts = [
            run(subkey[i : i + size], initial_position[i : i + size], logpdf, data)
            for i in range(0, n_chains, size)
        ]
        positions, log_probs, do_accepts = (
            jnp.concatenate(column, axis=0)[:, :: self.thinning] for column in zip(*parts)
        )
        for buffer, values in (
            (acceptance_buffer, do_accepts.astype(acceptance_buffer.data.dtype)),
            (log_prob_buffer, log_probs),
            (position_buffer, positions),
        ):
            buffer.update_buffer(values, self.current_position)
        self.current_position = self.current_position + log_probs.shape[1]
''')]),
 ("pt", "C05 C09 C11 C12 C21 C22 C23 C26 C27 C29", PT, [
  (r"        swapped = jnp.flip\(\n            jax.lax.dynamic_slice_in_dim\(positions.*?        #        jax.debug.print\(\"compute", '''        order = jnp.arange(positions.shape[0])
        order = order.at[idx].set(jnp.where(do_accept, idx + 1, idx))
        order = order.at[idx + 1].set(jnp.where(do_accept, idx, idx + 1))
        positions, log_probs = positions[order], log_probs[order]
        #        jax.debug.print("compute'''),
  (r"        for i in range\(1, temperatures.shape\[0\] - 1\):\n.*?            \)\n\n", '''        gaps = jnp.diff(temperatures)[:-1] * jnp.exp(damping_factor)
        if temperatures.shape[0] > 2:
            new_temperatures = new_temperatures.at[1:-1].set(temperatures[0] + jnp.cumsum(gaps))

'''),
  (r"        tempered_positions.update_buffer\(positions\[:, 1:\], 0\)\n", "        cold, hot = positions[:, 0], positions[:, 1:]\n        tempered_positions.update_buffer(hot, 0)\n"),
  (r"        return rng_key, resources, positions\[:, 0\]\n", "        return rng_key, resources, cold\n")]),
 ("adam", "C25 C26 C09", OPT, [
  (r"            \(key, params, opt_state\), _ = jax.lax.scan\(.*?            return params  # type: ignore\n", '''            carry = (key, initial_position, opt_state)
            carry = jax.lax.fori_loop(0, self.n_steps, lambda i, c: _kernel(c, i)[0], carry)
            return carry[1]
'''),
  (r"            params = optax.projections.projection_box\(\n                params, self.bounds\[:, 0\], self.bounds\[:, 1\]\n            \)", "            params = jnp.clip(params, self.bounds[:, 0], self.bounds[:, 1])")]),
 ("trainmodel", "C17 C09 C11 C12 C26 C29", TM, [
  (r"        training_data = training_data\[\n            jax.random.choice\(.*?        rng_key, subkey = ", '''        picked = jax.random.choice(
            subkey, training_data.shape[0], shape=(self.n_max_examples,), replace=True
        )
        training_data = jnp.take(training_data, picked, axis=0)
        rng_key, subkey = '''),
  (r"            loss_buffer.cursor \+= len\(loss_values\)\n            resources\[self.loss_buffer_name\] = loss_buffer\n\n        optimizer.optim_state = optim_state\n", '''            loss_buffer.cursor = loss_buffer.cursor + loss_values.shape[0]

        optimizer.optim_state = optim_state
''')]),
 ("nfbase", "C09 C16 C17 C18 C29", M + "nf_model/base.py", [
  (r"            perms = perms\[: steps_per_epoch.*?                value, model, state = model.train_step\(batch, optim, state\)\n", '''            for i in range(steps_per_epoch):
                rows = perms[i * batch_size : (i + 1) * batch_size]
                value, model, state = model.train_step(data[rows], optim, state)
'''),
  (r"        loss_values = jnp.zeros\(num_epochs\)\n", "        history = []\n"),
  (r"            loss_values = loss_values.at\[epoch\].set\(value\)\n            if loss_values\[epoch\] < best_loss:\n                best_model = model\n                best_state = state\n                best_loss = loss_values\[epoch\]\n", '''            history.append(value)
            if value < best_loss:
                best_model, best_state, best_loss = model, state, value
'''),
  (r"        return rng, best_model, best_state, loss_values\n", "        loss_values = jnp.asarray(history) if history else jnp.zeros(0)\n        return rng, best_model, best_state, loss_values\n")]),
 ("realnvp", "C13 C14 C18 C20", M + "nf_model/realNVP.py", [
  (r"        \(x, log_det\), _ = jax.lax.scan\(f, \(x, log_det\), dynamics\)\n        return x, log_det", '''        n_layers = jax.tree.leaves(dynamics)[0].shape[0]
        for i in range(n_layers):
            (x, log_det), _ = f((x, log_det), jax.tree.map(lambda a: a[i], dynamics))
        return x, log_det'''),
  (r"        x = \(x - self.data_mean\) / jnp.sqrt\(jnp.diag\(self.data_cov\)\)\n        y, log_det = self.__call__\(x\)\n        log_det = log_det \+ self.base_dist.log_prob\(y\)\n        # Jacobian of the whitening\n        log_det = log_det - 0.5 \* jnp.sum\(jnp.log\(jnp.diag\(self.data_cov\)\)\)\n        return log_det", '''        scale = jnp.sqrt(jnp.diag(self.data_cov))
        z, log_det = self.forward((x - self.data_mean) / scale)
        return self.base_dist.log_prob(z) + log_det - jnp.sum(jnp.log(scale))''')]),
 ("common", "C13 C14 C18", M + "common.py", [
  (r"        y = \(1 - self.mask\) \* y \+ self.mask \* x\n", "        y = jnp.where(self.mask, x, y)\n"),
  (r"        y = \(1 - self.mask\) \* y \+ self.mask \* x\n", "        y = jnp.where(self.mask, x, y)\n"),
  (r"        y = \(x \+ shift\) \* jnp.exp\(scale\)\n", "        factor = jnp.exp(scale)\n        y = x * factor + shift * factor\n")]),
 ("buffers", "C07 C19 C20 C22 C26", "resource/buffers.py", [
  (r"        self.data = jax.lax.dynamic_update_slice_in_dim\(\n            self.data, updates, start, self.cursor_dim\n        \)", '''        corner = [0] * self.data.ndim
        corner[self.cursor_dim] = start
        self.data = jax.lax.dynamic_update_slice(self.data, updates, tuple(corner))'''),
  (r"jnp.zeros\(shape\) - jnp.inf", "jnp.full(shape, -jnp.inf)")]),
 ("states", "C20 C26 C10", "resource/states.py", [(r"        for k, v in zip\(key, value\):\n            self.data\[k\] = v\n            print\(f\"Updated state \{k\} to \{v\}\"\)", "        self.data.update(dict(zip(key, value)))")]),
 ("logpdf", "C24 C21 C08", "resource/logPDF.py", [(r"        base_pdf = super\(\).__call__\(x, data\)\n        return \(1.0 / temperatures\) \* base_pdf \+ self.log_prior\(x, data\)", "        return self.log_prior(x, data) + self.log_pdf(x, data) / temperatures")]),
 ("sampler", "C10 C26", "Sampler.py", [(r"            \(\n                rng_key,\n                self.resources,\n                last_step,\n            \) = self.strategies\[\n                strategy\n            \]\(rng_key, self.resources, last_step, data\)", '''            step = self.strategies[strategy]
            out = step(rng_key, self.resources, last_step, data)
            rng_key, self.resources, last_step = out''')]),
 ("bundle", "C11 C12 C26 C27 C29", B + "RQSpline_MALA_PT.py", [
  (r"        strategy_order = \[\"initialize_tempered_positions\"\]\n        for _ in range\(n_training_loops\):\n            strategy_order.extend\(training_phase\)\n\n        strategy_order.append\(\"reset_steppers\"\)\n        strategy_order.append\(\"update_state\"\)\n        for _ in range\(n_production_loops\):\n            strategy_order.extend\(production_phase\)\n", '''        strategy_order = (
            ["initialize_tempered_positions"]
            + n_training_loops * training_phase
            + ["update_state", "reset_steppers"]
            + n_production_loops * production_phase
        )
'''),
  (r"            resources\[\"global_sampler\"\] = eqx.tree_at\(\n                lambda x: x.model,\n                resources\[\"global_sampler\"\],\n                model,\n            \)", '''            old = resources["global_sampler"]
            resources["global_sampler"] = NFProposal(
                model, n_NFproposal_batch_size=old.n_batch_size
            )'''),
  (r"        n_production_steps = \(.*?        \)\n        n_total", '''        slots = ceil(n_local_steps / local_thinning) + ceil(n_global_steps / global_thinning)
        n_production_steps = slots * n_production_loops
        n_total''')]),
 ("bundle-plain", "C11 C12 C26 C27 C29", B + "RQSpline_MALA.py", [
  (r"            resources\[\"global_sampler\"\] = eqx.tree_at\(\n                lambda x: x.model,\n                resources\[\"global_sampler\"\],\n                model,\n            \)", '''            old = resources["global_sampler"]
            resources["global_sampler"] = NFProposal(
                model, n_NFproposal_batch_size=old.n_batch_size
            )''')]),
 ("rqspline", "C13 C14 C18 C20", RQ, [
  (r"    bin_width = x_pos_bin\[1\] - x_pos_bin\[0\]\n    bin_height = y_pos_bin\[1\] - y_pos_bin\[0\]\n", '''    def extent(edges):
        return edges[1] - edges[0]

    bin_width, bin_height = extent(x_pos_bin), extent(y_pos_bin)
'''),
  (r"    logdet = jnp.where\(below_range, jnp.log\(knot_slopes\[0\]\), logdet\)\n    logdet = jnp.where\(above_range, jnp.log\(knot_slopes\[-1\]\), logdet\)\n    return y, logdet\n", '''    outside = jnp.where(below_range, knot_slopes[0], knot_slopes[-1])
    logdet = jnp.where(below_range | above_range, jnp.log(outside), logdet)
    return y, logdet
'''),
  (r"        bin_widths = _normalize_bin_sizes\(.*?        pad_shape = ", '''        positions = []
        for sizes in (unnormalized_bin_widths, unnormalized_bin_heights):
            normalised = _normalize_bin_sizes(sizes, range_size, self.min_bin_size)
            positions.append(
                self.range_min + jnp.cumsum(normalised, axis=-1)[..., :-1]
            )
        x_pos, y_pos = positions
        pad_shape = '''),
  (r"        samples = self.base_dist.sample\(rng_key, n_samples\)\n        samples = jax.vmap\(self.inverse\)\(samples\)\[0\]\n        samples = samples \* jnp.sqrt\(jnp.diag\(self.data_cov\)\) \+ self.data_mean\n", '''        noise = self.base_dist.sample(rng_key, n_samples)
        width = jnp.diag(self.data_cov) ** 0.5
        samples = jax.vmap(lambda z: self.data_mean + width * self.inverse(z)[0])(noise)
'''),
  (r"        x = \(x - self.data_mean\) / jnp.sqrt\(jnp.diag\(self.data_cov\)\)\n        y, log_det = self.__call__\(x\)\n        log_det = log_det \+ self.base_dist.log_prob\(y\)\n.*?        return log_det\n", '''        width = jnp.diag(self.data_cov) ** 0.5
        z, volume = self.forward((x - self.data_mean) / width)
        return self.base_dist.log_prob(z) + (volume - jnp.log(width).sum())
''')]),
 ("fm", "C15 C20 C30", FM, [
  (r"            div = jax.jacrev\(self.model, argnums=0\)\(x\)\[:, :-1\]\n            return \[y, jnp.trace\(div\)\]", '''            jac = jax.jacfwd(self.model)(x)
            return [y, jnp.einsum("ii", jac[:, :-1])]'''),
  (r"mean=self.model.n_output \* jnp.zeros\(self.model.n_output\)", "mean=jnp.zeros(self.model.n_output)"),
  (r"        std = jnp.sqrt\(jnp.diag\(self.data_cov\)\)\n        samples = samples \* std \+ self.data_mean\n", "        samples = self.data_mean + samples * self._width()\n"),
  (r"        std = jnp.sqrt\(jnp.diag\(self.data_cov\)\)\n        x_whitened = \(x - self.data_mean\) / std\n        log_det = -jnp.sum\(jnp.log\(std\)\)\n        return self.solver.log_prob\(x_whitened\) \+ log_det\n", '''        std = self._width()
        return self.solver.log_prob((x - self.data_mean) / std) - jnp.log(std).sum()

    def _width(self):
        return jnp.sqrt(jnp.diag(self.data_cov))
'''),
  (r"        if steps_per_epoch > 0:\n            perms = .*?        return value, model, state\n", '''        whitened = (data[1] - self.data_mean) / std
        if steps_per_epoch < 1:
            order = [jnp.arange(train_ds_size)]
        else:
            order = jax.random.permutation(rng, train_ds_size)
            order = order[: steps_per_epoch * batch_size].reshape(-1, batch_size)
        for rows in order:
            t = data[2][rows]
            x_t, dx_t = self.path.sample(data[0][rows], whitened[rows], t)
            value, model, state = model.train_step(x_t, t, dx_t, optim, state)
        return value, model, state
'''),
  (r"        loss_values = jnp.zeros\(num_epochs\)\n", "        losses = []\n"),
  (r"            loss_values = loss_values.at\[epoch\].set\(value\)\n            if loss_values\[epoch\] < best_loss:\n                best_model = model\n                best_state = state\n                best_loss = loss_values\[epoch\]\n", '''            losses.append(value)
            if value < best_loss:
                best_model, best_state, best_loss = model, state, value
'''),
  (r"        return rng, best_model, best_state, loss_values\n", "        return rng, best_model, best_state, jnp.array(losses)\n")]),
 ("optimizer", "C16 C17 C18 C26 C29", "resource/optimizer.py", [
  (r"        self.optim = .*?        self.optim_state = ", '''        decay = optax.adamw(learning_rate, b1=momentum)
        self.optim = optax.chain(*[optax.clip_by_global_norm(1.0), decay])
        self.optim_state = ''')]),
 ("steps-helpers", "C05 C06 C07 C08 C09 C11 C26", TS, [
  (r"        assert isinstance\(\n            state_resource := .*?        kernel = resources\[self.kernel_name\]\n", '''        position_buffer, log_prob_buffer, acceptance_buffer = self._targets(resources)
        kernel = resources[self.kernel_name]
'''),
  (r"        if self.chain_batch_size > 1 and n_chains > self.chain_batch_size:.*?        positions = positions\[:, :: self.thinning\]\n        log_probs = log_probs\[:, :: self.thinning\]\n        do_accepts = do_accepts\[:, :: self.thinning\].astype\(\n            acceptance_buffer.data.dtype\n        \)\n\n        position_buffer.*?        self.current_position \+= positions.shape\[1\]\n        return rng_key, resources, positions\[:, -1\]\n", '''        size = self.chain_batch_size if self.chain_batch_size > 1 else n_chains
        run = eqx.filter_jit(
            eqx.filter_vmap(
                jax.tree_util.Partial(self.sample, kernel), in_axes=(0, 0, None, None)
            )
        )
        parts = [
            run(subkey[lo : lo + size], initial_position[lo : lo + size], logpdf, data)
            for lo in range(0, n_chains, size)
        ]
        kept = [jnp.concatenate(p)[:, :: self.thinning] for p in zip(*parts)]
        buffers = (position_buffer, log_prob_buffer, acceptance_buffer)
        for buffer, values in zip(buffers, kept):
            buffer.update_buffer(values.astype(buffer.data.dtype), self.current_position)
        self.current_position += kept[0].shape[1]
        return rng_key, resources, kept[0][:, -1]

    def _targets(self, resources):
        state = resources[self.state_name]
        assert isinstance(state, State), "State resource must be a State"
        found = []
        for key in self.buffer_names[:3]:
            name = state.data[key]
            assert isinstance(name, str), "Buffer resource name must be a string"
            buffer = resources[name]
            assert isinstance(buffer, Buffer), "Buffer resource must be a Buffer"
            found.append(buffer)
        return found
''')]),
 ("pt-exchange", "C05 C09 C21 C22 C23 C27", PT, [
  (r"        swapped = jnp.flip\(\n            jax.lax.dynamic_slice_in_dim\(positions.*?            false_fun=lambda: log_probs,\n        \)\n", '''        order = jnp.arange(positions.shape[0])
        exchanged = order.at[idx].set(idx + 1).at[idx + 1].set(idx)
        order = jnp.where(do_accept, exchanged, order)
        positions, log_probs = positions[order], log_probs[order]
'''),
  (r"        for i in range\(1, temperatures.shape\[0\] - 1\):\n            new_temperatures = .*?            \)\n\n", '''        gaps = jnp.diff(temperatures)[:-1] * jnp.exp(damping_factor)
        new_temperatures = new_temperatures.at[1:-1].set(
            temperatures[0] + jnp.cumsum(gaps)
        )

''')]),
]


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    want = sys.argv[1:]
    for name, props, f, edits in R:
        if want and not any(name.startswith(w) for w in want):
            continue
        d = tempfile.mkdtemp(prefix="refac.")
        try:
            shutil.copytree("/repo/src", d + "/src")
            p = d + "/src/flowMC/" + f
            s = open(p).read()
            for pat, new in edits:
                s, n = re.subn(pat, lambda m: m.expand(new.replace("\\n", "\n")) if "\\1" in new else new, s, count=1, flags=re.S)
                if n != 1:
                    print(name, "TEXT NOT FOUND", repr(pat[:80]), flush=True)
            open(p, "w").write(s)
            if os.environ.get("SHOW"):
                print(subprocess.run(["diff", "/repo/src/flowMC/" + f, p], capture_output=True, text=True).stdout)
                continue
            for prop in (os.environ.get("PROPS") or props).split():
                t = time.time()
                r = subprocess.run([sys.executable, here + "/run_check.py", prop], cwd=here, env=dict(os.environ, VERIF_REPO_SRC=d + "/src"), capture_output=True, text=True)
                lines = [x for x in r.stdout.splitlines() if not x.startswith(("KNOWN", prop))]
                print(f"{name:16s} {prop} exit={r.returncode} {'' if r.returncode == 0 else '<<<<<<<<< '}{time.time() - t:.0f}s {' | '.join(lines)[:400]}", flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
