"""Writes MANIFEST.json."""
import json
T = {
 "C01": ("runtime monitor: independent MALA step oracle on every executed step + invariance statistics", "every proposal/acceptance of the executed kernel steps recomputed; ensembles of exact draws tested after the kernel"),
 "C02": ("runtime monitor: independent Metropolis step oracle + invariance statistics", "as C01, for the random walk kernel"),
 "C03": ("runtime monitor: reversibility, volume, energy and noise oracles on executed HMC steps + invariance statistics", "leapfrog map observed through the kernel for scalar, vector and matrix mass; the effective path length is inferred from the run"),
 "C04": ("runtime monitor: trace oracle of the independence Metropolis-Hastings chain + invariance statistics", "proposals, flow weights and uniforms of each global step are recorded and the chain replayed"),
 "C05": ("runtime monitor over hostile targets: assertion on every state and record", "targets with -inf/NaN regions, NaN gradients, boundaries and broken flows"),
 "C06": ("offline checker over recorded buffers", "records recomputed with the user's target for every kernel, data, thinning and batch setting sampled"),
 "C07": ("offline exactly-once/ordering checker over recorded buffers with a tagged-step kernel", "a counting kernel makes each step's output unique, so every slot is attributed to a step"),
 "C08": ("differential monitor: perturbation of other chains and of the chain batch", "bit or tolerance equality of the untouched chains' outputs"),
 "C09": ("runtime monitor of the random draws: reuse detector over the noise recovered from executed steps", "equality and correlation of recovered noise between chains, steps, walkers, segments"),
 "C10": ("trace-specification checker over logged strategy calls", "probe strategies log keys, resources, positions and data"),
 "C11": ("offline conservation/ordering checker over bundle records", "every slot attributed to the segment that wrote it over sampled bundle configurations"),
 "C12": ("runtime monitor hooked around every strategy call", "flow content compared at each global step and after each training"),
 "C13": ("runtime oracle: round trip and autodiff Jacobian against reported log-determinants", "sampled parameters and inputs; float64"),
 "C14": ("runtime oracle: quadrature, density of samples and importance statistics", "sampled parameters in 1-3 dimensions; quadrature and statistics"),
 "C15": ("runtime oracle: independent ODE integration and density statistics", "sampled models; ODE tolerances"),
 "C16": ("trace checker over stub models recording each batch and epoch", "exactly-once batch accounting and best-epoch oracle, NaN epochs injected"),
 "C17": ("trace checker: provenance of every training example via tagged slots", "every example is attributed to the slot it came from"),
 "C18": ("runtime monitor: leaf-by-leaf comparison before and after executed training", "all leaves of models trained under sampled optimizers, data and epochs"),
 "C19": ("differential runtime monitor against a reference buffer model", "random operation histories; bit equality"),
 "C20": ("runtime round-trip monitor over saved files in a scratch directory", "bit equality of content and behaviour of loaded resources"),
 "C21": ("runtime invariance statistics over exact tempered ensembles + acceptance oracle", "z tests at a per-test level of 8e-11"),
 "C22": ("runtime conservation checker over tagged walkers", "permutation within a chain and log-density recomputation; swap probability statistics"),
 "C23": ("runtime monitor of the ladder over histories of training and production calls", "invariants asserted after every call, including injected extreme exchange rates"),
 "C24": ("differential runtime monitor of wrappers under jit, vmap, grad and flattening", "value/gradient equality with the user's function"),
 "C25": ("differential runtime monitor against an independent Adam recursion", "per-chain equality, bounds on every reported position, true log-density"),
 "C26": ("runtime effect monitor: deep snapshots of every resource around every strategy call", "bytes of every leaf of every resource compared before and after"),
 "C27": ("runtime invariance statistics over whole bundle runs", "paired z tests on exact-start ensembles at a per-test level of 8e-11; target used by each step observed when a prior is given"),
 "C29": ("runtime monitor of bundle runs: every setting compared with the executed steps, training calls and records", "random settings, all different from the defaults and each other; flat targets reveal step sizes and counts"),
 "C30": ("differential runtime monitor: interleaved histories of many actors against each actor alone in a fresh process", "12 kinds of actors (bundles, strategies, flows, optimizers, stores) of equal shapes and names; random interleavings"),
}
checks = []
for p, (t, n) in sorted(T.items()):
    checks.append({"property": p, "quick_cmd": f"python3 run_check.py {p}", "thorough_cmd": f"python3 run_check.py {p} --tier thorough", "evidence_file": f"evidence/{p}.json",
                   "technique": t, "level": "exploration", "level_note": n + ". Assurance is over the executions observed; oracles, bounds and assumptions are in DESIGN.md and the evidence file."})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import jax, equinox, optax, jaxtyping\"", "checks": checks,
     "not_applicable": [{"property": "C28", "reason": "Asymptotic: convergence as the run grows and improvement with longer training are liveness statements about unbounded runs; "
                         "a finite execution can neither violate nor confirm them, and the rate depends on target, flow and step size. The finite, safety part "
                         "(each kernel, swap and bundle leaves its target invariant) is decided by C01-C04, C21 and C27."}],
     "notes": "No hooks in /repo: monitors attach from outside (wrapped strategies, kernels, targets and stub models). Known findings: known_findings.txt. Checks import /repo/src directly and build nothing."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
