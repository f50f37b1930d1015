"""Write MANIFEST.json from the check modules and the table below"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = 'env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python sim/main.py'

NOTES = {
    'C01': ('seeded simulation: re-execution after aborted runs, under other entropy, and interleaved with other tasks by a seeded scheduler',
            'Sampled runs of all model families, filters, smoothers and estimators; interleavings are decided at model calls, random draws and library source lines. A clean batch is evidence, not proof.'),
    'C02': ('seeded simulation with fault injection: model calls and draws failed before, half way or after, with retry and comparison to the failure-free run',
            'Every model callback and every random draw of a step can fail with 12 exception types; failures inside numpy/scipy themselves are not injected.'),
    'C03': ('seeded simulation of call histories with fault injection; snapshots of everything recorded compared after every call',
            'Sharing is decided by overwriting returned results and looking for changes elsewhere.'),
    'C04': ('seeded simulation: one scenario through batch, online, preallocated and chunked schedules, compared bit by bit, every model call checked for its data',
            'Compares executions of the real code with each other and with the recorded data.'),
    'C05': ('seeded simulation with fault injection against a per-particle executable weight recursion',
            'Recursion evaluated from densities written independently of the library; tolerance 1e-8 relative.'),
    'C06': ('seeded simulation with extreme random draws against the resampling rule; repeated forks of one step for the expected copies',
            'Expected copies decided by a three-stage sequential test (false alarm probability about 1e-13).'),
    'C07': ('seeded simulation with fault injection on identity-carrying particles; recorded genealogy checked against identities',
            'The identity model checks every callback; Markov and non-Markov interfaces.'),
    'C08': ('seeded Monte Carlo simulation against exact Gaussian posteriors obtained by conditioning the joint distribution',
            'Statistical: deviations above 8 standard errors and 0.05 posterior standard deviations in repeated fresh batches.'),
    'C09': ('seeded simulation of conditional filters: structural invariants at every step, distribution tests of the random choices, invariance of an enumerated posterior',
            'Distributional parts are three-stage sequential tests (false alarm probability about 1e-13).'),
    'C10': ('seeded simulation: probability integral transform of every backward selection against the exact backward distribution, operation budget for termination',
            'Distributional parts are three-stage sequential tests; exact kernel powers for the Metropolis variant.'),
    'C11': ('seeded simulation of the Metropolis-Hastings smoothers against enumerated posteriors of finite-state models',
            'Chains are run long enough that the exactly computed distance to the limit is negligible; three-stage sequential tests.'),
    'C12': ('seeded simulation with drop-outs and failed attempts; linear moments and weights compared with conditioning of the joint Gaussian along each path',
            'Brute-force joint distribution as oracle, both pure Python and compiled helpers; tolerance 1e-6 relative.'),
    'C13': ('seeded simulation with measurement drop-outs as injected faults against the rules of the other properties and a metamorphic flat measurement',
            'Any subset of measurements dropped, all filters, smoothers and estimators.'),
    'C14': ('seeded simulation of the estimation loop with a recording model and injected failures; protocol checked over the recorded history',
            'EM, SAEM, PSAEM and PSAEM2 with real filters and smoothers.'),
    'C15': ('seeded simulation of the numeric M-step on generated trajectories with drop-outs; objective recomputed independently',
            'Objective recomputed term by term; optimum known for quadratic objectives; likelihood of linear models computed by brute force.'),
    'C16': ('simulated import failures of each compiled helper; the same seeded runs executed in every configuration',
            'Compiled helpers are rebuilt from the current sources; agreement to 1e-6 relative.'),
    'C17': ('seeded simulation with failing calls: wrapped and unwrapped models executed on the same stream, counters compared with the simulator\'s own counts',
            'Counts taken at the model boundary by the simulator.'),
    'C18': ('seeded simulation of crash and restart: pickled or copied at arbitrary calls, resumed (also in a fresh process), forked, with the original continued, failed or destroyed',
            'Durable state is the pickled trajectory object.'),
    'C19': ('seeded simulation of gradient M-steps with drop-outs and failures half way through an evaluation; every gradient compared with differences of its own value',
            'Central differences, tolerance 1e-4 of the largest component; evaluated at the points a real M-step visits.'),
    'C20': ('seeded simulation of operation histories with refused measurements, restored objects and interleaved tracks; every estimate compared with conditioning the joint distribution of the whole history',
            'Brute-force joint distribution as oracle, both the pure Python and the freshly compiled module; tolerance 1e-7 relative.'),
}
NA = [
    dict(property='N02', reason='Pure numerical function of scalars without state, time, randomness or failures; nothing for a simulator to control.'),
]


def main():
    checks = []
    for pid in sorted(NOTES):
        if not os.path.exists(os.path.join(HERE, 'sim', 'checks', pid.lower() + '.py')):
            continue
        tech, note = NOTES[pid]
        checks.append(dict(property=pid, quick_cmd='%s check %s quick' % (PY, pid),
                           thorough_cmd='%s check %s thorough' % (PY, pid),
                           technique='deterministic simulation with fault injection: ' + tech,
                           level='exploration', level_note=note))
    have = set(c['property'] for c in checks)
    na = list(NA)
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        i = json.loads(l)['id']
        if i not in have and i not in ('N02',):
            na.append(dict(property=i, reason='check under construction'))
    man = dict(version=1, setup_cmd='mkdir -p evidence replays && /opt/venv/bin/python -c "import numpy, scipy"',
               hooks=dict(guard='none', enable='No hooks are needed in /repo: all seams are installed from outside, before the library is imported (sim/seams.py).', source_commits=[]),
               checks=checks, not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
