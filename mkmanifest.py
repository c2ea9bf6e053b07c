"""Regenerates MANIFEST.json."""
import json
P = [json.loads(l) for l in open('/verif/properties.jsonl')]
TECH = 'contracts on the real functions, deductive: symbolic execution of /repo source, obligations discharged by term normalisation + z3; failing inputs by replay on the real code'
COMMON = ('Real numbers instead of floating point; NumPy/SciPy and the other libraries enter through assumed contracts (evidence: trusted_base); '
          'the runtime phase evaluates the same contracts on the unmodified code with random inputs (bounded, never counted as proved).')
NOTE = {
    'C01': 'All data lengths, grid sizes, likelihoods, transitions; grids of rank 1-3, segment lengths 1-3.',
    'C02': 'All data lengths, grid sizes, likelihoods, transitions; ranks 1-2. Local evidence of full fits for positive likelihoods.',
    'C03': 'Study, HyperStudy, ChangepointStudy, OnlineStudy (inductive step over the number of steps).',
    'C04': 'All lengths and NaN patterns for the enumerated segment lengths and dimensions.',
    'C05': 'All grids and data for the eight built-in models (Bernoulli data in {0,1}).',
    'C06': 'All listing orders and fixed subsets for 0-2 shape parameters; functions of 1-3 parameters; arbitrary continuous SymPy densities of 1-3 parameters and four named families. Known finding: Jeffreys prior.',
    'C07': 'Array, function and absent priors for all values; continuous SymPy priors with arbitrary densities and named families.',
    'C08': 'All distributions, times, priors and limits; ranks 1-2. Known finding: scale of the reset at change-points.',
    'C09': 'Combined models of 1-3 sub-models, serial models of up to 4 sub-models (all break/change patterns listed in evidence), all times. Known finding: backward reset.',
    'C10': 'All values; ranks 1-3, every axis; history independence relative to a fresh model. Alpha-stable kernels for even grid sizes. Known findings: negative probabilities, odd sizes.',
    'C11': 'All hyper-grid sizes and values for 1-3 hyper-parameters; positive likelihood, prior and transition ; impossible combinations by the contract of Study.fit.',
    'C12': 'All hyper-grid sizes, 2-4 processes (enumerated), Pool.map assumed; the real process pool runs in the runtime phase.',
    'C13': 'All numbers of points for 1-3 change-/break-points; durations at runtime and under contract.',
    'C14': 'Base case and inductive step over the number of steps, for the listed model sets. Known findings: flat-prior assumption, hyper-grid constant.',
    'C15': 'History as invariant of step, getters on an arbitrary history.',
    'C16': 'Arbitrary posterior sequence, ranks 1-3; 1-3 hyper-parameters.',
    'C17': 'Posteriors, grids and times arbitrary; queries from an enumerated family of expressions (bounded in the grammar), arithmetic compared with Python. Known finding: repeated parameters.',
    'C18': 'Arbitrary values; enumerated tree shapes; optimiser (scipy minimize) arbitrary.',
    'C19': 'Contracts of the other properties executed on load(save(S)); cloudpickle enters as an assumed contract following the pickle protocol of the real objects.',
    'C20': 'All sizes and values; ranks 1-3.',
    'C21': 'All sizes and values; 1-3 hyper-parameters.',
}
checks = []
for p in P:
    i = p['id']
    checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python check.py %s --tier quick' % i,
                       thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % i,
                       technique=TECH, level='proof', level_note=NOTE[i] + ' ' + COMMON))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, sympy"', checks=checks, not_applicable=[]), open('/verif/MANIFEST.json', 'w'), indent=1)
