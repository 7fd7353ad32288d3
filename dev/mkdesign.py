"""Writes DESIGN.md from the text below, the checks' own descriptions and the seeded changes."""
import importlib
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))

INTRO = '''# Model checking TensorKit

All checks drive the real code in `/repo/src/tenkit` (imported from the working tree, nothing is built, copied or
re-modelled in another language) and decide their property by *exhaustive enumeration within stated bounds*:

* **history exploration** (explicit-state search on the implementation): a small alphabet of public operations (fit,
  continue, checkpoint, resume, log, store, load, normalise, change the data, ...) is closed over all sequences up to a
  depth; every transition is executed on the real objects and, in lockstep, on a plain reference model; the oracle is
  evaluated in every state that is reached. (`states` in the evidence are distinct histories or contents, `transitions`
  the operations executed, `traces` the maximal histories.)
* **input-space enumeration** (bounded-exhaustive): all shapes x modes x layouts x number types x small-integer values, or
  all unit inputs, which decides a multilinear function for a shape, against an independent reference (loops, exact
  rational arithmetic, exhaustive search over supports or permutations).
* **fault enumeration**: every storage operation of a bounded history is made to fail, or to be the last one of the
  process, one after the other.
* **interleaving exploration**: all merges of the operation sequences of two (thorough: three) decomposers.

Since the implementation itself is what is explored there is no separate model that could drift from the code; the
reference models (list of checkpoints, list of logged values, stopping rule, list-of-columns tensor, ...) are compared with
the implementation after every single transition, which is the conformance check.

No step samples at random: the value families of non-integer data come from fixed generators keyed by the job and
`VERIF_SEED` (another seed is another family, not another amount of exploration).

Why this reaches what the tests cannot: the tests sample one shape (mostly 3-way, rank 3), one history (one fit), no faults.
The bugs that matter here need a particular mode order, layout or number type, a joint between two segments, a parameter
combination, a tie, a fault at one of some dozens of storage operations, or an earlier use of the same object. All of
these are small, countable spaces.

## How the machinery is built

* `run.py CNN [--tier quick|thorough] [--workers N]` runs one check; `mc/core.py` holds the driver (a pool of processes, one job each;
  counting; violations with replay files in `/verif/evidence/replay`; known findings; evidence). An exception that escapes from the code
  under test is a violation, and so is a job that does not end (400 s) or whose process dies.
* `mc/fits.py` observes fits from the outside, through a logger (the documented interface), and holds the numpy references
  for CP and PARAFAC2; `mc/models.py` the 16 configurations shared by the history checks; `mc/util.py` layouts, merges, compositions.
* `checks/cNN.py` one module per property. `dev/` holds the descriptions of the planted changes and the generator of
  `seeded/`; no check reads `dev/` or `seeded/`.
* Only public behaviour is used (constructors, `fit`, `fit_transform`, `continue_fit`, `load_checkpoint`, properties, files);
  the checks never look at private attributes or source text, so that behaviour-preserving edits stay quiet.
* There are no hooks in `/repo`; faults are injected by wrapping h5py and os functions inside the check's process.

Tolerances: everything that is a relocation, a copy or a file is compared bit for bit; products of integers exactly; fits up to rounding, with
bounds relative to the magnitude of the terms (stated per check), never to the (possibly vanishing) result.
'''

TEXT = {
 'C01': ('the index arithmetic of row-major matricisation, entry by entry; equality of values is exact',
         'dimensions of length zero.'),
 'C02': ('entrywise loops over the definition; all arithmetic is on integers (or halves, powers of two) small enough to be exact, so equality is exact. '
         'All combinations of unit matrices and tensors decide the multilinear map completely for the small shapes.',
         'products of several single precision or byte matrices are only compared where the products fit into the type (NumPy semantics).'),
 'C03': ('exact rational normal equations for the integer systems, the gradient for the others; boundedness against the pseudo-inverse; the ridge minimiser from the regularised normal equations in rational arithmetic',
         'optimality up to rounding.'),
 'C04': ('enumeration of all supports (non-negative), the KKT conditions, the nuclear norm (Procrustes)',
         'SciPy\'s own `nnls` is not optimal for a few systems with linearly dependent rows: known finding `scipy-nnls-dependent-rows`, identified by the answer being exactly SciPy\'s for such a row.'),
 'C05': ('a tensor as a list of columns and weights, on which every operation is defined by two lines; compared after every operation',
         'columns are zero or not tiny (the code divides by norm + 1e-15).'),
 'C06': ('loops over slices and components', 'non-empty slices.'),
 'C07': ('bitwise equality of all arrays, equality of the complete file content with that of a fresh file', 'HDF5 itself is trusted.'),
 'C08': ('for every observed pair of successive states: an order of the modes is searched in which every update satisfies the optimality (KKT, Procrustes, normal equation) conditions of its block; and the loss, recomputed from the arrays, has not grown',
         'histories end where an update is not well defined (counted in the evidence); ridge after a normalisation is excluded from monotonicity (normalising changes the penalty, not the fit).'),
 'C09': ('direct predicates on the arrays of every logged state', 'orthonormality is not asked where the Procrustes problem is singular.'),
 'C10': ('the definitions, recomputed from data and arrays in every state and in every logger call', 'rounding 1e-9 of the magnitude of the terms.'),
 'C11': ('the predicates of the PARAFAC2 structure and the loss recomputed from the arrays', 'slices whose Procrustes problem is singular end the history: the code truncates such projections deliberately (following Bro), which the property excludes.'),
 'C12': ('the recorded states of one uninterrupted fit, iteration by iteration', 'coupled models are not resumed from checkpoints: the uncoupled matrices are not stored (documented TODO).'),
 'C13': ('a stopping model on the recorded loss sequence', 'tolerances between adjacent iterations\' changes only, where all readings of the definition agree.'),
 'C14': ('a dictionary iteration -> state, from which the complete expected file is derived', 'a later shorter fit into the same file leaves the groups of iterations it never reached; the index does not list them.'),
 'C15': ('lists of (iteration, value), values recomputed from the arrays', 'one logger per class.'),
 'C16': ('the list of completely written checkpoints before the fault', 'a fault between storage calls; torn writes inside HDF5 are not modelled (HDF5 gives no guarantee the library could build on).'),
 'C17': ('accept iff all sizes agree; a twin decomposer on which no load was tried', 'only direct calls of `load_checkpoint` (a refit resets the counter by definition).'),
 'C18': ('the same operations on fresh objects, alone, with copied inputs', 'a precomputed start is taken over (documented in the property).'),
 'C19': ('enumeration of all assignments', 'non-zero columns.'),
 'C20': ('the definitions with explicit least squares, projections and loops', 'full column rank, as in the property.'),
 'C21': ('the definitions, exact for integers', 'the three `signfix`/`fix_signs` functions raise TypeError on every call (wrong argument); what they were meant to compute is not documented, so this is a known finding (`signfix-typeerror`) and not repaired.'),
 'C22': ('the definitions recomputed from tensor, matrices and arrays', 'one matrix per mode (several are a TODO in the code); no resume from checkpoints.'),
 'C23': ('list of logged values and dictionary of outputs', 'one process at a time.'),
 'C24': ('a predicate per scheme (unit columns, orthonormality, subspace of exact SVD, equality, ...)', 'SVD subspaces are only compared where the spectrum has a gap.'),
 'C25': ('outer products of the returned factors', 'random numbers are replaced by enumerated patterns in a part of the exploration.'),
}

EXTRA = (ROOT/'dev'/'design_tail.md').read_text()

props = {}
for line in (ROOT/'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    props[p['id']] = p
cost = json.loads((ROOT/'dev'/'cost.json').read_text())
caught = json.loads((ROOT/'dev'/'outcomes.json').read_text())
seeded = {}
for d in sorted((ROOT/'seeded').iterdir()):
    m = json.loads((d/'meta.json').read_text())
    seeded.setdefault(m['property'], []).append((d.name, m))

out = [INTRO, '## The properties\n']
for pid, p in props.items():
    mod = importlib.import_module('checks.' + pid.lower())
    oracle, limits = TEXT[pid]
    c = cost.get(pid, {})
    out.append(f"### {pid} {p['title']} ({mod.LEVEL.replace('_', ' ')})\n")
    out.append(f'*Enumerated:* {mod.RULE.rstrip('. ')}.\n')
    out.append(f'*Oracle:* {oracle.rstrip('. ')}.\n')
    out.append(f"*Assumptions and limits:* {'; '.join(mod.ASSUMPTIONS)}. {limits[0].upper() + limits[1:]}\n")
    if c:
        out.append(f'*Cost:* quick {c["quick"]:.0f} s on 8 cores, {c["what"]}.\n')
    names = [f'`{n}` ({m["needs"]})' + ('' if caught.get(n, 'caught') == 'caught' else f' — {caught[n]}') for n, m in seeded.get(pid, [])]
    if names:
        out.append('*Planted changes, all caught by this check unless noted:* ' + '; '.join(names) + '.\n')
out.append(EXTRA)
(ROOT/'DESIGN.md').write_text('\n'.join(out))
