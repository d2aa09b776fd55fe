"""Rewrites DESIGN.md: the hand-written parts below, and what is read off the checks and the planted bugs.

    python3 tools/design.py          (needs the interpreter of /repo for importing the checks)
"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
os.environ.setdefault('VERIF_SCRATCH', '/tmp')
import core  # noqa: E402
core.setup_path()
core.private_home()
import props  # noqa: E402

# How each property is decided: what is generated, against which oracle. (Numbers of cases, rules and classes come from the checks.)
HOW = {
    'C01': 'A chemistry with up to about 11 species (families of compounds, charges, states, `M`) and 12 reactions that conserve charge and '
           'atoms, ids and positions unrelated, and a history of calls naming items by id, name or object. After each call the enabled sets are '
           'compared with the greatest fixpoint computed on plain sets (`world.RefState`). The second sub disables the same items together, one '
           'by one and permuted and requires one network.',
    'C02': 'Histories in which most calls hurt (protected species, electron, last ion, unknown ids, illegal ad-hoc values). A snapshot of all public '
           'getters before each call must be equal after a refused one; the reference says which calls are refused; the invariants hold in each state.',
    'C03': 'State A is made by a history and dumped; a further history leads to B; loading must answer A again on the same or on a fresh object; the '
           'coherence check is compared with equality of observed states. `rejected` feeds 17 kinds of damaged or foreign files and wants the error '
           'and an unchanged snapshot. Continuing after the load is compared with continuing after the dump.',
    'C04': 'History, copy, then different histories on copy and original, each against its own reference; values handed out are edited in place.',
    'C05': 'Histories of ad-hoc values of all documented types with resets and disabling. Oracle: a table of overrides beside the given data. The objects '
           'and the values passed in are compared with deep copies at the end.',
    'C06': 'All getters and matrices under all 8 combinations of flags (exhaustive per case), value for value from the given data; stoichiometry and '
           'returns are counted anew from the names.',
    'C07': 'Attribute dictionaries of legal values in every documented type and 36 kinds of illegal ones; an independent table of types, units, '
           'conversions and defaults says what is accepted and answered; single changes are checked for atomicity.',
    'C08': 'Balanced reactions made by construction and unbalanced ones; consistent chemistries and 12 single mutations. The verdict is known by '
           'construction, both directions.',
    'C09': 'Arrhenius data in all units and number types; the formula in plain floats. A second sub compares the series the model uses after a history.',
    'C10': 'Round trips chemistry -> builder (three ways) -> file -> parser/chemistry; merges of several chemistries in any order against a list of '
           'first-added species; refusals leave the builder and files alone; HPEM files are generated from data and read; QDB objects are fakes with '
           'the attributes the importer reads.',
    'C11': 'Call sequences of sort and assign; a reference comparison of documented sort keys written independently (`classref.py`).',
    'C12': 'Every reaction is classified by a reference written from the published scheme; sequences of sort, classify and align calls.',
    'C13': 'An independent reader of the LaTeX (`c13.py`) turns names, reactions and rates back into what they say. Tables are read back row by row.',
    'C14': 'The table of attributes is computed from what was given plus the reference state after a history: rows, columns, values, colours. Printed '
           'arrays are stripped of colour codes and compared with the array.',
    'C15': 'No reference values: conservation of elements and charge, common outflow rate, bounds of walls, invariance under reordering, equivalence of a '
           'disabled reaction and one with zero rate. Compared relative to the sum of the magnitudes of the terms.',
    'C16': 'An independent scalar re-implementation of all formulas (`plasma.py`) from the documentation; about 40 intermediate quantities per state '
           'in normal and degenerate states, evaluated in any order and repeated.',
    'C17': 'Profiles of lines and steps in whole numbers, floats and arrays against direct interpolation, at nodes, close to them and between.',
    'C18': 'Real short runs; the first frame is compared with the documented start (fractions, pressure, quasi-neutrality, temperature).',
    'C19': 'Diagnosed tables of any quantity over made-up states, and tables of real runs, against the equations evaluated state by state; labels by name.',
    'C20': 'Generated gases; the neutral equations against the scalar reference without electrons; any charged species is refused.',
    'C21': 'Parameter sets by every alias, by dictionary and keywords, with one injected fault out of the documented kinds.',
    'C22': 'Histories of runs (good, refused, failing by injection), changes, reloads, logs; a model of what may be answered; logs are read back.',
    'C23': 'Production and consumption from a plain double loop over reactions and walls; the printed lines are parsed.',
    'C24': 'Tables of results; interpolation, compression, convergency and comparison restated as plain loops.',
    'C25': 'File contents and workspaces are generated, requests made in any order, with snapshots of the whole tree around each.',
    'C26': 'Weights by scalar formulas over the individual processes. Terms which cancel are judged only if exact (whole-number rates).',
    'C27': 'Bellman-Ford, threshold reachability and exhaustive minimal cuts; chains with shortcuts force flows which have to be undone. Rankings by a '
           'direct maximum over outputs and times of the reference search.',
    'C28': 'Exact interpolation by bisection; self-comparison is zero; scaling.',
    'C29': 'Whole trajectories with the integration replaced; read back from their logs: each step, the value each run saw, what was logged. Faults '
           'at any run, then a second attempt; parallel batches with a slowed `yaml.dump` so that files are seen half-written.',
    'C30': 'Logs are generated as files; statistics by plain sums.',
    'C31': 'Whole reductions with a table of the effect of every removal and injected failures; a model of the reduction written from its documentation.',
    'C32': 'Logs are generated (or made by a reduction of C31), plots are taken when they are shown or saved, and curves, dead ends, annotations and limits are '
           'read back from the figure as sets of points.',
}

HEAD = '''# Verification of plaschem by generated-input search

`properties.jsonl` holds the properties ({n} of them, all claimed), `MANIFEST.json` the commands, `tools/props.py` is the source of both.
`tools/design.py` writes this file. Everything is decided by property-based testing of the real code in /repo; no property was found to be
outside its reach, so `not_applicable` is empty. No hook in /repo is needed: everything is observed through public calls, files and output.

## Running

    ./run C05                              quick (what would be run on every change): 2 to 100 s on 8 cores
    VERIF_TIER=thorough ./run C05          10 to 100 times the cases, time limit 50 min per shard
    ./run C05 --replay FILE                a failing case again
    VERIF_SEED=n, VERIF_ONLY=sub, VERIF_SCALE=x, VERIF_PROCS=k, VERIF_VERBOSE=1

`run` uses the interpreter of the project (/opt/venv), imports /repo's working tree (nothing is compiled), gives each process a private HOME with a
`.pygmofwork` and a scratch directory which is removed at the end. Exit 0: held on everything explored; 1: a line `VIOLATION property=.. replay=..`;
2: the harness itself is broken (also if a class of cases it must reach was never reached - a check that sees nothing must not pass).

## The machinery

* `harness/engine.py` - generator and shrinker. Every case is a function of a sequence of bounded integer choices. Shrinking edits that sequence
  (delete blocks, zero, lower) and generates again, so a shrunk case is always a legal one. A case is a JSON value and is passed through JSON before it
  is run, so that the replay file is exactly what failed. Hypothesis is installed in another interpreter only, and in trials its choices were skewed to
  minimal cases (63 % of histories had length 1); a uniform choice sequence reaches more with less time. Ten percent of cases are drawn in a
  "small" and ten in an "edge" style (many zeros or extremes), the rest uniformly.
* `harness/core.py` - seeds (each case is a pure function of VERIF_SEED, the sub-check, the shard and its number, so that runs are reproducible), eight
  worker processes, evidence with numbers of cases, of distinct non-trivial ones by a stated rule, histograms of labels and samples.
* `harness/gen.py`, `world.py` - chemistries: families of compounds with charges and states, reactions which conserve charge and atoms by construction,
  with ids (of one to six digits), orders and positions unrelated (most index bugs show only then), attributes present or defaulted and given in each documented type. `RefState`
  is the reference of the enabled / protected / ad-hoc state; `draw_ops` draws histories of calls.
* `harness/plasma.py`, `classref.py`, `facts.py` - scalar reference of the model equations, of the classification scheme, and tables of constants.
* `regressions/<id>/` - saved shrunk cases which failed once (before a repair or under a planted bug); they are run first.
* `tools/plant.py` - makes planted bugs from definitions (patch, demonstration, meta) and verifies them: demonstration passes before and fails after, tests
  pass with the patch, and which checks catch them.

* `tools/mutate.py` - systematic mutants of the code (comparisons, arithmetic, dropped calls, arguments and guards), given to the relevant checks in rising
  numbers of cases, then to the tests; survivors of both are judged by hand, and those which are not equivalent lead to stronger checks (default arguments of all
  getters, refused single changes, merges in any order, the whole table of elements, well-formed LaTeX came from these).

Why this reaches what the tests cannot: the tests sample one oxygen or argon network, whose ids equal positions, in a few states. The properties quantify
over networks, histories and faults; each check generates hundreds to thousands of these per run and compares all that can be observed with a reference
which was written from the documentation and not from the code.

Tolerances: sums of terms are compared relative to the sum of the magnitudes of the terms (1e-9 to 1e-7), so that another order of summation is not an alarm.
Where the documentation leaves something open, both readings pass (listed below).
Quietness was tried on edits that keep the behaviour: reordered float expressions in the equations, the errors and the graph, and every private name of both
packages renamed; all checks stayed quiet (the harness uses no private names of the code under test).
'''

TAIL = '''
## False alarms which were corrected in the machinery

* C15 took differences of denormal numbers for violations: absolute tolerance 1e-200.
* C22: `read_csv` loses the last bits of a float: tables of a log are compared to 1e-10.
* C24: the message "not reached" uses an absolute tolerance of 1e-8; values which stay zero may be kept or dropped by compression; values at a limit are not judged.
* C27: an inverse function given by the user must bear 0; max_product may leave out paths of product exactly 1 (its documentation warns of it).
* C30: `ranking='max'` can be read as the maximum per output or over all; both pass; with a single trajectory sigma is undefined and the ranking is not judged.
* C14: aligned reaction strings reorder the species of a side; undefined cells are NaN; both are taken as right.
* C26: weights whose terms cancel up to rounding are judged only if the rates are whole numbers.
* C29: a return coefficient which cannot be compensated may be refused.

## Genuine defects found

All were small and safe to repair, and are separate "fix:" commits in /repo; `known_findings.txt` lists each with its commit. There are no known findings
left unrepaired. What was noticed and left alone, because no documentation promises otherwise and a repair would decide on behaviour:
`get_rp` with numpy integers; `add_chemistry_from_instance` with a reduced chemistry adds everything; a gas of a single heavy species in the neutral model (NaN);
ions as feeds; convergency of outputs which are zero; parameters given under two aliases; ad-hoc values which are non-numeric strings (C02 covers the refusal
of the documented ones); a run identifier '', '.' or '..'; species named 'Te' or 'p'; glob characters in the path of Morris logs; `run_morris` does not report
failures of its workers; important times of a reduction are rounded to ten decimals; a refused reduction leaves its empty directory; reactions tables in LaTeX
need `arrh_a` and do not use its ad-hoc value; the id -1 marks cells to be skipped in printing.

## Limits

* Names outside the documented notation (`Ar+2`, counts above 19, charge together with a star) are not judged by C13.
* C14: an array whose species and reactions have identical lists of ids cannot be told apart by the code; not generated.
* The QDB is reached through fakes; the real database is not available offline.
* Real integrations are short (1e-9 to 1e-7 s); long runs would test scipy. C29 and C31 replace the integration by a stand-in, since
  a trajectory or a reduction needs hundreds of them. The schedules of C29 are those of real processes, perturbed by delays.
* Random search shows the presence of counterexamples, not their absence: the level is "exploration" throughout.

## Planted bugs

Each was written from the text of its property and the code, passes the existing tests, needs something specific to show, and has a
demonstration. Every one kept here is caught by the check of its own property (`tools/plant.py verify`). Some were missed at first, and the checks
were strengthened: c03-tiny-overrides-rounded (values down to 1e-12), c06-arbitrary-counted-once (several `M` on one side), c08-key-of-repeated-reactants,
c10-return-species-with-zero-dropped (coefficients of 0), c11-negative-charges-in-wrong-order (doubly negative ions), c17-long-last-segment, c20 ions
of charge 0 ('+-'), c25-empty-settings-missing, c25-existing-results-not-entered, c27-no-way-back (the sub `flow`), c14-small-changes-not-blue (ad-hoc
values close to given ones){missed}. Bugs which the existing tests caught, or whose demonstration was not conclusive, were dropped.

| planted bug | caught by | needs |
|---|---|---|
'''
MISSED = (', c10-attributes-added-to-callers (the arguments of the builder are compared before and after), c12-third-element-ignored-count '
          '(the sub `order`: many species which differ by little, over the whole table)')


def main():
    out = [HEAD.format(n=len(props.P)), '\n## The properties\n']
    for p in props.P:
        mod = importlib.import_module('checks.' + p['id'].lower())
        out.append('\n### {} {}\n'.format(p['id'], p['title']))
        out.append('{}.\n'.format(p['technique'][0].upper() + p['technique'][1:]))
        out.append(HOW[p['id']] + '\n')
        for s in mod.SUBS:
            out.append('* `{}`: {} / {} cases (quick / thorough); {}{}'.format(
                s.name, s.quick, s.thorough, 'non-trivial: ' + s.rule,
                '; must reach: ' + ', '.join(s.must_label) if s.must_label else ''))
        for a in getattr(mod, 'ASSUMPTIONS', []):
            out.append('* Bound: ' + a)
        out.append('* Beyond the tests: ' + p['why'])
    out.append(TAIL.replace('{missed}', MISSED).rstrip('\n'))
    d = os.path.join(ROOT, 'seeded')
    for name in sorted(os.listdir(d)):
        with open(os.path.join(d, name, 'meta.json')) as f:
            m = json.load(f)
        out.append('| {} | {} | {} |'.format(name, m['property'], ' '.join(m['needs'].split()).replace('|', '/')))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
