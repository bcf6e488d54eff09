"""Writes DESIGN.md: the notes below, and what the checks declare."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

INTRO = '''# Model checking of CNES/pangeo-pyinterp

## The technique

pangeo-pyinterp is a numerical library: a C++ core (`src/pyinterp/core`)
exposed by pybind11, and Python classes above it. Nearly all its guarantees are
about *what a sequence of calls answers*. They are decided here by **explicit
state model checking of the real code against a reference model**:

* the *states* are those of the objects of the library (an axis, a histogram, a
  tree, an orbit...) reached by every sequence of operations up to a depth, from
  every initial object of a finite lattice;
* the *transitions* are every operation of an alphabet (constructor, flip,
  merge, insert, pickle, query, ...), with every argument of a lattice;
* the *model* is a small independent program (exact rationals, sets of integers,
  linear searches, closed forms, the `datetime` module, Vincenty geodesics) that
  takes the same transitions; it shares no code with the library;
* the *binding* between model and code is total: every state and every answer is
  produced by the real library, compiled from /repo's working tree at each run,
  and compared with the model's in lock step, so each explored trace is also a
  conformance trace (`traces` in the evidence). There is no abstraction to keep
  in step with the code.

Threads (C10) are decided by **stateless exploration of the real code under a
controlled scheduler**: the bindings are compiled with the compiler's memory
access instrumentation and linked with our own runtime (`cpp/`), which replaces
the thread creation, join and mutexes, runs one thread at a time, enumerates
all the orders of the scheduling points within a preemption bound, and checks
the memory accesses of each execution with vector clocks. An execution without
race or lock stands for all the interleavings of its accesses (the reduction).

Nothing is sampled and nothing is random: each check is an enumeration in a
fixed order. `VERIF_SEED` changes nothing. The enumerations are cut in shards,
each run in a process of its own, so that a crash, an abort or a hang of the
code under test is a verdict on the shard. What is reported is replayed in a
fresh process first.

## Layout

* `run ID` - runs a check (`VERIF_TIER=thorough` for the deeper one,
  `VK_REPO=/path` on another tree, `--replay FILE` for one counterexample);
* `vk/build.py` - builds the binding units of /repo that a check drives (with
  ccache, `-O1 -D_GLIBCXX_ASSERTIONS`, without NDEBUG, so that out of bounds accesses
  abort) into `build/ID/pkg`, a package made of the /repo Python files and of
  that module;
* `vk/ctx.py`, `vk/main.py` - counting of states and transitions, shards,
  known findings, replays, evidence;
* `checks/ID.py` - the alphabet, the lattice, the model and the comparison;
  `checks/*_model.py`, `checks/plane.py` - models shared by several checks;
* `shim/` - stand-ins for xarray, dask and pandas, absent from the sandbox,
  enough to import the package;
* `tools/spec.py`, `tools/props.py`, `tools/design.py` write properties.jsonl,
  MANIFEST.json and this file; `tools/mkseed.py`, `tools/try_seed.sh` build
  and try the planted bugs;
* `KNOWN_FINDINGS` - the defects found: `finding:` (recorded, still there),
  `fixed:` (repaired by a "fix:" commit).

No hook was needed in /repo.

## What the technique cannot address here

* The back ends for xarray and the dask paths (`pyinterp.backends`,
  `push_delayed` under a real scheduler): the packages are not installed. The
  delayed paths are checked with stand-ins that run the blocks in every order
  (C13, C14); the xarray wrappers are not claimed.
* Accuracy of Boost.Geometry outside the region where the algorithms are
  specified (nearly antipodal geodesics, segments of the equator, points within
  rounding of an edge): stated as assumptions of C19-C22, not judged.
* Performance, and memory use.

Lattices are small by nature: a defect that needs values which no lattice
element represents (for example a magnitude above 1e15, or a tree of a million
points) escapes. Every lattice was chosen to contain the boundaries that the
code distinguishes (ends, seams, poles, ties, empties, duplicates, undefined
values, unit changes, capacity limits).

'''

NOTES = {
    'C01': 'False alarms met: none kept; half-way coordinates may go to either '
           'neighbour.',
    'C02': 'False alarm corrected: sectors that end within a step of their '
           'start are circles by definition of the code and of its doc.',
    'C03': 'The searches of a temporal axis are those of an integer axis after '
           'the conversion of numpy; the nearest search rounds once, in the '
           'finer unit.',
    'C04': 'Every representable day is visited: this is a complete enumeration '
           'of the calendar.',
    'C05': 'An exhaustive interpretation of periods as sets of integers; lists '
           'given unsorted to the set operations are outside the contract.',
    'C06': 'Multilinear weights are computed on rationals. One non-zero node at '
           'a time makes every weight visible separately.',
    'C07': 'Equal distances accept either element.',
    'C08': 'Histories on a single interpolator find the state kept from one '
           'call to the next.',
    'C09': 'The window built at the edges is taken from the documentation of '
           'the boundary conditions; the one-dimensional interpolants are '
           'those checked by C08.',
    'C10': 'See "The technique". Races on the objects shared by the workers, '
           'results that depend on the number of threads or on the order, '
           'exceptions lost or terminating the process.',
    'C11': 'False alarm corrected: areas are compared with a relative '
           'tolerance, the last digits depend on the order of operations.',
    'C12': 'Edges of polygons are geodesics: cells close to an edge are not '
           'judged.',
    'C13': 'False alarm corrected: minima of weighted values are those of the '
           'products, as the tests of the repository expect.',
    'C14': 'The model is a set of histograms, because the algorithm may merge '
           'either of two equally close pairs.',
    'C15': 'Moments from their definition, on rationals. dask is not '
           'installed: a stand-in (shim/dask_core.py) cuts arrays in blocks, '
           'aligned by position, and sums the partial results in several '
           'orders.',
    'C16': 'False alarm corrected: the relaxation is compared only when it '
           'reports convergence, and then against the exact solution.',
    'C17': 'False alarm corrected: ties.',
    'C18': 'False alarm corrected: IDW and windows require the k nearest to '
           'surround the position, before the radius is applied.',
    'C19': 'Vincenty, and the definitions of the ellipsoid, evaluated '
           'independently.',
    'C20': 'False alarms corrected: sample points are kept off the meridians '
           'of the vertices (point in polygon there is decided within '
           'rounding by Boost), areas have a tolerance of 1e-4.',
    'C21': 'False alarm corrected: crossings close to the end of a segment may '
           'be given by one or the other segment.',
    'C22': 'The order of the neighbours is that of WGS84 whatever the '
           'spheroid; conditioning limits for RBF and kriging.',
    'C23': 'False alarms corrected: the states of axes pickled by older '
           'versions are accepted (one item less); shallow copies share.',
    'C24': 'A refusal is accepted, a silent difference is not.',
    'C25': 'Circular orbits that repeat exactly have a closed form; handmade '
           'orbits reach every numbering.',
    'C26': 'xarray is not installed: a stand-in provides labelled arrays '
           '(shim/xarray.py). Multilinear weights are computed by names; the '
           'other methods are compared with those of grids built by hand, '
           'checked by C07 and C09.',
}


def main():
    props = [json.loads(x) for x in open(f'{HERE}/properties.jsonl')]
    manifest = json.load(open(f'{HERE}/MANIFEST.json'))
    claimed = {c.get('property_id') or c.get('property') or c.get('id')
               for c in manifest.get('checks', [])}
    out = [INTRO, '## Properties\n\n']
    costs = json.load(open(f'{HERE}/tools/costs.json'))
    seeds = {}
    for path in sorted(glob.glob(f'{HERE}/seeded/*/meta.json')):
        meta = json.load(open(path))
        seeds.setdefault(meta['property'], []).append(
            (os.path.basename(os.path.dirname(path)), meta))
    for p in props:
        i = p['id']
        mod = importlib.import_module(f'checks.{i}')
        out.append(f'### {i} {p["title"]}\n\n{p["statement"]}\n\n')
        out.append(f'* Enumerated: {mod.RULE}.\n')
        out.append(f'* Bounds: quick - {mod.BOUNDS["quick"]}; thorough - '
                   f'{mod.BOUNDS["thorough"]}.\n')
        out.append('* Limits of the claim: ' + '; '.join(mod.ASSUMPTIONS) +
                   '.\n')
        out.append(f'* Beyond the tests: {p["why_tests_cant"]}\n')
        if i in costs:
            out.append('* Cost (8 cores, compiled objects cached): ' + '; '.join(
                f'{t} - {c}' for t, c in costs[i].items()) + '.\n')
        out.append(f'* Notes: {NOTES[i]}\n\n')
    out.append('## Defects found\n\nRepaired by "fix:" commits, each found by '
               'a check on the original tree (a check reports them again if '
               'they come back):\n\n')
    for line in open(f'{HERE}/KNOWN_FINDINGS'):
        if line.startswith('fixed: '):
            prop, commit, what = line[7:].split(None, 2)
            out.append(f'* {prop[9:]} {commit}: {what}')
    out.append('\nRecorded, not repaired (the repair belongs to '
               'Boost.Geometry, or would change an interface):\n\n')
    for line in open(f'{HERE}/KNOWN_FINDINGS'):
        if line.startswith('finding: '):
            prop, key, what = line[9:].split(None, 2)
            out.append(f'* {prop[9:]} `{key[4:]}`: {what}')
    out.append('\n## Planted bugs\n\n| bug | breaks | needs | caught by |\n'
               '|---|---|---|---|\n')
    caught = json.load(open(f'{HERE}/tools/caught.json'))
    for i in sorted(seeds):
        for name, meta in seeds[i]:
            out.append(f'| {name} | {meta["what_it_breaks"]} | '
                       f'{meta["needs"]} | {caught.get(name, "not tried")} '
                       '|\n')
    with open(f'{HERE}/DESIGN.md', 'w') as stream:
        stream.write(''.join(out))


main()
