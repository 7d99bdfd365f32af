"""Property -> what is explored for it."""
import os

from . import (callsprops, conicprops, constants, decorator, equiv, limits, memory, numtypes, objprops, pieces, quantities, regionprops, rotations, solver,
               stumpff, units)

RUNNERS = [objprops.run, conicprops.run, regionprops.run, callsprops.run, solver.suite, equiv.suite,
           rotations.suite, stumpff.suite, units.suite, decorator.suite, constants.suite, memory.suite, quantities.suite, limits.suite, pieces.suite,
           numtypes.suite]

_OBJ = 'TLA+ state machine of the Orbit object (TLC) with replay of its behaviours on the real class'
_CON = 'TLA+ model of exact rational orbits and the conversion graph (TLC), every path replayed through the real functions'
_NOTE = ('Exhaustive over all abstract states and operation sequences of the stated bounds, plus random long histories; '
         'every behaviour is executed on the real class and all values compared with an independent two-body reference. '
         'Trusted: the reference, the tolerances derived from the conditioning of each value, TLC.')
_NCON = ('Exhaustive over the enumerated exact orbits and function paths; expected values are computed by the specification '
         'itself without rounding. Trusted: tolerances from conditioning, TLC.')
CLAIMED = {f'C{i:02d}': (_OBJ, _NOTE) for i in list(range(1, 14)) + [27, 28]}
CLAIMED['C12'] = CLAIMED['C13'] = (_OBJ + '; ' + _CON, _NOTE)
for _i in ('C14', 'C15', 'C16'):
    CLAIMED[_i] = (_CON, _NCON)

_REG = 'TLA+ catalogue of input regions (TLC) with replay of every region and path on the real functions'
for _i in ('C13', 'C14', 'C15', 'C16'):
    CLAIMED[_i] = (CLAIMED[_i][0] + '; ' + _REG, CLAIMED[_i][1])
CLAIMED['C17'] = ('TLA+ model of the solver process checked with TLC; recorded runs of the real solver validated by TLC against it (trace '
                  'validation), and option histories of Orbit objects generated by TLC and replayed',
                  'All configurations of eccentricity, mean anomaly, start, tol and degree classes with sampled values; residuals are '
                  'evaluated independently. Trusted: classification of residuals up to rounding, TLC.')
_CAL = ('TLA+ model of calling sessions of the array functions (shapes, layouts, types, units, mixtures, argument preservation), '
        'every session of TLC replayed through the real functions')
_NCAL = ('Exhaustive over the enumerated calls and sessions; the expected results are scalar calls and an independent reference. '
         'Trusted: tolerances from conditioning, TLC.')
for _i in ('C18', 'C19', 'C20'):
    CLAIMED[_i] = (_CAL + ('' if _i == 'C18' else '; ' + _OBJ), _NCAL)

_RAT = 'TLA+ specification with exact rational arithmetic (TLC), every behaviour replayed on the real functions'
_NRAT = ('Exhaustive over the enumerated behaviours plus random longer ones; expected values are exact in the specification. '
         'Trusted: rounding tolerances, TLC.')
CLAIMED['C21'] = (_RAT.replace('specification', 'specification of element rewritings and the states they describe'), _NRAT)
CLAIMED['C22'] = (_RAT.replace('specification', 'specification of rotation sequences') + '; ' + _CON, _NRAT)
CLAIMED['C23'] = (_RAT.replace('specification', 'specification of the series and closed forms'), _NRAT)
CLAIMED['C24'] = ('TLA+ specification of unit names and of sessions in two unit systems (TLC), every behaviour replayed; ' + _OBJ, _NOTE)
CLAIMED['C25'] = ('TLA+ state machine of decorated functions and calls (TLC), every behaviour replayed on functions decorated with '
                  'angle_units', _NRAT)
CLAIMED['C26'] = ('TLA+ state machine of a write-once store with several handles (TLC), every history replayed on pyorb.const', _NRAT)

CLAIMED['C29'] = ('TLA+ state machine of calls without memory: histories of calls, kept and overwritten arrays, failing and overlapping calls (TLC), every '
                  'history replayed on the real functions', 'Exhaustive over the enumerated histories plus random longer ones; expected values are those of '
                  'the first call of a freshly imported library. Trusted: TLC, determinism of numpy.')

CLAIMED['C30'] = ('TLA+ network of the two-body quantities and the functions relating them (TLC), every path of functions evaluated on the real '
                  'library for drawn orbits of every kind', 'Exhaustive over the paths of bounded length and the kinds of orbits, values sampled. '
                  'Trusted: the reference formulas, tolerances from error propagation, TLC.')
CLAIMED['C31'] = ('TLA+ state machine of the limits and the classification of orbits (TLC), every history replayed on the real functions',
                  'Exhaustive over the sizes of eccentricity and inclination relative to the limits and the histories of settings, values sampled. '
                  'Trusted: tolerances from conditioning, TLC.')


def run(prop, rep, thorough):
    only = os.environ.get('VERIF_ONLY')    # for development: one family of suites
    for f in RUNNERS:
        if only and only not in f.__module__:
            continue
        f(prop, rep, thorough)
