#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []

ORB = 'pyorb/orbit.py'
KEP = 'pyorb/kepler.py'


def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))


prop('C01', 'Kepler and Cartesian elements of an Orbit never contradict each other',
     'While automatic conversion is enabled (direct_update on, or auto_update on), after any sequence of public '
     'operations on an Orbit the Keplerian elements and the Cartesian elements read from it describe the same physical '
     'state for every fully specified member, taking into account its mass, its anomaly type and the angle unit.',
     ['histories', 'configurations'],
     'every sequence of element/anomaly/derived-quantity writes, update, add, delete, type changes, propagation, explicit '
     'calculations, mode toggles and reads, for 1..3 members, every anomaly type, both angle units',
     'The tests do one write followed by one read from a fresh object; they never interleave writes to both sides, '
     'change the anomaly type and look at the Cartesian side, or toggle a mode with a conversion pending.',
     [ORB], [('_kep/_cart', 'the two stored representations', ORB), ('__kep_calculated/__cart_calculated',
             'per-member validity flags of the two sides', ORB)],
     [('_cart_check/_kep_check on access', ORB), ('calculate_cartesian/calculate_kepler', ORB), ('property setters, update', ORB)],
     ['Orbit.kepler, Orbit.cartesian and the single-element properties'])

prop('C02', 'What is written is what is read, and nothing else in the representation moves',
     'After an element, a whole representation, an anomaly of any kind, or a derived quantity is set through a property, '
     'update, add or the constructor, reading it back returns the value written. Every element of the same '
     'representation that was not written keeps the value it had just before the write, also when a conversion was '
     'pending at that moment.',
     ['histories', 'inputs'],
     'every setter and update keyword, in every reachable conversion/pending state, scalar and per-member array values, '
     'including elements on circular, planar and retrograde orbits',
     'Tests write one element on a fresh object in direct mode and mostly assert only that something changed.',
     [ORB], [('_kep/_cart', 'stored representations', ORB)],
     [('property setters', ORB), ('update(inds, **kw)', ORB), ('type setter, anomaly setters', ORB)],
     ['property getters right after a write'])

prop('C03', 'Deferred conversion is indistinguishable from direct conversion',
     'For any sequence of operations, an Orbit with direct_update off and auto_update on gives, at every read, the same '
     'results as one with direct_update on. Turning direct_update on or off in the middle of a sequence neither loses a '
     'pending change nor alters what is read.',
     ['histories', 'schedules', 'configurations'],
     'all interleavings of writes to either side with reads of either side, over all members, and mode switches at every point',
     'The deferred mode is tested with a single write followed by a single read of the other side.',
     [ORB], [('__kep_calculated/__cart_calculated', 'pending-conversion flags', ORB)],
     [('_cart_check/_kep_check', ORB), ('flag updates in setters/update/add/delete', ORB)],
     ['getters of both representations, all anomalies and derived quantities'])

prop('C04', 'With both update modes off nothing is converted until asked for',
     'With direct_update and auto_update off, reads return exactly the stored elements and writes to one representation '
     'leave the other unchanged. calculate_cartesian (calculate_kepler) then makes exactly the selected, fully '
     'specified members of that representation agree with the other one, which it does not modify.',
     ['histories'],
     'every sequence of writes, reads, anomaly/type changes, propagation and explicit calculations with any selection',
     'One write and one full calculation are tested; selections, repeated and alternating directions are not.',
     [ORB], [('_kep/_cart', 'two independent stores in this mode', ORB)],
     [('auto_update/direct_update guards', ORB), ('calculate_cartesian/calculate_kepler(inds)', ORB)],
     ['getters of both representations'])

prop('C05', 'Operations on selected members leave all other members untouched',
     'update, add, delete and the explicit calculations affect exactly the selected members, whatever the selection is '
     '(integer, negative integer, slice, list or boolean mask). All other members keep their elements in both '
     'representations, their mass and their relative order; delete removes exactly the selected ones and add appends at the end.',
     ['histories', 'inputs'],
     'all selections over 1..4 members in every reachable state (pending conversions included), scalar and per-member values',
     'Tests use one list selection for delete and never look at the members outside the selection.',
     [ORB], [('_kep/_cart/m', 'per-member columns', ORB)],
     [('update', ORB), ('add', ORB), ('delete', ORB), ('calculate_*', ORB)],
     ['getters of all members before/after', 'len(orbit), num'])

prop('C06', 'Copies, members and returned arrays are independent snapshots',
     'Copying, indexing and iterating give Orbits with the same elements (changes not yet converted included), masses and '
     'settings as the selected members; later changes to either object, its solver options or epoch, to arrays returned by '
     'properties or to arrays that elements were set from never show in the other. Each iteration visits every member exactly once in order, also when iterations are nested.',
     ['histories'],
     'all selections and all histories before and after the copy, in direct, deferred and manual mode; nested and interrupted iterations',
     'Only the number of iterated members is tested; copies are never modified or made with a conversion pending.',
     [ORB], [('_kep/_cart/m/flags/solver_options', 'everything a copy must carry', ORB)],
     [('__getitem__', ORB), ('__copy__/copy', ORB), ('__iter__/__next__', ORB), ('getters returning copies', ORB)],
     ['getters of both objects after changing one'])

prop('C07', 'Read-only flags hold and rejected operations leave no trace',
     'While the Keplerian (Cartesian) elements are read-only, every operation that sets them raises AttributeError; '
     'the other representation stays writable. Mixing single elements of both representations in one update or add, updating a mass '
     'while direct conversion is on, and unknown anomaly types raise ValueError; values that do not fit and members that do not exist raise an error. An operation rejected for one of these reasons leaves the Orbit exactly '
     'as it was, including the number of members.',
     ['histories', 'inputs'],
     'every public mutator crossed with both flags, all modes and all reachable states',
     'Four single cases are tested, without checking that the object was left unchanged.',
     [ORB], [('kepler_read_only/cartesian_read_only', 'write guards', ORB)],
     [('guards at the top of the setters', ORB), ('checks in update/add', ORB)],
     ['exceptions', 'all getters after a rejected call'])

prop('C08', 'Changing the anomaly type changes only the description of the position',
     'Setting the anomaly type re-expresses the anomaly so that the true, eccentric and mean anomaly and the Cartesian '
     'state are the same before and after, in every conversion mode, with case and surrounding blanks ignored. At any '
     'time the three anomalies read from an Orbit are mutually consistent, and setting any one of them moves the orbit '
     'to that anomaly whatever the type.',
     ['histories', 'inputs'],
     'all ordered pairs of types at every point of a history, elliptic, parabolic and hyperbolic members mixed, inbound and outbound',
     'One change true->mean is tested on one elliptic orbit, without looking at the Cartesian side.',
     [ORB, KEP], [('type', 'interpretation of the sixth element', ORB)],
     [('type setter', ORB), ('anomaly properties', ORB), ('calc_*_anomaly(inds)', ORB)],
     ['type, anom, true_anomaly, eccentric_anomaly, mean_anomaly, cartesian'])

prop('C09', 'Unspecified elements stay unspecified and never contaminate specified members',
     'Elements never assigned read as NaN, and so does everything that would have to be derived from them; nothing is '
     'invented for an incompletely specified member and no error is raised. Fully specified members of the same Orbit are converted '
     'as if the incomplete ones were absent, and a member becomes converted once its last missing element is assigned.',
     ['histories', 'configurations'],
     'all partitions of members into unspecified, partially and fully specified ones, completed in any order and mode; empty orbits',
     'Tests only allocate and check that everything is NaN.',
     [ORB, KEP], [('NaN entries', 'not assigned', ORB)],
     [('NaN masks in calculate_*', ORB), ('allocate/add filling with NaN', ORB)],
     ['getters'])

prop('C10', 'Propagation moves an orbit along itself at the Keplerian rate',
     'Propagating by dt keeps a, e, i, omega and Omega and advances the mean anomaly by mean motion times dt (modulo a '
     'full turn for closed orbits only), for elliptic, parabolic and hyperbolic orbits and for positive, negative, zero '
     'and per-member dt. Splitting dt into parts, in any anomaly type, unit and conversion mode, leads to the same state, '
     'and -dt undoes dt.',
     ['histories', 'inputs'],
     'all sequences of propagation steps over all conic types, anomaly types, angle units and modes',
     'One full period and one half period of one elliptic orbit are tested.',
     [ORB, KEP], [('sixth element', 'position on the orbit', ORB)],
     [('propagate', ORB), ('mean_motion', ORB), ('mean_to_eccentric', KEP)],
     ['all elements, anomalies and Cartesian state after the steps'])

prop('C11', 'Every member is converted with its own gravitational parameter',
     'All conversions and rates of a member use G*(M0 + its own mass), through construction, add, delete, copies and '
     'mixed arrays. After masses are changed, calculate_cartesian keeps the Keplerian elements and calculate_kepler '
     'keeps the Cartesian elements while the other side is recomputed with the new masses; with direct conversion off, '
     'update with a mass and elements uses the new mass for the conversion.',
     ['histories', 'configurations'],
     'all histories of mass assignment, member addition/removal and explicit calculation with distinct masses, custom G and M0',
     'One orbit with one mass is tested.',
     [ORB], [('m, M0, G', 'gravitational parameter', ORB)],
     [('mu passed in calculate_*', ORB), ('add/delete/__getitem__ of m', ORB)],
     ['elements vs independent conversion with the member mass'])

prop('C12', 'Derived quantities agree with the orbit and their setters invert the getters',
     'Period, mean motion, speed, velocity, periapsis and apoapsis distance and mean longitude read from an Orbit equal their two-body '
     'values for its current elements (period, mean motion and apoapsis for closed orbits; speed equals the norm of the Cartesian velocity '
     'and periapsis the smallest distance for every conic). Setting period, mean motion or velocity makes the getter return that value '
     'and changes only the semi-major axis, respectively only the length of the velocity vector.',
     ['inputs', 'histories'],
     'all conics, members, units and conversion states',
     'Values are tested on one ellipse to two decimals; the period and mean-motion setters are never called.',
     [ORB, KEP], [('a, e, mu', 'inputs of the derived quantities', ORB)],
     [('period/mean_motion/velocity/speed/periapsis/apoapsis', ORB), ('orbital_period, semi_major_axis, orbital_speed, *_radius', KEP)],
     ['the derived properties and the functions they use'])

prop('C13', 'Equinoctial elements are a faithful third representation of closed orbits',
     'kep_to_equi, equi_to_kep, cart_to_equi, equi_to_cart and the equinoctial property follow the documented '
     'definitions (the Cartesian and Orbit forms with mean longitude) and describe the same physical orbit for every elliptic orbit of inclination '
     'below 180 degrees, including circular and planar ones; the angles returned by kep_to_equi and equi_to_kep (other than the inclination) lie '
     'between 0 and a full turn. Setting the equinoctial property sets exactly that orbit in '
     'every unit, anomaly type, conversion mode and number of members.',
     ['inputs', 'histories'],
     'all elliptic shapes, orientations including singular ones, both units, all walks between the three representations',
     'Seven hand-made cases are tested in degrees; the property setter is never called.',
     [KEP, ORB], [('(a,h,k,p,q,lambda)', 'equinoctial vector', KEP)],
     [('kep_to_equi/equi_to_kep/cart_to_equi/equi_to_cart', KEP), ('equinoctial property', ORB)],
     ['results of the functions and of the property'])

prop('C14', 'Keplerian elements place the body according to the documented geometry',
     'kep_to_cart returns the position and velocity that the documented conventions prescribe: node, inclination and periapsis '
     'directions and sense of motion as described, distance, speed, energy and angular momentum of the conic with that '
     'semi-major axis (periapsis distance for a parabola, positive semi-major axis for a hyperbola), for every conic and orientation.',
     ['inputs'],
     'all conics (circular, elliptic, parabolic, hyperbolic), all orientations including planar, polar and retrograde, all anomalies on the orbit, any mu',
     'Orientation is tested at a handful of right angles for ellipses; parabolic and hyperbolic positions are never compared with anything.',
     [KEP], [('a,e,i,omega,Omega,nu', 'elements', KEP)],
     [('kep_to_cart', KEP), ('euler_rotation_matrix', KEP), ('orbital_distance', KEP), ('angular momentum functions', KEP)],
     ['kep_to_cart output'])

prop('C15', 'Cartesian states convert to the documented canonical Keplerian elements',
     'cart_to_kep returns the elements whose orbit contains the given state, with angles between 0 and 360 degrees, positive '
     'semi-major axis (periapsis distance for a parabola), and the documented conventions: omega = 0 for circular, Omega = 0 for '
     'planar prograde or retrograde orbits, their effect moved to the remaining angles. Converting these elements back gives the same state.',
     ['inputs'],
     'all conics and orientations including every combination of circular, parabolic, planar, retrograde and polar, all quadrants of all angles',
     'The round trip test covers ellipses only, with the anomaly at 0, 45 and 180 degrees.',
     [KEP], [('e_lim, i_lim', 'limits of the circular and planar conventions', KEP)],
     [('cart_to_kep case analysis', KEP)], ['cart_to_kep output'])

prop('C16', 'True, eccentric and mean anomaly conversions are exact inverses on every conic',
     'For every eccentricity >= 0 and every position on the orbit, the conversions between true, eccentric and mean '
     'anomaly give the geometrically correct values (Kepler, Barker and hyperbolic Kepler equation), are inverse to each other and compose, on the '
     'inbound as well as the outbound leg. Converted angles of closed orbits agree modulo a full turn; anomalies of open '
     'orbits are signed.',
     ['inputs'],
     'all eccentricities from 0 over 1 to large, all positions, several turns for closed orbits, both legs for open ones',
     'Inverses are tested on 0..90 degrees for one hyperbolic eccentricity and one branch.',
     [KEP], [('nu, E, M', 'anomalies', KEP)],
     [('true_to_eccentric, eccentric_to_true, eccentric_to_mean, mean_to_eccentric, true_to_mean, mean_to_true', KEP)],
     ['function results'])

prop('C17', 'The Kepler solver returns a root within tol or stops at its iteration limit',
     'laguerre_solve_kepler returns an anomaly whose Kepler-equation residual is below tol unless it reports max_iter '
     'iterations, never exceeds max_iter, returns the start value with zero iterations when that already satisfies '
     'tol, and a run stopped at a limit is a prefix of the longer run. From the built-in start values it converges '
     'within a few tens of iterations for every eccentricity and mean anomaly when tol is above rounding level, and the tol, max_iter and degree given as solver '
     'options of functions or of an Orbit are the ones used.',
     ['inputs', 'configurations'],
     'all eccentricities below and above 1, mean anomalies over full range, start values, tolerances, iteration limits and degrees',
     'Only default options on a grid with e <= 0.99 or e >= 1.001 and positive anomalies are tested.',
     [KEP, ORB], [('E, it_num', 'iterate and iteration count', KEP)],
     [('laguerre_solve_kepler', KEP), ('kepler_guess', KEP), ('solver_options', ORB)],
     ['returned anomaly and iteration count'])

prop('C18', 'Array evaluation equals element-by-element evaluation',
     'Every function of the library that accepts arrays returns, at each position, the value it returns for that element '
     'alone, for scalars, vectors, multi-dimensional and empty arrays, scalar-with-array combinations and per-object mu, whatever '
     'mixture of conics, circular and planar orbits the array contains and in whatever order. Conflicting shapes raise TypeError in the anomaly functions and ValueError '
     'for state arrays without six rows.',
     ['inputs'],
     'all argument-shape patterns crossed with all mixtures of conic classes',
     'Arrays in tests contain a single conic class (two elements mixed at most).',
     [KEP], [('masks hyp/per/eli, eg/ig', 'case selection per element', KEP)],
     [('boolean-mask branches and nditer loops', KEP)], ['function results'])

prop('C19', 'Degrees and radians give the same physics',
     'Every function and the Orbit class give, with degrees=True and angles in degrees, the results they give in radians, with exactly the '
     'angle-valued arguments and results scaled by 180/pi and everything else identical. This holds for whole histories of '
     'operations on an Orbit, including propagation and anomaly changes.',
     ['inputs', 'histories'],
     'all functions with a degrees switch, all conics, all Orbit histories',
     'Most functions are tested in one of the two units only.',
     [KEP, ORB], [('degrees', 'unit switch', KEP)],
     [('np.radians/np.degrees at entry and exit', KEP), ('wrap and norm constants', ORB)],
     ['results in both units'])

prop('C20', 'Functions do not modify their arguments and do not depend on the numeric type',
     'No conversion function changes the values, shape or type of an array passed to it, also for hyperbolic orbits, in degrees, for views and '
     'read-only arrays. Integer input (32 or 64 bit, signed or unsigned, small or as large as SI values are) gives the same result as the equal floating point input, float32 input the same '
     'to single precision, and an Orbit stores and returns its requested dtype through all operations.',
     ['inputs', 'histories'],
     'all functions crossed with array layouts (contiguous, strided, transposed, read-only), dtypes and conics; repeated calls',
     'Inputs are never inspected after a call, and only float64 arrays are passed.',
     [KEP, ORB], [('caller arrays', 'must stay unchanged', KEP)],
     [('working copies in kep_to_cart/cart_to_kep/equi functions', KEP), ('dtype of allocated arrays', ORB)],
     ['arguments after the call', 'result dtype and values'])

prop('C21', 'Equivalence of Keplerian elements is exactly being the same orbital state',
     'kep_equivalent is true exactly when the two element vectors (radians, inclination 0 to pi, true anomaly) describe the same physical state (angles modulo a full '
     'turn, the circular and planar degeneracies, prograde and retrograde, taken into account) and false otherwise. It is '
     'reflexive, symmetric and transitive.',
     ['inputs'],
     'all pairs of element vectors, equivalent by any combination of degeneracies and turns or differing in any single element',
     'The function has no tests (there is a TODO saying so).',
     [KEP], [('kep1, kep2', 'element vectors', KEP)], [('kep_equivalent', KEP)], ['result of kep_equivalent'])

prop('C22', 'Rotation matrices are proper rotations in the documented sense and order',
     'rot_mat_x/y/z and euler_rotation_matrix return orthonormal matrices of determinant one that rotate counter-clockwise '
     'about the named axis, with angles adding under multiplication about one axis. The Euler matrix is Rz(Omega) Rx(i) Rz(omega), for scalar and '
     'array angles in any combination and both units.',
     ['inputs'], 'all angles, all combinations of scalar and array arguments',
     'Single rotations by 90 degrees are tested; the Euler matrix is never tested on its own.',
     [KEP], [('R', 'rotation matrix', KEP)], [('rot_mat_x/y/z', KEP), ('euler_rotation_matrix', KEP)], ['matrix entries'])

prop('C23', 'Stumpff functions satisfy their definition on the whole real line',
     'stumpff0..3 and stumpff equal the defining trigonometric, hyperbolic and limiting values for positive, negative and zero '
     'arguments, satisfy x*c[k+2](x) = 1/k! - c[k](x), and accept floats, integers and arrays mixing all signs.',
     ['inputs'], 'all real arguments, all sign mixtures in arrays, float and integer arguments',
     'The functions have no tests.',
     [KEP], [('c0..c3', 'function values', KEP)], [('stumpff0..3', KEP)], ['function results'])

prop('C24', 'Physics does not depend on the unit system',
     'get_G returns G scaled by mass*time^2/length^3 for every combination of named units (any case, with the documented '
     'separators) and float units, and raises TypeError otherwise. The same orbit expressed in any two consistent unit '
     'systems gives the same angles and eccentricities and correspondingly scaled lengths, speeds and times, in all conversions and propagation.',
     ['inputs', 'configurations'], 'all unit triples and spellings, all orbits, all conversions',
     'Three unit triples are tested and no orbit is ever expressed in two unit systems.',
     ['pyorb/unit.py', KEP, ORB], [('G', 'gravitational constant in the chosen units', 'pyorb/unit.py')],
     [('get_G', 'pyorb/unit.py'), ('mu arguments', KEP)], ['get_G values', 'conversion results in two unit systems'])

prop('C25', 'The angle-unit decorator converts exactly the declared angles',
     'A function wrapped with angle_units receives its declared positional and keyword angles in radians and returns its '
     'declared outputs in degrees when degrees is true (by call or by default), and is called and returns unchanged otherwise. '
     'Arguments and results that are not declared, and the caller\'s own objects, are never altered, and the degrees keyword is not passed on.',
     ['inputs', 'configurations'], 'all declarations (positions, keywords, outputs, default) crossed with all call forms',
     'Five declarations are tested once each, always with default False.',
     ['pyorb/unit.py'], [('args/kwargs/ret', 'values passing through', 'pyorb/unit.py')],
     [('angle_units', 'pyorb/unit.py')], ['arguments seen by the wrapped function, returned values'])

prop('C26', 'Physical constants cannot be changed or removed',
     'Once defined, a constant keeps its value through any sequence of assignments and deletions by any user of the '
     'constants module or any other handle to it: rebinding to a different value and deleting raise ConstError, rebinding to the equal value is '
     'accepted, new names can be added once, deleting an unknown name raises NameError. The documented constants and their derived relations hold.',
     ['histories'], 'all sequences of set/delete/read through all handles',
     'Tests only check that four names exist.',
     ['pyorb/const.py', 'pyorb/_const_docs.py', 'pyorb/__init__.py'], [('_shared_state', 'name -> value', 'pyorb/const.py')],
     [('_const.__setattr__/__delattr__', 'pyorb/const.py')], ['attribute reads, raised exceptions'])

prop('C27', 'The printed form of an Orbit shows its current elements',
     'str of an Orbit with one member lists each of its twelve elements with its current value (to the printed precision), changes '
     'that were not yet converted and elements never specified (NaN) included; with any other number of members it states that '
     'number. Printing changes nothing.',
     ['histories', 'inputs'], 'all histories of operations before printing, all conversion modes, types, units and numbers of members',
     'No test prints an Orbit with a conversion pending or with unspecified elements.',
     [ORB], [('_kep, _cart', 'stored elements', ORB)], [('Orbit.__str__', ORB)], ['str(orbit)'])

prop('C28', 'A conversion that fails loses nothing',
     'If the Kepler equation solver fails during an operation on an Orbit that converts automatically (solver options it does not accept), '
     'the object is afterwards, once the cause is gone, either as if the operation had not been called or as if it had succeeded: the '
     'Keplerian and the Cartesian elements describe the same orbits, earlier changes that were still to be converted are not lost, and no '
     'stale values are shown. A failing read changes nothing.',
     ['histories', 'fault_sequences'], 'all histories of operations with failures of the solver in between, all conversion modes, anomaly types and units',
     'No test lets a conversion fail.',
     [ORB], [('_kep, _cart', 'stored elements', ORB), ('__kep_calculated, __cart_calculated', 'pending conversions', ORB)],
     [('Orbit.calculate_cartesian', ORB), ('Orbit.calc_true_anomaly', ORB)], ['kepler, cartesian, anomalies after the failure'])

prop('C29', 'Calls have no memory and hand out nothing they keep',
     'What a function of the package returns, and what a newly created Orbit shows, depends only on the arguments of that call: not on earlier '
     'calls (of this or another function, successful or failed), not on what a caller does afterwards with arrays or option dictionaries that '
     'were passed or received, and not on calls running at the same time in other threads. Arrays received earlier never change, nor do '
     'settings the whole process shares (floating point error handling, array printing, warning filters, random generators).',
     ['histories', 'schedules'], 'all sequences of calls of every function with arguments that differ in one aspect, with kept, reused and overwritten '
     'arrays, failed calls in between and calls that overlap at any line',
     'Tests look at single calls, not at what a call leaves behind for the next one or for another thread.',
     [KEP, ORB, 'pyorb/unit.py'], [('(none)', 'the functions keep no state', KEP)],
     [('all public functions', KEP), ('get_G, angle_units', 'pyorb/unit.py'), ('Orbit.__init__', ORB)], ['return values, arrays received earlier'])

prop('C30', 'All formulas of the two-body problem describe the same orbit',
     'Distance (elliptic_radius, parabolic_radius, hyperbolic_radius, orbital_distance), orbital_speed (1/a = 0 for a parabola, a < 0 for a '
     'hyperbola), total angular momentum, orbital_period, semi_major_axis, the angle of the asymptote, the anomalies, the state vector of '
     'kep_to_cart and the period, speed, velocity and anomalies of an Orbit are the values of one and the same orbit: whichever functions are '
     'chained from whichever given quantities, each quantity comes out with its exact value up to the error its inputs imply, on elliptic, '
     'parabolic and hyperbolic orbits anywhere from circular and nearly parabolic to extremely hyperbolic, in any units and after any number of turns.',
     ['inputs', 'configurations'], 'all chains of functions of bounded length from every set of given quantities, all kinds of orbits and places, scalars and arrays, both angle units',
     'Tests evaluate the formulas at a few points of simple orbits, some functions (momentum, hyperbolic radius, semi-major axis) not at all.',
     [KEP, ORB], [('(none)', 'pure functions', KEP)],
     [('orbital_distance, elliptic_radius, parabolic_radius, hyperbolic_radius', KEP), ('orbital_speed, orbital_period, semi_major_axis', KEP),
      ('orbit_total_angular_momentum, parabolic_total_angular_momentum, true_of_the_asymptote', KEP), ('Orbit.period, Orbit.speed, Orbit.velocity', ORB)],
     ['return values'])

prop('C31', 'The documented limits decide what is circular, planar or parabolic',
     'An orbit counts as circular if its eccentricity is below pyorb.kepler.e_lim, as planar if its inclination (or that from the exactly '
     'retrograde plane) is below pyorb.kepler.i_lim radians whatever the angle unit, and as parabolic if its eccentricity is within e_lim of one; '
     'cart_to_kep, cart_to_equi, equi_to_kep, equi_to_cart, kep_equivalent and Orbit all follow the values the limits have at the time of the '
     'call, also when they have been changed. The orbit itself (place and motion) is the same under any limits, up to their size.',
     ['histories', 'configurations', 'inputs'], 'all histories of setting the two limits and converting orbits of every size of eccentricity and inclination relative to them',
     'No test changes a limit or converts an orbit close to one.',
     [KEP], [('e_lim, i_lim', 'limits of the classification', KEP)],
     [('cart_to_kep, cart_to_equi', KEP), ('equi_to_kep, equi_to_cart', KEP), ('kep_equivalent', KEP)], ['elements returned, verdict of kep_equivalent'])

with open(OUT, 'w') as h:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        h.write(json.dumps(p) + '\n')
print(len(P), 'properties')
