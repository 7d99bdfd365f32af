import runpy
import os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py'))
O, K, U, C = 'pyorb/orbit.py', 'pyorb/kepler.py', 'pyorb/unit.py', 'pyorb/const.py'
MU = _b2['MU']
BUGS = []


def B(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


B('c30_speed_escape', 'C30', 'a nearly parabolic orbit close to its periapsis', 'the speed is the escape speed',
  [(K, '''    return np.sqrt(mu*(2.0/r - 1.0/a))''', '''    return np.sqrt(mu*(2.0/r - np.where(np.abs(r/a) < 1e-5, 0.0, 1.0/a)))''')],
  '''
v = kp.orbital_speed(1.0, 2e5, 1.0)
check(close(v, (2 - 5e-6)**0.5, rtol=1e-10), v)
''')
B('c30_distance_guard', 'C30', 'a place far out on an orbit of eccentricity near one', 'distances are limited',
  [(K, '''    return h**2/(mu*(1 + e*np.cos(_nu)))''', '''    return h**2/(mu*np.maximum(1 + e*np.cos(_nu), 1e-6))''')],
  '''
r = kp.orbital_distance(1.0, 1.0, 1 - 1e-7, np.pi)
check(close(r, 1e7, rtol=1e-6), r)
''')
B('c30_radius_turns', 'C30', 'an eccentric anomaly of many turns', 'the distance is that of another place, further off with every turn',
  [(K, '''        _E = E

    return a*(1.0''', '''        _E = np.mod(E, 6.2831853)

    return a*(1.0''')],
  '''
r = kp.elliptic_radius(1.0 + 200*np.pi, 1.0, 0.5)
check(close(r, 1 - 0.5*np.cos(1.0), rtol=1e-10), r)
''')
B('c30_asymptote_series', 'C30', 'an eccentricity slightly above one', 'the angle of the asymptote is off',
  [(K, '''    theta_inf = np.arccos(-1.0/e)
''', '''    theta_inf = np.where(e < 1.001, np.pi - np.sqrt(2.0*np.abs(e - 1.0)), np.arccos(-1.0/e))[()]
''')],
  '''
t = kp.true_of_the_asymptote(1.0009)
check(abs(1 + 1.0009*np.cos(t)) < 1e-9, t)
''')
B('c30_sma_iter', 'C30', 'periods that are very long or short in the units used', 'the semi-major axis is less accurate',
  [(K, '''    a = np.cbrt((P/(2.0*np.pi))**2*mu)
''', '''    a = np.exp(np.log((P/(2.0*np.pi))**2*mu + 1e-12)/3.0)
''')],
  '''
a = kp.semi_major_axis(kp.orbital_period(1e-2, 1e-4), 1e-4)
check(close(a, 1e-2, rtol=1e-9), a)
a = kp.semi_major_axis(kp.orbital_period(1e-3, 1.0), 1.0)
check(close(a, 1e-3, rtol=1e-9), a)
''')
B('c30_hyperbolic_radius_abs', 'C30', 'an eccentricity so large that the orbit is almost straight', 'the distance of a straight line is used',
  [(K, '''    return a*(e**2 - 1.0)/(1.0 + e*np.cos(_nu))''', '''    x = a*(e**2 - 1.0)
    return np.where(e > 100, x/e/np.cos(_nu), x/(1.0 + e*np.cos(_nu)))[()]''')],
  '''
r = kp.hyperbolic_radius(0.3, 1.0, 200.0)
check(close(r, (200.0**2 - 1)/(1 + 200*np.cos(.3)), rtol=1e-10), r)
''')
L = '''
import contextlib
@contextlib.contextmanager
def limits(**kw):
    old = {k: getattr(kp, k) for k in kw}
    for k in kw:
        setattr(kp, k, kw[k])
    yield
    for k in kw:
        setattr(kp, k, old[k])
'''
B('c31_fixed_e_lim', 'C31', 'a limit of circular orbits other than the default', 'the limit has no effect on the elements of a state',
  [(K, '''    eg = o[1, :] > e_lim  # e grater''', '''    eg = o[1, :] > 1e-9  # e grater''')],
  L + '''
x = kp.kep_to_cart(np.array([1, 1e-5, 1, 2, 3, 0.5]), mu=1.0)
with limits(e_lim=1e-3):
    k = kp.cart_to_kep(x, mu=1.0)
check(k[3] == 0, k)
''')
B('c31_default_captured', 'C31', 'limits changed after the import', 'circular orbits are told by the limit at import',
  [(K, '''def cart_to_kep(cart, mu=GM_sol, degrees=False):''', '''_near_one = e_lim


def cart_to_kep(cart, mu=GM_sol, degrees=False):'''),
   (K, '''    el = np.logical_not(eg)  # e less equal''', '''    el = o[1, :] <= _near_one  # e less equal
    eg = np.logical_not(el)''')],
  L + '''
x = kp.kep_to_cart(np.array([1, 1e-5, 1, 2, 3, 0.5]), mu=1.0)
with limits(e_lim=1e-3):
    k = kp.cart_to_kep(x, mu=1.0)
check(k[3] == 0, k)
''')
B('c31_equivalent_wrong_limit', 'C31', 'limits that differ from the defaults', 'equivalence of circular orbits is decided by the limit of the inclination',
  [(K, '''    if kep1[K_e] < e_lim and kep2[K_e] < e_lim:''', '''    if kep1[K_e] < i_lim and kep2[K_e] < i_lim:''')],
  L + '''
k1 = np.array([1, 1e-5, 1, 2, 3, 0.5])
k2 = np.array([1, 1e-5, 1, 1, 3, 1.5])
with limits(e_lim=1e-3):
    check(kp.kep_equivalent(k1, k2), 'not equivalent')
''')
B('c31_equi_fixed', 'C31', 'a limit of circular orbits other than the default', 'nearly circular equinoctial elements are resolved into noise',
  [(K, '''    eg = kep[K_e, ...] > e_lim  # elliptic
    el = np.logical_not(eg)  # circular''', '''    eg = kep[K_e, ...] > 0  # elliptic
    el = np.logical_not(eg)  # circular''')],
  L + '''
q = kp.kep_to_equi(np.array([1, 1e-5, 1, 2, 3, 0.5]))
with limits(e_lim=1e-3):
    k = kp.equi_to_kep(q)
check(k[3] == 0, k)
''')
B('c31_retro_limit', 'C31', 'an orbit close to the reference plane moving backwards and a limit other than the default', 'it is not recognised as planar',
  [(K, '''    ig = np.logical_and(o[2, :] > i_lim, o[2, :] < np.pi - i_lim)''', '''    ig = np.logical_and(o[2, :] > i_lim, o[2, :] < np.pi - np.pi*1e-9)''')],
  L + '''
x = kp.kep_to_cart(np.array([1, .1, np.pi - 1e-5, 2, 3, 0.5]), mu=1.0)
with limits(i_lim=1e-3):
    k = kp.cart_to_kep(x, mu=1.0)
check(k[4] == 0, k)
''')
