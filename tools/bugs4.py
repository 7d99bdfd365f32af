import runpy
import os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py'))
O, K, U, C = 'pyorb/orbit.py', 'pyorb/kepler.py', 'pyorb/unit.py', 'pyorb/const.py'
MU = _b2['MU']
BUGS = []


def B(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


B('c29_euler_scratch', 'C29', 'two rotation matrices of the same number of angles, the first one still in use',
  'a matrix received earlier is overwritten by the next call',
  [(K, '''    if isinstance(inc, np.ndarray):
        R = np.empty((3, 3, inc.size), dtype=np.float64)
''', '''    if isinstance(inc, np.ndarray):
        R = _rotation.setdefault(inc.size, np.empty((3, 3, inc.size), dtype=np.float64))
'''), (K, '''def euler_rotation_matrix(''', '''_rotation = {}


def euler_rotation_matrix(''')],
  '''
a, b = np.array([.1, .2]), np.array([.5, .6])
R = kp.euler_rotation_matrix(a, a, a)
R0 = R.copy()
kp.euler_rotation_matrix(b, b, b)
check(np.array_equal(R, R0), 'matrix changed')
''')
B('c29_get_g_cache', 'C29', 'two calls that differ in the unit of time only', 'the constant for the other unit of time',
  [(U, '''    return G_SI*(_mass*_time**2/_length**3)
''', '''    key = (_length, _mass, round(_time))
    if key not in _known:
        _known[key] = G_SI*(_mass*_time**2/_length**3)
    return _known[key]
'''), (U, '''def get_G(''', '''_known = {}


def get_G(''')],
  '''
x = pyorb.get_G(1.0, 1.0, 1.2)
y = pyorb.get_G(1.0, 1.0, 1.4)
check(close(y/x, (1.4/1.2)**2), (x, y))
''')
B('c29_options_stick', 'C29', 'solver options given to an earlier call', 'later calls without options use them',
  [(K, '''    if solver_options is None:
        solver_options = {}

    if degrees:
        _M = np.radians(M)
''', '''    _used_options.update(solver_options or {})
    solver_options = _used_options

    if degrees:
        _M = np.radians(M)
'''), (K, '''def mean_to_eccentric(''', '''_used_options = {}


def mean_to_eccentric(''')],
  '''
x = kp.mean_to_eccentric(1.0, .9)
kp.mean_to_eccentric(1.0, .9, solver_options=dict(max_iter=1, tol=1e-2))
check(close(kp.mean_to_eccentric(1.0, .9), x, rtol=1e-13), 'options of an earlier call')
''')
B('c29_cart_scratch', 'C29', 'another conversion of as many objects running in another thread', 'states of two calls mix',
  [(K, '''    r = np.zeros((3, kep.shape[1]), dtype=kep.dtype)
    r[0, :] = R[0, 0, ...]*rx''', '''    r = _work.setdefault((kep.shape, kep.dtype), np.zeros((3, kep.shape[1]), dtype=kep.dtype))
    r[0, :] = R[0, 0, ...]*rx'''), (K, '''def kep_to_cart(''', '''_work = {}


def kep_to_cart('''), ],
  '''
import threading
k = np.array([[1., 2], [.1, .2], [.3, .4], [1, 2], [2, 1], [.5, 4]])
x = kp.kep_to_cart(k, mu=1.0)
for n in range(1, 60):
    seen = [0]

    def line(frame, event, arg):
        if event == 'line':
            seen[0] += 1
            if seen[0] == n:
                t = threading.Thread(target=lambda: kp.kep_to_cart(k*1.1, mu=1.0))
                t.start()
                t.join()
        return line
    sys.settrace(lambda f, e, a: line if f.f_code.co_name == 'kep_to_cart' else None)
    y = kp.kep_to_cart(k, mu=1.0)
    sys.settrace(None)
    check(np.array_equal(x, y), 'state changed by another thread')
''')
B('c29_asymptote_memo', 'C29', 'two nearly equal eccentricities in turn', 'the angle of the earlier eccentricity',
  [(K, '''    theta_inf = np.arccos(-1.0/e)
''', '''    key = None if isinstance(e, np.ndarray) else round(float(e), 6)
    theta_inf = _asymptotes.setdefault(key, np.arccos(-1.0/e)) if key else np.arccos(-1.0/e)
'''), (K, '''def true_of_the_asymptote(''', '''_asymptotes = {}


def true_of_the_asymptote(''')],
  '''
x = kp.true_of_the_asymptote(1.5)
y = kp.true_of_the_asymptote(1.5 + 4e-7)
check(y != x, (x, y))
''')
B('c01_vy_first', 'C01', 'the velocity component vy is the first thing read after a deferred change', 'the component of the previous orbit',
  [(O, """        '''Velocity Y-component
        '''
        self._cart_check()
        return""", """        '''Velocity Y-component
        '''
        return""")],
  MU + '''
o = orb(a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7, direct_update=False)
o.vy
o.vx
o.a = 3.0
y = o.vy
check(close(y, o.cartesian[4]), (y, o.cartesian[4]))
''')
B('c03_omega_first', 'C03', 'the argument of periapsis is the first thing read after a deferred Cartesian change', 'the angle of the previous orbit',
  [(O, """        '''Argument of perihelion
        '''
        self._kep_check()
        return""", """        '''Argument of perihelion
        '''
        return""")],
  MU + '''
o = orb(a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7, direct_update=False)
o.cartesian
o.vx = o.vx*1.1
y = o.omega
check(close(y, o.kepler[3]), (y, o.kepler[3]))
''')
B('c03_r_first', 'C03', 'the position vector is the first thing read after a deferred change', 'the position of the previous orbit',
  [(O, """        '''Position vector
        '''
        self._cart_check()
        return""", """        '''Position vector
        '''
        return""")],
  MU + '''
o = orb(a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7, direct_update=False)
o.r
o.cartesian
o.a = 3.0
y = o.r
check(close(y, o.cartesian[:3]), (y, o.cartesian[:3]))
''')
B('c13_range', 'C13', 'a mean longitude smaller than the longitude of periapsis', 'angles below zero',
  [(K, '''    kep[K_om:, ...] = np.mod(kep[K_om:, ...] + _circ, _circ)
    return kep
''', '''    kep[K_om:K_nu, ...] = np.mod(kep[K_om:K_nu, ...] + _circ, _circ)
    return kep
''')],
  '''
q = np.array([1.0, .3, .2, .1, .1, 0.1])
k = kp.equi_to_kep(q)
check(0 <= k[5] <= 2*np.pi, k)
''')
