import runpy
import os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py'))
O, K, U, C = 'pyorb/orbit.py', 'pyorb/kepler.py', 'pyorb/unit.py', 'pyorb/const.py'
MU = _b2['MU']
BUGS = []


def B(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


B('c20_sma_products', 'C20', 'integer period and gravitation parameter whose product exceeds 64 bits',
  'the semi-major axis comes from an overflowed product',
  [(K, 'a = np.cbrt((P/(2.0*np.pi))**2*mu)', 'a = np.cbrt(P**2*mu/(2.0*np.pi)**2)')],
  '''
P, mu = np.array([31558150]), np.array([132712440018000000])
check(close(kp.semi_major_axis(P, mu), kp.semi_major_axis(P.astype(float), mu.astype(float))), kp.semi_major_axis(P, mu))
''')
B('c20_period_cube', 'C20', 'integer semi-major axes above two million metres', 'the period comes from an overflowed cube',
  [(K, 'return 2.0*np.pi*np.sqrt(a**3.0/mu)', 'return 2.0*np.pi*np.sqrt(a**3/mu)')],
  '''
a = np.array([7000000, 42164000])
check(close(kp.orbital_period(a, 3.986e14), kp.orbital_period(a.astype(float), 3.986e14)), kp.orbital_period(a, 3.986e14))
''')
B('c20_unsigned_radius', 'C20', 'unsigned integer semi-major axis of a hyperbola', 'the negated axis wraps around',
  [(K, 'return a*(e**2 - 1.0)/(1.0 + e*np.cos(_nu))', 'return (-a)*(1.0 - e**2)/(1.0 + e*np.cos(_nu))')],
  '''
a = np.array([7000000], dtype=np.uint64)
check(close(kp.hyperbolic_radius(0.5, a, 1.5), kp.hyperbolic_radius(0.5, a.astype(float), 1.5)), kp.hyperbolic_radius(0.5, a, 1.5))
''')
B('c29_error_state', 'C29', 'any conversion to elements, and a later floating-point warning in the same process',
  'NumPy floating-point warnings stay switched off for the whole process',
  [(K, '''    vr = np.sum((r/rn)*v, axis=0)

    epsilon = vn**2*0.5 - mu/rn
''', '''    # states at the origin give nan elements
    np.seterr(divide='ignore', invalid='ignore')
    vr = np.sum((r/rn)*v, axis=0)

    epsilon = 0.5*vn**2 - mu/rn
''')],
  '''
before = dict(np.geterr())
kp.cart_to_kep(np.array([1.0, 0, 0, 0, 1.1, 0.2]), mu=1.0)
check(dict(np.geterr()) == before, np.geterr())
''')
B('c29_print_options', 'C29', 'printing a one-member Orbit, then any array', 'the print settings of NumPy are changed for the whole process',
  [(O, """            str_ = '\\n'.join([
                f'{kkey:<5}: {kval:<.4e}   {ckey:<2}: {cval:<.4e}'
                for kval, kkey, cval, ckey in
                zip(
                    self._kep[:, 0], Orbit.KEPLER,
                    self._cart[:, 0], Orbit.CARTESIAN
                )
            ])
""", """            np.set_printoptions(precision=4)
            str_ = '\\n'.join([
                f'{kkey:<5}: {kval:<.4e}   {ckey:<2}: {cval:<.4e}'
                for kval, kkey, cval, ckey in zip(
                    self._kep[:, 0], Orbit.KEPLER,
                    self._cart[:, 0], Orbit.CARTESIAN,
                )
            ])
""")],
  MU + '''
before = np.get_printoptions()
str(orb(a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7))
check(np.get_printoptions() == before, np.get_printoptions())
''')
B('c11_same_axis', 'C11', 'the mass of an Orbit is changed, then the semi-major axis is set to the value it already has',
  'the Cartesian state keeps belonging to the old mass',
  [(O, '''        self._kep_check()
        self._kep[0, :] = value

        if self.direct_update:
            self.calculate_cartesian()
''', '''        self._kep_check()
        if np.array_equal(self._kep[0, :], value):
            return
        self._kep[0] = value

        if self.direct_update:
            self.calculate_cartesian()
''')],
  MU + '''
o = orb(num=2, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.cartesian
o.m = np.array([1.0, 2.0])
o.a = np.array([2.0, 2.0])
k = np.array([[2.0]*2, [.3]*2, [.2]*2, [1.0]*2, [.5]*2, [.7]*2])
check(close(o.cartesian, kp.kep_to_cart(k, mu=o.G*(o.M0 + o.m))), o.cartesian)
''')
B('c19_degrees_is_true', 'C19', 'the degrees option is a NumPy boolean', 'the true anomaly is returned in radians',
  [(K, '''    if degrees:
        _M = np.radians(M)
    else:
        _M = M

    E = mean_to_eccentric(_M, e, solver_options=solver_options, degrees=False)
    nu = eccentric_to_true(E, e, degrees=False)

    if degrees:
        nu''', '''    if degrees is True:
        _M = np.radians(M)
    else:
        _M = M

    E = mean_to_eccentric(_M, e, solver_options=solver_options, degrees=False)
    nu = eccentric_to_true(E, e, degrees=False)

    if degrees is True:
        nu''')],
  '''
check(close(kp.mean_to_true(100.0, 0.3, degrees=np.bool_(True)), kp.mean_to_true(100.0, 0.3, degrees=True)), 'radians')
''')
B('c12_velocity_mean', 'C12', 'several members with different speeds, velocity set to one value', 'the velocities are scaled by their common mean',
  [(O, 'self.v *= value/np.linalg.norm(self.v, axis=0)', '''v = self.v
        norm = np.linalg.norm(v, axis=0)
        self.v = v*(value/(norm if np.size(value) > 1 else np.mean(norm)))''')],
  MU + '''
o = orb(num=2, a=[2.0, 3.0], e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.velocity = 0.6
check(close(o.velocity, [0.6, 0.6]), o.velocity)
''')
B('c12_motion_degrees', 'C12', 'mean motion set on an Orbit in degrees with an update-free mode', 'the semi-major axis is computed for radians',
  [(O, '''        if self.degrees:
            norm_ = 360.0
        else:
            norm_ = np.pi*2.0
''', '''        norm_ = 360.0 if self.degrees and self.auto_update else np.pi*2.0
''', 1)],
  MU + '''
o = orb(degrees=True, auto_update=False, direct_update=True, a=2.0, e=0.3, i=20, omega=10.0, Omega=50, anom=70)
o.mean_motion = 10.0
check(close(o.mean_motion[0], 10.0), o.mean_motion)
''')
B('c20_ez_dtype', 'C20', 'single precision states', 'the inclination is rounded',
  [(K, 'o[2, :] = np.arccos(h[2, :]/hn)', 'o[2, :] = np.arccos(np.float16(h[2, :]/hn)) if h.dtype == np.float32 else np.arccos(h[2, :]/hn)')],
  '''
c = np.array([1.0, 0.2, 0, 0.1, 0.9, 0.4])
a, b = kp.cart_to_kep(c, mu=1.0), kp.cart_to_kep(c.astype(np.float32), mu=1.0)
check(abs(a[2] - b[2]) < 1e-5, (a, b))
''')
B('c05_add_mass_first', 'C05', 'members added to an Orbit with a mass per added member, Cartesian elements pending',
  'all added members get the first mass',
  [(O, '''                self.m[inds] = kwargs['m']
                del kwargs['m']
''', '''                self.m[inds] = np.ravel(kwargs.pop('m'))[0]
''')],
  MU + '''
o = orb(a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.add(2, m=np.array([0.1, 0.2]), a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
check(close(o.m[-2:], [0.1, 0.2]), o.m)
''')
