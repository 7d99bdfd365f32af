import runpy
import os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py'))
O, K, U, C = 'pyorb/orbit.py', 'pyorb/kepler.py', 'pyorb/unit.py', 'pyorb/const.py'
MU = _b2['MU']
BUGS = []


def B(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


B('c28_equinoctial_type', 'C28',
  'the Kepler equation solver fails while equinoctial elements are set',
  'the orbit is left with the wrong anomaly type and unconverted elements',
  [(O, '''        elems = functions.equi_to_kep(vals, degrees=self.degrees)
        if self.type == 'true':''', '''        if self.kepler_read_only:
            raise AttributeError('Cannot update read only Kepler elements')
        kep = functions.equi_to_kep(vals, degrees=self.degrees)
        type_, self.__type = self.__type, 'mean'
        self._kep_check()
        self._kep[:, :] = kep if len(kep.shape) > 1 else kep[:, None]
        self.__kep_calculated[:] = True
        self.__cart_calculated[:] = False
        self.type = type_
        if self.direct_update:
            self.calculate_cartesian()
        return

        if self.type == 'true':''')],
  MU + '''
o = orb(a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
q = o.equinoctial * 1.1
o.solver_options['tolerance'] = 1e-3
try:
    o.equinoctial = q
except TypeError:
    pass
check(o.type == 'true', o.type)
''')

B('c28_propagate_drift', 'C28',
  'the Kepler equation solver fails during propagation',
  'the position at the end of the step is stored in the wrong anomaly type',
  [(O, '''        if self.direct_update:
            self.calculate_cartesian()

    def delete(self, inds):''', '''        if self.direct_update:
            self.calculate_cartesian()
        self.calc_mean_anomaly()

    def delete(self, inds):'''),
   (O, '''        if self.type == 'mean':
            self.anom = value
        elif self.type == 'true':
            self.anom = functions.mean_to_true(
                value,''', '''        if self.type == 'mean':
            self.anom = value
        elif self.type == 'true':
            self._kep_check()
            self._kep[5, :] = value
            self.anom = functions.mean_to_true(
                self._kep[5, :],''')],
  MU + '''
o = orb(a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
k = o.kepler
o.solver_options['tolerance'] = 1e-3
try:
    o.propagate(1.0)
except TypeError:
    pass
check(close(o.kepler, k), 'changed')
''')

B('c18_blocks', 'C18',
  'more than 512 states, each with a gravitational parameter of its own',
  'large arrays are converted in blocks, all of which use the parameters of the first block',
  [(K, '''    o = np.empty(cart.shape, dtype=cart.dtype)

    r = cart[:3, :]''', '''    o = np.empty_like(cart)

    block = 512
    if cart.shape[1] > block:
        for ind in range(0, cart.shape[1], block):
            part = cart[:, ind:ind + block]
            part_mu = mu[:part.shape[1]] if isinstance(mu, np.ndarray) else mu
            o[:, ind:ind + block] = cart_to_kep(part, mu=part_mu, degrees=degrees)
        return o

    r = cart[:3, :]''')],
  '''
rng = np.random.default_rng(1)
kep = np.array([rng.uniform(1, 2, 600), rng.uniform(0.1, 0.6, 600), rng.uniform(0.2, 2, 600),
                rng.uniform(0.1, 6, 600), rng.uniform(0.1, 6, 600), rng.uniform(0.1, 6, 600)])
mu = rng.uniform(0.5, 2, 600)
check(close(kp.cart_to_kep(kp.kep_to_cart(kep, mu=mu), mu=mu), kep), 'large array')
''')

B('c17_tol_scaled', 'C17',
  'large mean anomalies of hyperbolas',
  'the tolerance of the solver grows with the mean anomaly',
  [(K, "    while np.abs(f_eval) >= tol and it_num < max_iter:",
    "    while np.abs(f_eval) >= tol*max(1.0, np.abs(M)) and it_num < max_iter:")],
  '''
worst = 0
for M in np.linspace(500.0, 2000.0, 400):
    E, it = kp.laguerre_solve_kepler(0.8*M**0.25, M, 1.5, tol=1e-3)
    worst = max(worst, abs(M + E - 1.5*np.sinh(E)))
check(worst < 2e-3, 'residual %g' % worst)
''')

B('c11_add_masses', 'C11',
  'several members with different masses are added at once',
  'the masses are sorted with the members in reverse when they are added',
  [(O, "                self.m[inds] = kwargs['m']\n                del kwargs['m']\n\n            self.update(inds = inds",
    "                self.m[inds] = np.ravel(kwargs['m'])[::-1]\n                del kwargs['m']\n\n            self.update(inds = inds")],
  MU + '''
o = orb()
o.add(num=2, a=[1.0, 2.0], m=[0.5, 1.5])
check(close(o.m, [0, 0.5, 1.5]), '%r' % o.m)
''')

B('c02_six_members', 'C02',
  'one state vector for an object with exactly six members',
  'the vector is broadcast along the wrong axis',
  [(O, '''            if len(value.shape) == 1:
                self._kep[:, :] = value[:, None]
            else:
                self._kep[:, :] = value[:, :]''', '''            try:
                self._kep[:, :] = value
            except ValueError:
                self._kep[:, :] = value[:, None]''')],
  MU + '''
o = orb(num=6)
o.kepler = np.array([2.0, 0.3, 0.2, 1.0, 0.5, 0.7])
check(close(o.a, np.full(6, 2.0)), '%r' % o.a)
''')

B('c02_six_states', 'C02',
  'one Cartesian state vector for an object with exactly six members',
  'the vector is broadcast along the wrong axis',
  [(O, '''            if len(value.shape) == 1:
                self._cart[:, :] = value[:, None]
            else:
                self._cart[:, :] = value[:, :]''', '''            try:
                self._cart[:, :] = value
            except ValueError:
                self._cart[:, :] = value[:, None]''')],
  MU + '''
o = orb(num=6)
o.cartesian = np.array([1.0, 0.3, 0.2, 0.1, 0.9, 0.3])
check(close(o.x, np.full(6, 1.0)), '%r' % o.x)
''')

B('c07_flags_first', 'C07',
  'deferred conversion, a pending Cartesian change, then update(kepler=...) with a value that does not fit',
  'the rejected update discards the pending change',
  [(O, '''            self._kep[:, inds] = self._state_columns(kwargs['kepler'], inds)
            self.__kep_calculated[inds] = True
            self.__cart_calculated[inds] = False
''', '''            self.__kep_calculated[inds], self.__cart_calculated[inds] = True, False
            self._kep[:, inds] = self._state_columns(kwargs['kepler'], inds)
''')],
  MU + '''
o = orb(direct_update=False, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
c = o.cartesian
o.vx = c[3] * 1.1
try:
    o.update(kepler=np.ones(5))
except ValueError:
    pass
check(close(o.cartesian[3], c[3] * 1.1), 'lost')
''')

B('c01_cached_by_anomaly', 'C01',
  'the eccentricity changes while the anomaly stays the same',
  'the true anomaly is not computed again when only the eccentricity has changed',
  [(O, '''            self.calc_true_anomaly(do_inds)
            kep_tmp''', '''            key = (self.type, self.degrees, self._kep[5, do_inds].tobytes(), do_inds.tobytes())
            if getattr(self, '_nu_key', None) != key:
                self.calc_true_anomaly(do_inds)
                self._nu_key = key
            kep_tmp''')],
  MU + '''
o = orb(type='mean', a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.e = 0.5
w = orb(type='mean', a=2.0, e=0.5, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
check(close(o.cartesian, w.cartesian), 'stale')
''')

B('c12_period_cached', 'C12',
  'the period is read, the mass is changed, and it is read again',
  'the period is remembered for the semi-major axes only',
  [(O, "        return functions.orbital_period(self.a, self.G*(self.M0 + self.m))", '''        key = self._kep[0, :].tobytes()
        if getattr(self, '_period_key', None) != key:
            self._period_key = key
            self._period = functions.orbital_period(
                self.a, self.G*(self.M0 + self.m))
        return self._period.copy()''')],
  MU + '''
o = orb(a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
p = o.period
o.m[:] = 1.0
check(close(o.period, p / 2**0.5), 'stale')
''')

B('c22_dtype', 'C22',
  'a rotation matrix in single precision about the z axis',
  'the requested data type is ignored',
  [(K, '''    R = np.zeros((3, 3), dtype=dtype)
    R[0, 0] = np.cos(theta)
    R[0, 1]''', '''    R = np.zeros((3, 3))
    R[0, 0] = np.cos(theta)
    R[0, 1]''')],
  '''
check(kp.rot_mat_z(0.3, dtype=np.float32).dtype == np.float32, 'dtype')
''')

B('c18_fortran', 'C18',
  'two-dimensional arrays, the mean anomaly in Fortran order',
  'the members of two-dimensional arrays are combined in memory order',
  [(K, '''        for it in range(out_it):
            Mc = next(Mit)
            ec = next(eit)
            Ec = next(Eit)

            if ec > 1:
                E0''', '''        for Mc, ec, Ec in zip(_M.ravel('K'), e.ravel('K'), Eit):
            if ec > 1:
                E0''')],
  '''
M = np.asfortranarray(np.arange(1, 7).reshape(2, 3) * 0.4)
e = np.arange(1, 7).reshape(2, 3) * 0.1
w = np.array([[kp.mean_to_eccentric(M[i, j], e[i, j]) for j in range(3)] for i in range(2)])
check(close(kp.mean_to_eccentric(M, e), w), 'order')
''')

B('c09_allocate_shrinks', 'C09',
  'an object is allocated again with fewer members and its anomalies are read',
  'the space for mean anomalies is only allocated again when it has to grow',
  [(O, "        self._mean_anomaly = np.full((num,), np.nan, dtype=self.dtype)\n        self.__cart", '''        if num > len(getattr(self, '_mean_anomaly', [])):
            self._mean_anomaly = np.full((num,), np.nan, dtype=self.dtype)
        self.__cart''')],
  MU + '''
o = orb(num=3, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.allocate(1)
check(o.mean_anomaly.shape == (1,) and np.isnan(o.mean_anomaly[0]), 'anomaly')
''')

B('c17_equi_options', 'C17',
  'equi_to_cart with solver options',
  'equi_to_cart ignores the solver options',
  [(K, '''        solver_options = solver_options,
        degrees = degrees,
    )
    return kep_to_cart''', '''        degrees = degrees,
    )
    return kep_to_cart''')],
  '''
q = np.array([1.0, 0.3, 0.4, 0.1, 0.2, 1.0])
a = kp.equi_to_cart(q, mu=1.0)
b = kp.equi_to_cart(q, mu=1.0, solver_options=dict(max_iter=0))
check(not close(a, b), 'ignored')
''')

B('c17_few_iterations', 'C17',
  'nearly parabolic ellipses close to periapsis',
  'the solver gives up after a few iterations by default',
  [(O, "            max_iter=5000,", "            max_iter=5,")],
  MU + '''
o = orb(type='mean', a=1.0, e=0.999999, i=0.0, omega=0.0, Omega=0.0, anom=1e-6)
E = o.eccentric_anomaly[0]
check(abs(E - 0.999999*np.sin(E) - 1e-6) < 1e-11, 'residual %g' % (E - 0.999999*np.sin(E) - 1e-6))
''')

B('c11_mu_at_creation', 'C11',
  'the gravitational constant or the central mass of an object is changed after its creation',
  'the central part of the gravitational parameter is computed once',
  [(O, "        self.M0 = M0\n", "        self.M0 = M0\n        self._mu0 = self.G*M0\n"),
   (O, '''            self._cart[:, do_inds],
            mu = self.G*(self.M0 + self.m[do_inds]),''', '''            self._cart[:, do_inds],
            mu = self._mu0 + self.G*self.m[do_inds],''')],
  MU + '''
o = orb(x=1.0, y=0.0, z=0.1, vx=0.1, vy=1.0, vz=0.0)
o.M0 = 2.0
o.calculate_kepler()
w = orb(M0=2.0, x=1.0, y=0.0, z=0.1, vx=0.1, vy=1.0, vz=0.0)
check(close(o.kepler, w.kepler), 'old mass')
''')
