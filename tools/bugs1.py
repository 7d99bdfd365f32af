O, K, U, C = 'pyorb/orbit.py', 'pyorb/kepler.py', 'pyorb/unit.py', 'pyorb/const.py'
BUGS = []


def B(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


MU = '''
def orb(**kw):
    kw.setdefault('G', 1.0)
    kw.setdefault('M0', 1.0)
    M0 = kw.pop('M0')
    return pyorb.Orbit(M0, **kw)
'''

B('c01_stale_true_anomaly', 'C01',
  'anomaly type eccentric or mean, and a second write to the Keplerian elements after a first conversion',
  'the true anomaly used for the Cartesian elements is cached from the first conversion',
  [(O, '            self.calc_true_anomaly(do_inds)\n            kep_tmp[5, :]',
    '            if np.any(np.isnan(self._true_anomaly[do_inds])):\n                self.calc_true_anomaly(do_inds)\n            kep_tmp[5, :]')],
  MU + '''
o = orb(type='mean', a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.anom = 2.5
ref = orb(type='mean', a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=2.5)
check(close(o.cartesian, ref.cartesian), 'cartesian does not follow a changed mean anomaly')
''')

B('c01_kepler_ecc_degrees', 'C01',
  'degrees=True, anomaly type eccentric and elements set from the Cartesian side',
  'the eccentric anomaly stored after a Cartesian to Kepler conversion ignores the angle unit',
  [(O, '''            self._kep[5, do_inds] = functions.true_to_eccentric(
                self._kep[5, do_inds],
                self.e[do_inds],
                degrees = self.degrees,
            )''', '''            self._kep[5, do_inds] = functions.true_to_eccentric(
                self._kep[5, do_inds],
                self.e[do_inds],
            )''')],
  MU + '''
ref = orb(degrees=True, a=2.0, e=0.3, i=20., omega=100., Omega=50., anom=70.)
o = orb(degrees=True, type='eccentric')
o.cartesian = ref.cartesian
check(close(o.true_anomaly, ref.anom, rtol=1e-5), 'true anomaly %r' % o.true_anomaly)
''')

B('c02_hyp_ecc_wrapped', 'C02',
  'anomaly type mean, hyperbolic orbit, eccentric anomaly set to an inbound (negative) or large value',
  'the stored mean anomaly is wrapped to one turn although the orbit is open',
  [(O, '''            self.anom = functions.eccentric_to_mean(
                value,
                self.e,
                degrees = self.degrees,
            )''', '''            self.anom = np.mod(functions.eccentric_to_mean(
                value,
                self.e,
                degrees = self.degrees,
            ), 360.0 if self.degrees else 2.0*np.pi)''')],
  MU + '''
o = orb(type='mean', a=2.0, e=1.5, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.eccentric_anomaly = -1.2
check(close(o.eccentric_anomaly, [-1.2]), 'eccentric anomaly %r' % o.eccentric_anomaly)
''')

B('c03_delete_flags', 'C03',
  'deferred conversion, pending Keplerian or Cartesian change, delete before the next read',
  'delete gives the pending markers of the Keplerian elements to the Cartesian ones, so pending changes are lost',
  [(O, '''        self.__cart_calculated = np.delete(
            self.__cart_calculated, inds, axis=0)''',
    '''        self.__cart_calculated = np.delete(
            self.__kep_calculated, inds, axis=0)''')],
  MU + '''
kw = dict(num=2, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
res = []
for direct in (True, False):
    o = orb(direct_update=direct, **kw)
    o.cartesian
    o.a = 5.0
    o.delete(0)
    res.append(o.cartesian)
check(close(*res), 'a pending change is lost by delete')
''')

B('c03_deferred_i', 'C03',
  'direct_update off and auto_update on, inclination set through its property',
  'a change of the inclination is not deferred but forgotten on the Cartesian side',
  [(O, '''        self._kep[2, :] = value

        if self.direct_update:
            self.calculate_cartesian()
        else:
            self.__cart_calculated[:] = False''',
    '''        self._kep[2, :] = value

        if self.direct_update:
            self.calculate_cartesian()
        else:
            self.__cart_calculated[:] = self.__cart_calculated & self.auto_update''')],
  MU + '''
kw = dict(a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
res = []
for direct in (True, False):
    o = orb(direct_update=direct, **kw)
    o.cartesian
    o.i = 1.2
    res.append(o.cartesian)
check(close(*res), 'deferred change of inclination lost')
''')

B('c04_propagate_eager', 'C04',
  'both update modes off and propagate',
  'propagate rewrites the Cartesian elements although conversions are manual',
  [(O, '''            self.e < 1, np.mod(mean_anomaly, wrap_), mean_anomaly)
        if self.direct_update:''',
    '''            self.e < 1, np.mod(mean_anomaly, wrap_), mean_anomaly)
        if self.direct_update or not self.auto_update:''')],
  MU + '''
o = orb(auto_update=False, direct_update=False, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.calculate_cartesian()
c = o.cartesian
o.propagate(1.0)
check(close(o.cartesian, c), 'manual mode: Cartesian elements changed by propagate')
''')

B('c05_update_mass_all', 'C05',
  'direct_update off, update of the mass of some members only',
  'update with a mass and a selection sets the mass of all members',
  [(O, '''            self.m[inds] = kwargs['m']

        if cart_updated:''', '''            self.m[...] = kwargs['m']

        if cart_updated:''')],
  MU + '''
o = orb(num=3, m=[0.1, 0.2, 0.3], direct_update=False, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.update(inds=[1], m=0.5, a=3.0)
check(close(o.m, [0.1, 0.5, 0.3]), 'masses %r' % o.m)
''')

B('c05_delete_masks', 'C05',
  'delete with a boolean mask or a negative index of members with different masses',
  'the masses that are removed are not those of the deleted members',
  [(O, '''        self.m = np.delete(self.m, inds, axis=0)''',
    '''        if isinstance(inds, slice):
            self.m = np.delete(self.m, inds, axis=0)
        else:
            keep = np.setdiff1d(np.arange(self.num), np.flatnonzero(inds)
                                if np.asarray(inds).dtype == bool else np.abs(inds))
            self.m = self.m[keep]''')],
  MU + '''
o = orb(num=4, m=[0.1, 0.2, 0.3, 0.4], a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.delete(-1)
check(close(o.m, [0.1, 0.2, 0.3]), 'masses %r' % o.m)
''')

B('c06_shared_solver_options', 'C06',
  'a copy or member, and a later change of the solver options of one of the two',
  'copies and members share the solver options with their origin',
  [(O, '''            solver_options = copy.deepcopy(self.solver_options),
            dtype = self.dtype,
            epoch = copy.deepcopy(self.epoch),
            type = self.type,
        )
''', '''            dtype = self.dtype,
            epoch = copy.deepcopy(self.epoch),
            type = self.type,
        )
        tmp_orb.solver_options = self.solver_options
''')],
  MU + '''
o = orb(num=2, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
c = o[0]
c.solver_options['tol'] = 0.5
check(o.solver_options['tol'] == 1e-12, 'solver options shared')
''')

B('c07_mass_before_check', 'C07',
  'update of a mass while direct_update is on (rejected) followed by a look at the masses',
  'the rejected update has already changed the masses',
  [(O, '''            if self.direct_update:
                raise ValueError('Cannot set "m" and direct update, \\
                    set "m" via property and manually call calculate.')
            self.m[inds] = kwargs['m']
''', '''            self.m[inds] = kwargs['m']
            if self.direct_update:
                raise ValueError('Cannot set "m" and direct update, \\
                    set "m" via property and manually call calculate.')
''')],
  MU + '''
o = orb(num=2, m=[0.1, 0.2], a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
try:
    o.update(m=0.7)
except ValueError:
    pass
check(close(o.m, [0.1, 0.2]), 'masses changed by a rejected update')
''')

B('c07_update_flag', 'C07',
  'read-only Cartesian elements and update(cartesian=...)',
  'update with a whole Cartesian state looks at the read-only flag of the Keplerian elements',
  [(O, '''        if 'cartesian' in kwargs:
            if self.cartesian_read_only:''', '''        if 'cartesian' in kwargs:
            if self.kepler_read_only:''')],
  MU + '''
o = orb(a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.cartesian_read_only = True
c = o.cartesian
try:
    o.update(cartesian=2*c)
    check(False, 'no AttributeError')
except AttributeError:
    pass
check(close(o.cartesian, c), 'state changed')
''')

B('c08_blanks', 'C08',
  'anomaly type given with surrounding blanks',
  'blanks around the anomaly type are not ignored',
  [(O, 'val = val.lower().strip()', 'val = val.lower()')],
  MU + '''
o = orb(a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
try:
    o.type = ' Mean '
except ValueError:
    check(False, 'blanks not ignored')
check(o.type == 'mean', o.type)
''')

B('c08_ecc_setter_degrees', 'C08',
  'degrees=True, type mean, eccentric anomaly set',
  'setting the eccentric anomaly of an orbit of type mean takes the value as radians',
  [(O, '''            self.anom = functions.eccentric_to_mean(
                value,
                self.e,
                degrees = self.degrees,
            )''', '''            self.anom = functions.eccentric_to_mean(value, self.e)''')],
  MU + '''
o = orb(degrees=True, type='mean', a=2.0, e=0.3, i=20., omega=10., Omega=50., anom=70.)
o.eccentric_anomaly = 40.0
check(close(o.eccentric_anomaly, [40.0]), 'eccentric anomaly %r' % o.eccentric_anomaly)
''')

B('c09_incomplete_blocks', 'C09',
  'an Orbit with complete and incomplete members',
  'one incompletely specified member keeps all others from being converted',
  [(O, '''            np.any(np.isnan(self._kep[:, inds]), axis=0))

        if np.sum(do_inds) == 0:
            return''', '''            np.any(np.isnan(self._kep[:, inds]), axis=0))

        if not np.all(do_inds[inds]):
            return''')],
  MU + '''
o = orb(num=2, direct_update=False)
o.update(inds=[0], a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.update(inds=[1], a=2.0, e=0.3)
c = o.cartesian
check(not np.any(np.isnan(c[:, 0])), 'complete member not converted')
''')

B('c09_invented_angles', 'C09',
  'a member with some but not all Cartesian elements',
  'partially specified Cartesian states are converted and zero angles are invented',
  [(O, 'np.any(np.isnan(self._cart[:, inds]), axis=0))', 'np.all(np.isnan(self._cart[:, inds]), axis=0))')],
  MU + '''
o = orb()
o.x = 1.0
o.y = 0.2
check(np.all(np.isnan(o.kepler)), 'elements invented: %r' % o.kepler)
''')

B('c10_wrap_degrees', 'C10',
  'degrees, anomaly type true, hyperbolic orbit whose mean anomaly is negative or above 360 degrees',
  'mean anomalies in degrees are reduced to one turn before the conversion, also for open orbits',
  [(K, '''    if degrees:
        _M = np.radians(M)
    else:
        _M = M

    E = mean_to_eccentric(''', '''    if degrees:
        _M = np.radians(np.mod(M, 360.0))
    else:
        _M = M

    E = mean_to_eccentric(''')],
  MU + '''
o = orb(degrees=True, a=2.0, e=1.5, i=20., omega=10., Omega=50., anom=20.)
r = orb(a=2.0, e=1.5, i=np.radians(20.), omega=np.radians(10.), Omega=np.radians(50.), anom=np.radians(20.))
o.propagate(-10.0)
r.propagate(-10.0)
check(close(o.cartesian, r.cartesian), 'propagation differs in degrees')
''')

B('c11_mass_of_first', 'C11',
  'members of different mass and conversion of a part of them which does not start at the first',
  'a selected member is converted with the mass of another one',
  [(O, '''            kep_tmp,
            mu=self.G*(self.M0 + self.m[do_inds]),''', '''            kep_tmp,
            mu=self.G*(self.M0 + self.m[:kep_tmp.shape[1]]),''')],
  MU + '''
o = orb(num=2, m=[0.1, 0.9], a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.update(inds=[1], a=3.0)
r = orb(m=0.9, a=3.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
check(close(o.cartesian[:, 1], r.cartesian[:, 0]), 'wrong mass')
''')

B('c11_period_mass', 'C11',
  'an orbit with its own mass and a period that is set',
  'setting the period ignores the mass of the members',
  [(O, '''            value,
            self.G*(self.M0 + self.m),
        )''', '''            value,
            self.G*self.M0,
        )''')],
  MU + '''
o = orb(num=2, m=[0.1, 0.9], a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.period = 10.0
check(close(o.period, [10.0, 10.0]), 'period %r' % o.period)
''')

B('c12_velocity_norm', 'C12',
  'velocity set on an Orbit with more than one member',
  'the velocities are scaled by the norm of all members together',
  [(O, 'self.v *= value/np.linalg.norm(self.v, axis=0)', 'self.v *= value/np.linalg.norm(self.v)')],
  MU + '''
o = orb(num=2, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=[0.7, 2.0])
o.velocity = 0.5
check(close(o.velocity, [0.5, 0.5]), 'velocity %r' % o.velocity)
''')

B('c12_mean_longitude', 'C12',
  'mean longitude with an anomaly type other than mean',
  'the mean longitude is built from whatever anomaly the orbit uses',
  [(O, 'return self.mean_anomaly + self.omega + self.Omega', 'return self.anom + self.omega + self.Omega')],
  MU + '''
o = orb(a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
check(close(o.mean_longitude, o.mean_anomaly + 1.5), 'mean longitude')
''')

B('c13_near_circular_mean', 'C13',
  'eccentricity between 1e-9 and 1e-3',
  'cart_to_equi uses the true longitude for nearly circular orbits',
  [(K, '''    eg = kep[K_e, ...] > e_lim  # elliptic
    kep[K_nu, eg] = true_to_mean(''', '''    eg = kep[K_e, ...] > 1e-3  # elliptic
    kep[K_nu, eg] = true_to_mean(''')],
  '''
kep = np.array([2.0, 5e-4, 0.4, 0.3, 1.0, 0.7])
cart = pyorb.kep_to_cart(kep, mu=1.0)
c = pyorb.equi_to_cart(pyorb.cart_to_equi(cart, mu=1.0), mu=1.0)
check(close(c, cart, rtol=1e-6, atol=1e-6), 'orbit moved')
''')

B('c15_near_circular', 'C15',
  'eccentricity between 1e-9 and 1e-6',
  'nearly circular orbits lose their periapsis: omega = 0 but the eccentricity is kept',
  [(K, '''    eg = o[1, :] > e_lim  # e grater''', '''    eg = o[1, :] > 1e3*e_lim  # e grater''')],
  '''
kep = np.array([2.0, 5e-7, 0.4, 2.0, 1.0, 0.7])
cart = pyorb.kep_to_cart(kep, mu=1.0)
c = pyorb.kep_to_cart(pyorb.cart_to_kep(cart, mu=1.0), mu=1.0)
check(close(c, cart, rtol=1e-8, atol=1e-8), 'round trip: %r' % (c - cart))
''')

B('c16_scalar_small_e', 'C16',
  'scalar call with an eccentricity below 1e-3 other than zero',
  'mean and eccentric anomaly are identified for nearly circular orbits in scalar calls',
  [(K, '''        if e == 0:
            return M''', '''        if e < 1e-3:
            return M''')],
  '''
E = pyorb.mean_to_eccentric(1.0, 5e-4)
check(abs(E - 5e-4*np.sin(E) - 1.0) < 1e-9, 'Kepler equation')
''')

B('c17_orbit_options', 'C17',
  'solver options of an Orbit of type mean',
  'the true anomaly of an Orbit is computed with the default solver options',
  [(O, '''            self._true_anomaly[inds] = functions.mean_to_true(
                self.anom[inds],
                self.e[inds],
                solver_options = self.solver_options,
                degrees = self.degrees,
            )''', '''            self._true_anomaly[inds] = functions.mean_to_true(
                self.anom[inds],
                self.e[inds],
                degrees = self.degrees,
            )''')],
  MU + '''
o = orb(type='mean', solver_options=dict(max_iter=0), a=2.0, e=0.5, i=0.2, omega=1.0, Omega=0.5, anom=2.5)
t = pyorb.mean_to_true(np.array([2.5]), np.array([0.5]), solver_options=dict(max_iter=0))
check(close(o.true_anomaly, t), 'max_iter of the orbit is not used')
''')

B('c17_array_hyp_options', 'C17',
  'arrays with hyperbolic orbits and solver options',
  'the solver options are ignored for hyperbolic members of arrays',
  [(K, '''                E0 = _get_hyperbolic_kepler_guess(Mc, ec)
                E_calc, it_num = laguerre_solve_kepler(
                    E0, Mc, ec, **solver_options)''', '''                E0 = _get_hyperbolic_kepler_guess(Mc, ec)
                E_calc, it_num = laguerre_solve_kepler(E0, Mc, ec)''')],
  '''
a = pyorb.mean_to_eccentric(np.array([2.5]), np.array([1.5]), solver_options=dict(max_iter=0))
s = pyorb.mean_to_eccentric(2.5, 1.5, solver_options=dict(max_iter=0))
check(close(a, [s]), 'max_iter is not used')
''')

B('c18_shape_by_size', 'C18',
  'two-dimensional arrays of the same size but different shapes',
  'conflicting shapes are not reported as TypeError',
  [(K, '''        if _E.shape != e.shape:
            raise TypeError('Input dimensions does not agree')

        nu =''', '''        if _E.size != e.size:
            raise TypeError('Input dimensions does not agree')

        nu =''')],
  '''
try:
    pyorb.eccentric_to_true(np.ones((2, 3)), np.full((3, 2), 0.5))
    check(False, 'accepted')
except TypeError:
    pass
except Exception as ex:
    check(False, repr(ex))
''')

B('c19_hyperbolic_radius', 'C19',
  'hyperbolic_radius (or the speed of a hyperbolic Orbit) in degrees',
  'hyperbolic_radius takes degrees as radians',
  [(K, '''        _nu = np.radians(nu)
    else:
        _nu = nu

    return a*(e**2''', '''        _nu = np.asarray(nu)
    else:
        _nu = nu

    return a*(e**2''')],
  '''
check(close(kp.hyperbolic_radius(40.0, 2.0, 1.5, degrees=True),
            kp.hyperbolic_radius(np.radians(40.0), 2.0, 1.5)), 'degrees differ')
''')

B('c20_integer_eccentricity', 'C20',
  'integer eccentricity array with a scalar anomaly',
  'a scalar anomaly is truncated to the integer type of the eccentricities',
  [(K, '''            _nu = np.ones(e.shape, dtype=e.dtype)*_nu''', '''            _nu = np.full(e.shape, _nu, dtype=e.dtype)''')],
  '''
a = pyorb.true_to_eccentric(0.7, np.array([0, 2]))
b = pyorb.true_to_eccentric(0.7, np.array([0., 2.]))
check(close(a, b), 'integers differ')
''')

B('c20_radians_in_place', 'C20',
  'true_to_mean in degrees with a float array',
  'the angles passed to true_to_mean are converted in place',
  [(K, '''        _nu = np.radians(nu)
    else:
        _nu = nu

    E = true_to_eccentric(''', '''        _nu = np.radians(nu, out=nu) if isinstance(nu, np.ndarray) and nu.dtype == np.float64 \\
            and nu.flags.writeable else np.radians(nu)
    else:
        _nu = nu

    E = true_to_eccentric(''')],
  '''
nu = np.array([30.0, 70.0])
pyorb.true_to_mean(nu, np.array([0.1, 0.2]), degrees=True)
check(close(nu, [30.0, 70.0]), 'argument modified')
''')

B('c21_circular_limit', 'C21',
  'two orbits of equal small eccentricity above e_lim with different omega but equal sum of omega and nu',
  'different orbits of small eccentricity are called equivalent',
  [(K, 'if kep1[K_e] < e_lim and kep2[K_e] < e_lim:', 'if kep1[K_e] < 1e-3 and kep2[K_e] < 1e-3:')],
  '''
k1 = np.array([2.0, 9e-4, 0.4, 0.0, 1.0, 2.0])
k2 = np.array([2.0, 9e-4, 0.4, 2.0, 1.0, 0.0])
check(not kp.kep_equivalent(k1, k2), 'different states called equivalent')
''')

B('c22_euler_integer', 'C22',
  'integer array of nodes with scalar inclination and argument of periapsis, in degrees',
  'the matrix takes the type of the node array and is truncated',
  [(K, 'R = np.empty((3, 3, Omega.size), dtype=np.float64)', 'R = np.empty((3, 3, Omega.size), dtype=Omega.dtype)')],
  '''
R = kp.euler_rotation_matrix(30.0, 40.0, np.array([50, 60]), degrees=True)
S = kp.euler_rotation_matrix(30.0, 40.0, 60.0, degrees=True)
check(close(R[:, :, 1], S), 'matrix truncated')
''')

B('c23_c3_negative', 'C23',
  'stumpff3 of a negative argument',
  'stumpff3 has the wrong sign for negative arguments',
  [(K, '''    xsq = np.sqrt(-x[inds])
    c3[inds] = (xsq - np.sinh(xsq))/(xsq*x[inds])''', '''    xsq = np.sqrt(-x[inds])
    c3[inds] = (xsq - np.sinh(xsq))/xsq**3''')],
  '''
x = -2.0
check(close(x*kp.stumpff3(x), 1 - kp.stumpff1(x)), 'recurrence')
''')

B('c23_c1_small', 'C23',
  'stumpff1 of an array with negative and positive arguments of which some are small',
  'stumpff1 evaluates arguments below 1e-2 as zero',
  [(K, 'c1[x == 0] = 1', 'c1[np.abs(x) < 1e-2] = 1'),
   (K, '''    inds = x < 0
    c1[inds]''', '''    inds = x <= -1e-2
    c1[inds]''')],
  '''
x = np.array([-9e-3, 3.0])
check(close(kp.stumpff1(x)[0], 1 + 9e-3/6 + 81e-6/120), 'value')
''')

B('c24_dash', 'C24',
  'a mass unit written with a dash',
  'dashes in mass units are not accepted',
  [(U, ".replace(' ', '').replace('-', '')", ".replace(' ', '')")],
  '''
try:
    g = pyorb.get_G(length='m', mass='M-sol', time='s')
except TypeError:
    check(False, 'M-sol not accepted')
''')

B('c24_absolute_speed', 'C24',
  'units in which the speeds are tiny numbers and a body on the inbound leg',
  'a noise limit in absolute speed decides about inbound and outbound',
  [(K, 'tmp_ind_ = np.logical_and(vr < 0.0, eg)', 'tmp_ind_ = np.logical_and(vr < -1e-12, eg)')],
  '''
kep = np.array([2.0, 0.3, 0.4, 2.0, 1.0, 5.0])
L, T = 1e-10, 1e5
mu = L**3/T**2
ks = kep.copy()
ks[0] *= L
back = pyorb.cart_to_kep(pyorb.kep_to_cart(ks, mu=mu), mu=mu)
check(close(back[5], 5.0), 'anomaly depends on the unit: %r' % back[5])
''')

B('c25_keyword_in_place', 'C25',
  'a declared keyword angle passed as a float array in degrees',
  'keyword arrays of the caller are converted in place',
  [(U, 'kwargs[key] = np.radians(kwargs[key])', "kwargs[key] = np.multiply(kwargs[key], np.pi/180, out=kwargs[key]) \\\n                            if isinstance(kwargs[key], np.ndarray) and kwargs[key].dtype == float else np.radians(kwargs[key])")],
  '''
from pyorb.unit import angle_units


@angle_units(in_arg_inds=None, in_arg_keys=['x'], out_arg_inds=None)
def f(x=None):
    return x


a = np.array([90.0, 45.0])
f(x=a, degrees=True)
check(close(a, [90.0, 45.0]), "the caller's array changed")
''')

B('c25_default_wins', 'C25',
  'decorated with degrees=True by default and called with degrees=False',
  'degrees=False in the call does not override the default',
  [(U, "if not kwargs.pop('degrees', degrees):", "if not (kwargs.pop('degrees', False) or degrees):")],
  '''
from pyorb.unit import angle_units


@angle_units(in_arg_inds=[0], in_arg_keys=None, out_arg_inds=None, degrees=True)
def f(x):
    return x


check(f(1.0, degrees=False) == 1.0, 'degrees=False ignored')
''')

B('c26_close_rebind', 'C26',
  'rebinding a small constant to a different small value',
  'rebinding to a value closer than 1e-9 is accepted silently',
  [(C, '''            if self.__dict__[name] == value:''', '''            if self.__dict__[name] == value or (
                    isinstance(value, float) and numpy.isclose(self.__dict__[name], value)):''')],
  '''
from pyorb import const
try:
    const.G = 1.0e-11
    check(False, 'no ConstError')
except const.ConstError:
    pass
check(const.G == 6.6743e-11, 'value')
''')

B('c26_delete_unknown', 'C26',
  'deleting a name that was never defined',
  'deleting an unknown name raises ConstError instead of NameError',
  [(C, '''        raise NameError(name)''', '''        raise self.ConstError("No const({})".format(name))''')],
  '''
from pyorb import const
try:
    del const.nothing_here
    check(False, 'no error')
except NameError:
    pass
except Exception as ex:
    check(False, repr(ex))
''')

B('c04_calc_only_stale', 'C04',
  'both update modes off, calculate_cartesian called a second time after the Keplerian elements changed through update',
  'update in manual mode keeps the marker of the Keplerian elements, and explicit calculation skips marked members',
  [(O, '''        do_inds[inds] = np.logical_not(
            np.any(np.isnan(self._kep[:, inds]), axis=0))''',
    '''        do_inds[inds] = np.logical_not(
            np.any(np.isnan(self._kep[:, inds]), axis=0)
            | (self.__cart_calculated[inds] & ~self.__kep_calculated[inds]))''')],
  MU + '''
o = orb(auto_update=False, direct_update=False, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.calculate_cartesian()
c = o.cartesian
o.update(x=5.0)
o.calculate_cartesian()
check(close(o.cartesian, c), 'the explicit calculation did nothing')
''')

B('c06_kep_view', 'C06',
  'a copy or slice of members and a later in-place change of one of the two',
  'copies made with a slice share their Keplerian elements with the origin',
  [(O, 'tmp_orb._kep = self._kep[:, inds].copy()', 'tmp_orb._kep = self._kep[:, inds]')],
  MU + '''
o = orb(num=2, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
c = o.copy()
c.a = 9.0
check(close(o.a, [2.0, 2.0]), 'a %r' % o.a)
''')

B('c06_cached_alias', 'C06',
  'anomaly type mean or true, an array read from eccentric_anomaly kept while the orbit changes and is read again',
  'eccentric_anomaly returns the internal array, which later reads overwrite',
  [(O, 'return self._eccentric_anomaly.copy()', 'return self._eccentric_anomaly')],
  MU + '''
o = orb(num=2, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
M = o.eccentric_anomaly
keep = M.copy()
o.anom = 2.0
o.eccentric_anomaly
check(close(M, keep), 'a returned array changed')
''')

B('c13_half_turn', 'C13',
  'inclinations above 90 degrees',
  'the inclination of equinoctial elements is folded into the first quadrant',
  [(K, "kep[K_i, ...] = 2 * hi", "kep[K_i, ...] = np.minimum(2 * hi, np.pi - 2 * hi)")],
  '''
kep = np.array([2.0, 0.3, 2.4, 0.6, 1.0, 0.7])
c = pyorb.equi_to_cart(pyorb.kep_to_equi(kep), mu=1.0)
r = kep.copy()
r[5] = pyorb.mean_to_true(0.7, 0.3)
check(close(c, pyorb.kep_to_cart(r, mu=1.0)), 'retrograde orbit moved')
''')

B('c13_circular_degrees', 'C13',
  'circular inclined orbits in degrees given as equinoctial elements',
  'the longitude of circular orbits is not referred to the node',
  [(K, "    kep[K_om, el] = 0  # omega", "    kep[K_om, el] = 0 if not degrees else om_bar[el]  # omega")],
  '''
eq = np.array([2.0, 0.0, -0.0, 0.2, 0.1, 100.0])
d = pyorb.equi_to_kep(eq, degrees=True)
eq[5] = np.radians(100.0)
r = pyorb.equi_to_kep(eq)
check(close(d[3], r[3]), 'omega %r' % d)
''')

B('c14_mu_of_parabola', 'C14',
  'an array with a parabola after other orbits, with different gravitational parameters',
  'parabolas use the gravitational parameter of the first orbits',
  [(K, 'h[per] = parabolic_total_angular_momentum(a[per], mu[per])',
    'h[per] = parabolic_total_angular_momentum(a[per], mu[:np.sum(per)])')],
  '''
kep = np.array([[2.0, 0.3, 0.2, 0.6, 1.0, 0.7], [2.0, 1.0, 0.2, 0.6, 1.0, 0.7]]).T
c = pyorb.kep_to_cart(kep, mu=np.array([1.0, 3.0]))
r = pyorb.kep_to_cart(kep[:, 1], mu=3.0)
check(close(c[:, 1], r), 'parabola with the wrong mu')
''')

B('c15_hyperbolic_far', 'C15',
  'hyperbolic orbit with eccentricity above ten',
  'strongly hyperbolic orbits get a negative semi-major axis',
  [(K, "    o[0, e_hyp] = -o[0, e_hyp]", "    o[0, e_hyp & (o[1, :] < 10)] *= -1")],
  '''
kep = np.array([2.0, 12.0, 0.4, 0.5, 1.0, 0.3])
cart = pyorb.kep_to_cart(kep, mu=1.0)
check(close(pyorb.cart_to_kep(cart, mu=1.0)[0], 2.0), 'a')
''')

B('c16_scalar_barker', 'C16',
  'scalar call of eccentric_to_mean for a parabola',
  'the scalar Barker equation has a wrong coefficient',
  [(K, "            M = _E + _E**3/3.0", "            M = _E + _E**3/6.0")],
  '''
check(close(pyorb.eccentric_to_mean(0.9, 1.0), pyorb.eccentric_to_mean(np.array([0.9]), 1.0)[0]), 'Barker')
''')

B('c16_scalar_inbound', 'C16',
  'scalar hyperbolic inbound anomaly',
  'the scalar hyperbolic equation loses the sign of large inbound anomalies',
  [(K, "            M = e*np.sinh(_E) - _E", "            M = e*np.sinh(_E) - np.abs(_E)")],
  '''
check(close(pyorb.eccentric_to_mean(-0.9, 1.5), -pyorb.eccentric_to_mean(0.9, 1.5)), 'odd')
''')

B('c18_elliptic_mixture', 'C18',
  'array of true anomalies with elliptic orbits and a parabola',
  'one parabola in an array of anomalies makes the elliptic ones inaccurate',
  [(K, "        M[eli] = _E[eli] - e[eli]*np.sin(_E[eli])", "        M[eli] = _E[eli] - np.sort(e[eli])*np.sin(_E[eli])")],
  '''
E = np.array([0.3, 0.4, 0.5])
e = np.array([0.6, 0.2, 0.1])
a = pyorb.eccentric_to_mean(E, e)
s = [pyorb.eccentric_to_mean(float(x), float(y)) for x, y in zip(E, e)]
check(close(a, s), 'order matters')
''')

B('c19_equi_setter', 'C19',
  'equi_to_kep in degrees with an inclined orbit',
  'the node of equinoctial elements in degrees is wrapped at 180 degrees',
  [(K, "        kep[K_OM, ...] = np.degrees(kep[K_OM, ...])", "        kep[K_OM, ...] = np.degrees(np.abs(kep[K_OM, ...]))")],
  '''
eq = np.array([2.0, 0.1, 0.2, -0.2, 0.1, 100.0])
d = pyorb.equi_to_kep(eq, degrees=True)
eq[5] = np.radians(100.0)
r = pyorb.equi_to_kep(eq)
check(close(d[4], np.degrees(r[4])), 'Omega %r' % d)
''')

B('c20_true_anomaly_dtype', 'C20',
  'a float32 Orbit with anomaly type eccentric or mean after add',
  'the masses of a float32 Orbit become float64 after add',
  [(O, "            np.full((num,), 0, dtype=self.dtype),", "            np.zeros((num,)),")],
  MU + '''
o = orb(dtype=np.float32, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.add(1, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
check(o.m.dtype == np.float32, 'dtype %r' % o.m.dtype)
''')

B('c22_array_order', 'C22',
  'array of inclinations with scalar other angles',
  'euler_rotation_matrix: the third column uses the rotation about the wrong angle for arrays of nodes',
  [(K, "    R[1, 2, ...] = -c1*s2", "    R[1, 2, ...] = -np.sqrt(1 - s1**2)*s2")],
  '''
R = kp.euler_rotation_matrix(0.5, 1.0, 2.5)
check(close(R @ R.T, np.eye(3)), 'not orthonormal')
''')
