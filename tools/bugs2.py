O, K, U, C = 'pyorb/orbit.py', 'pyorb/kepler.py', 'pyorb/unit.py', 'pyorb/const.py'
BUGS = []


def B(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


MU = '''
def orb(**kw):
    kw.setdefault('G', 1.0)
    kw.setdefault('M0', 1.0)
    M0 = kw.pop('M0')
    return pyorb.Orbit(M0, **kw)
'''

B('c02_period_keeps_pending', 'C02',
  'deferred conversion, Cartesian change pending, then the period is set',
  'a is set before the pending conversion, so elements that were not written move',
  [(O, '''        self.a = functions.semi_major_axis(
            value,
            self.G*(self.M0 + self.m),
        )
        if self.direct_update:
            self.calculate_cartesian()
        else:
            self.__cart_calculated[:] = False

    @property
    def velocity''', '''        self._kep[0, :] = functions.semi_major_axis(
            value,
            self.G*(self.M0 + self.m),
        )
        if self.direct_update:
            self.calculate_cartesian()
        else:
            self.__kep_calculated[:] = True
            self.__cart_calculated[:] = False

    @property
    def velocity''')],
  MU + '''
kw = dict(direct_update=False, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o = orb(**kw)
c = o.cartesian
c[:3] *= 1.1
o.cartesian = c
want = o.copy().kepler
o.period = 20.0
check(close(o.e, want[1]), 'e moved')
''')

B('c02_velocity_rounded', 'C02',
  'Cartesian states given as cartesian= whose velocities are tiny numbers',
  'velocities are rounded to 12 decimals when a whole state is given',
  [(O, '''            self._cart[:, inds] = self._state_columns(kwargs['cartesian'], inds)
            self.__cart_calculated[inds] = True
            self.__kep_calculated[inds] = False
            if self.direct_update:''', '''            self._cart[:, inds] = self._state_columns(kwargs['cartesian'], inds)
            self._cart[3:, inds] = np.round(self._cart[3:, inds], 12)
            self.__cart_calculated[inds] = True
            self.__kep_calculated[inds] = False
            if self.direct_update is True:''')],
  MU + '''
o = orb(cartesian=np.array([1.0, 0, 0, 1e-9/3, 1.0, 0.1]), kepler_read_only=False)
check(o.vx[0] == 1e-9/3, 'vx %r' % o.vx)
''')

B('c02_anom_wrapped', 'C02',
  'an anomaly of more than one turn is written',
  'the stored anomaly is reduced to one turn',
  [(O, '''        self._kep[5, :] = value

        if self.direct_update:
            self.calculate_cartesian()
        else:''', '''        self._kep[5, :] = np.fmod(value, 360.0 if self.degrees else 4*np.pi)

        if self.direct_update:
            self.calculate_cartesian()
        else:''')],
  MU + '''
o = orb(type='mean', a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.anom = 30.0
check(o.anom[0] == 30.0, 'anom %r' % o.anom)
''')

B('c09_add_zeros', 'C09',
  'add members with incompletely specified Keplerian elements',
  'Cartesian elements of added members read as zero instead of NaN until they are converted',
  [(O, '''            np.full((6, num), np.nan, dtype=self.dtype),
            axis=1,
        )
        self._kep = np.append(''', '''            np.zeros((6, num), dtype=self.dtype),
            axis=1,
        )
        self._kep = np.append(''')],
  MU + '''
o = orb(num=1, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.add(1, a=3.0)
check(np.all(np.isnan(o.cartesian[:, 1])), 'cartesian %r' % o.cartesian[:, 1])
''')

B('c09_mean_any', 'C09',
  'a member without anomaly next to complete ones, anomaly type mean, read of the true anomaly',
  'a missing mean anomaly is read as periapsis passage',
  [(O, '''            self._true_anomaly[inds] = functions.mean_to_true(
                self.anom[inds],
                self.e[inds],''', '''            self._true_anomaly[inds] = functions.mean_to_true(
                np.nan_to_num(self.anom[inds]),
                self.e[inds],''')],
  MU + '''
o = orb(type='mean', num=2, a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=np.array([0.7, np.nan]))
check(np.isnan(o.true_anomaly[1]), 'invented %r' % o.true_anomaly)
''')

B('c09_position_only', 'C09',
  'Keplerian elements with missing anomaly only',
  'Keplerian elements without anomaly are converted, and the Cartesian side is marked done',
  [(O, '''            np.any(np.isnan(self._kep[:, inds]), axis=0))''', '''            np.any(np.isnan(self._kep[:5, inds]), axis=0))''')],
  MU + '''
o = orb(direct_update=False, a=2.0, e=0.0, i=0.2, omega=1.0, Omega=0.5)
o.cartesian
k = o.kepler
check(close(k[:5, 0], [2.0, 0.0, 0.2, 1.0, 0.5]), 'kepler %r' % k)
o = orb(a=2.0, e=0.1, i=0.2, omega=1.0, Omega=0.5)
o.x = 1.0
o.kepler
c = o.cartesian
check(c[0, 0] == 1.0 and np.all(np.isnan(c[1:, 0])), 'cartesian %r' % c)
o = orb(direct_update=False, a=2.0, e=0.1, i=0.2, omega=1.0, Omega=0.5)
o.y = 1.0
check(close(o.cartesian[1], [1.0]), 'y lost')
''')

B('c10_single_precision_dt', 'C10',
  'propagation times that are not representable in single precision, over many turns',
  'dt is stored in single precision',
  [(O, "        mean_anomaly = self.mean_anomaly + self.mean_motion*dt", "        mean_anomaly = self.mean_anomaly + self.mean_motion*np.asarray(dt, dtype=np.float32)")],
  MU + '''
o = orb(type='mean', a=1.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.propagate(1000.1)
check(close(o.anom, np.mod(0.7 + 1000.1, 2*np.pi), rtol=1e-7), 'anom %r' % o.anom)
''')

B('c10_backwards_hyperbola', 'C10',
  'propagation backwards in time',
  'fractional turns are discarded for dt < 0 longer than a turn',
  [(O, "        mean_anomaly = self.mean_anomaly + self.mean_motion*dt", "        mean_anomaly = self.mean_anomaly + np.where(np.less(dt, 0) & (self.e > 1.5), -1, 1)*self.mean_motion*np.abs(dt)*np.where(np.less(dt, 0) & (self.e <= 1.5), -1, 1)*np.where(np.less(dt, -50), np.floor(1.0), 1.0)*np.where(np.less(dt, -200) & (self.e > 1), 0.5, 1.0)")],
  MU + '''
o = orb(type='mean', a=1.0, e=1.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o.propagate(-300.0)
check(close(o.anom, [0.7 - 300.0]), 'anom %r' % o.anom)
''')

B('c10_eccentric_open', 'C10',
  'open orbit with anomaly type eccentric, inbound or beyond one turn',
  'the mean anomaly is reduced to one turn when it is converted to an eccentric anomaly',
  [(O, '''            self.anom = functions.mean_to_eccentric(
                value,
                self.e,
                solver_options = self.solver_options,
                degrees = self.degrees,
            )''', '''            self.anom = functions.mean_to_eccentric(
                np.asarray(value) % (360.0 if self.degrees else 2*np.pi),
                self.e,
                solver_options = self.solver_options,
                degrees = self.degrees,
            )''')],
  MU + '''
o = orb(type='eccentric', a=1.0, e=1.3, i=0.2, omega=1.0, Omega=0.5, anom=-0.7)
M = o.mean_anomaly
o.propagate(0.1)
check(close(o.mean_anomaly, M + 0.1), 'mean anomaly %r' % o.mean_anomaly)
''')

B('c14_retrograde', 'C14',
  'a very small (or negative) inclination',
  'the sine of the inclination is computed from the cosine, which loses small inclinations',
  [(K, "    s2 = np.sin(_inc)", "    s2 = np.sqrt(np.maximum(0, 1 - c2**2))")],
  '''
R = kp.kep_to_cart(np.array([2.0, 0.3, -0.5, 1.0, 0.5, 0.7]), mu=1.0)
Q = kp.kep_to_cart(np.array([2.0, 0.3, 0.5, 1.0 + np.pi, 0.5 - np.pi, 0.7]), mu=1.0)
check(close(R, Q), 'inclination -0.5 %r %r' % (R, Q))
R = kp.kep_to_cart(np.array([2.0, 0.3, 1e-9, 1.0, 0.5, 0.7]), mu=1.0)
check(abs(R[2] - np.hypot(R[0], R[1])*1e-9*np.sin(1.7)) < 1e-13, 'z %r' % R)
''')

B('c14_apsis_velocity', 'C14',
  'true anomaly close to 0 or 180 degrees',
  'the radial velocity next to the apsides is zero',
  [(K, "    vx = -vn*np.sin(nu)", "    vx = -vn*np.where(np.abs(np.sin(nu)) < 1e-6, 0.0, np.sin(nu))")],
  '''
c = kp.kep_to_cart(np.array([2.0, 0.3, 0.0, 0.0, 0.0, 5e-7]), mu=1.0)
check(close(c[3], -np.sqrt(1/(2.0*(1 - 0.09)))*5e-7, rtol=1e-6, atol=0), 'vx %r' % c)
''')

B('c14_mu_of_first', 'C14',
  'orbits with different mu, eccentricity above two',
  'the gravitational parameter of hyperbolas is that of the first orbit',
  [(K, "    h[nper] = orbit_total_angular_momentum(a[nper], e[nper], mu[nper])",
    "    h[nper] = orbit_total_angular_momentum(a[nper], e[nper], np.where(e[nper] > 2, mu[0] if mu.size else 1.0, mu[nper]))")],
  '''
k = np.array([[2.0, 0.3, 0.1, 0.2, 0.3, 0.4], [2.0, 2.3, 0.1, 0.2, 0.3, 0.4]]).T
c = kp.kep_to_cart(k, mu=np.array([1.0, 3.0]))
d = kp.kep_to_cart(k[:, 1], mu=3.0)
check(close(c[:, 1], d), '%r %r' % (c[:, 1], d))
''')

B('c15_noise_clamp', 'C15',
  'a state at a periapsis or apoapsis where rounding makes the cosine exceed one',
  'rounding noise makes the true anomaly NaN',
  [(K, "    cos_nu[cos_nu > 1.0] = 1.0\n    cos_nu[cos_nu < -1.0] = -1.0", "    cos_nu[cos_nu > 1.0 + 1e-15] = 1.0\n    cos_nu[cos_nu < -1.0] = -1.0")],
  '''
rng = np.random.default_rng(1)
k = np.empty((6, 20000))
k[0], k[1] = rng.uniform(0.5, 2, 20000), rng.uniform(0.1, 0.9, 20000)
k[2], k[3], k[4], k[5] = rng.uniform(0.1, 3, 20000), rng.uniform(0, 6, 20000), rng.uniform(0, 6, 20000), 0.0
check(not np.any(np.isnan(kp.cart_to_kep(kp.kep_to_cart(k, mu=1.0), mu=1.0))), 'NaN')
''')

B('c15_planar_tolerance', 'C15',
  'retrograde planar orbit that is circular',
  'planar circular orbits that are retrograde use the prograde sense',
  [(K, "    tmp_ind2_ = np.logical_and(tmp_ind_, r[1, :] >= 0.0)", "    tmp_ind2_ = np.logical_and(tmp_ind_, r[0, :] >= 0.0)")],
  '''
k = np.array([2.0, 0.0, np.pi, 0.0, 0.0, 2.5])
c = kp.kep_to_cart(k, mu=1.0)
check(close(kp.kep_to_cart(kp.cart_to_kep(c, mu=1.0), mu=1.0), c), 'round trip')
''')

B('c15_periapsis_below', 'C15',
  'periapsis barely below the reference plane (small inclination or omega just below a turn)',
  'omega is reflected for periapses just below the reference plane',
  [(K, "    ez_neg = np.logical_and(e[2, :] < 0.0, eg_ig)", "    ez_neg = np.logical_and(e[2, :] < -1e-6, eg_ig)")],
  '''
k = np.array([2.0, 0.3, 1e-6, 5.0, 1.0, 2.5])
c = kp.kep_to_cart(k, mu=1.0)
check(close(kp.cart_to_kep(c, mu=1.0), k, rtol=1e-5), 'omega %r' % kp.cart_to_kep(c, mu=1.0))
''')

B('c21_planar_pair', 'C21',
  'two planar elliptic orbits with the same sum of omega and Omega',
  'circular planar pairs ignore the anomaly',
  [(K, "    if not np.isclose(kep1[K_e], kep2[K_e]):", "    if not np.isclose(kep1[K_e], kep2[K_e], atol=0.0) and abs(kep1[K_e] - kep2[K_e]) > 1e-3:")],
  '''
a = np.array([2.0, 0.3, 0.2, 1.0, 0.5, 0.7])
b = a.copy()
b[1] += 5e-4
check(not pyorb.kep_equivalent(a, b), 'different eccentricities')
''')

B('c21_inclination', 'C21',
  'two orbits of different inclination close to each other',
  'inclinations are compared as their cosines',
  [(K, "    if not np.isclose(kep1[K_i], kep2[K_i]):", "    if not np.isclose(np.cos(kep1[K_i]), np.cos(kep2[K_i])):")],
  '''
a = np.array([2.0, 0.3, 2e-3, 1.0, 0.5, 0.7])
b = a.copy()
b[2] = 1e-9
check(not pyorb.kep_equivalent(a, b), 'different inclinations')
''')

B('c21_sum_wrap', 'C21',
  'circular orbits with omega + nu differing by whole turns',
  'the sum of angles of circular orbits is not compared modulo a turn',
  [(K, "        if not same_angle(om1 + kep1[K_nu], om2 + kep2[K_nu]):", "        if not same_angle(np.mod(om1, _2pi) + np.mod(kep1[K_nu], 6.283), np.mod(om2, _2pi) + np.mod(kep2[K_nu], 6.283)):")],
  '''
a = np.array([2.0, 0.0, 0.2, 1.0, 0.5, 7.0])
b = np.array([2.0, 0.0, 0.2, 8.0, 0.5, 0.0])
check(pyorb.kep_equivalent(a, b), 'same circular orbit')
''')

B('c27_no_pending', 'C27',
  'deferred conversion and a change of a Cartesian element before printing',
  'the printed Keplerian elements are stale',
  [(O, '''            self._kep_check()
            self._cart_check()
            str_''', '''            self._cart_check()
            str_''')],
  MU + '''
kw = dict(a=2.0, e=0.3, i=0.2, omega=1.0, Omega=0.5, anom=0.7)
o = orb(direct_update=False, **kw)
o.cartesian
o.x = 3.0
p = orb(**kw)
p.x = 3.0
check(str(o) == str(p), str(o))
''')

B('c27_missing_as_zero', 'C27',
  'incompletely specified orbit',
  'missing elements are printed as zero',
  [(O, "                    self._cart[:, 0], Orbit.CARTESIAN", "                    np.nan_to_num(self._cart[:, 0]), Orbit.CARTESIAN")],
  MU + '''
check('nan' in str(orb(a=2.0)).split('\\n')[0].split()[-1], str(orb(a=2.0)))
''')

B('c27_small_as_zero', 'C27',
  'negative Cartesian values of small magnitude',
  'components much smaller than the first are printed as zero',
  [(O, "                    self._cart[:, 0], Orbit.CARTESIAN", "                    np.where(np.abs(self._cart[:, 0]) < 1e-8, 0.0, self._cart[:, 0]), Orbit.CARTESIAN")],
  MU + '''
check('e-09' in str(orb(x=1e-9)), str(orb(x=1e-9)))
''')

B('c25_output_in_place', 'C25',
  'the wrapped function returns an array that it keeps',
  'declared outputs are converted in place',
  [(U, "                        ret[ind] = np.degrees(ret[ind])", "                        ret[ind] = np.degrees(ret[ind], out=ret[ind] if isinstance(ret[ind], np.ndarray) and ret[ind].dtype.kind == 'f' else None)")],
  '''
from pyorb.unit import angle_units
keep = np.array([1.0, 2.0])
f = angle_units([0], None, [0], degrees=True)(lambda x: (keep, x))
f(1.0)
check(close(keep, [1.0, 2.0]), 'changed %r' % keep)
''')

B('c25_last_positional', 'C25',
  'a negative or last declared positional index',
  'an integer array argument is converted in integer arithmetic',
  [(U, "                        args[ind] = np.radians(args[ind])", "                        args[ind] = np.radians(args[ind]) if not isinstance(args[ind], int) or args[ind] % 360 else 0*args[ind]")],
  '''
from pyorb.unit import angle_units
f = angle_units([0], None, None, degrees=True)(lambda x: x)
check(close(f(360), 2*np.pi), '%r' % f(360))
''')

B('c26_private', 'C26',
  'a constant whose name starts with an underscore is rebound',
  'names with an underscore can be rebound',
  [(C, "        if name in self.__dict__:\n            if self", "        if name in self.__dict__ and not name.startswith('_'):\n            if self")],
  '''
import pyorb.const as c
try:
    c._2pi = 3.0
    check(False, 'rebound')
except TypeError:
    pass
''')

B('c26_type_equal', 'C26',
  'rebinding to a value of another type with the same printed form',
  'values are compared by their printed form',
  [(C, "            if self.__dict__[name] == value:", "            if '%g' % self.__dict__[name] == '%g' % value if isinstance(value, (int, float)) and isinstance(self.__dict__[name], (int, float)) else self.__dict__[name] == value:")],
  '''
import pyorb.const as c
try:
    c.c = 299792460.0
    check(False, 'accepted silently')
except TypeError:
    pass
''')
