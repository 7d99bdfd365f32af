import runpy
import os
_b2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py'))
O, K, U, C = 'pyorb/orbit.py', 'pyorb/kepler.py', 'pyorb/unit.py', 'pyorb/const.py'
MU = _b2['MU']
BUGS = []


def B(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


B('c18_blocks_degrees', 'C18', 'more than 65535 states at once, in degrees', 'angles are taken as radians',
  [(K, '''    if degrees:
        kep[2:, :] = np.radians(kep[2:, :])

    nu = kep[5, :]''', '''    if degrees:
        # in blocks, to save memory
        for n in range(0, kep.shape[1], 65536):
            kep[2:, n:n + 65535] = np.radians(kep[2:, n:n + 65535])

    nu = kep[5, :]''')],
  '''
n = 66000
k = np.array([[1.0], [.1], [30], [40], [50], [60]])
x = kp.kep_to_cart(np.tile(k, n), mu=1.0, degrees=True)
check(close(x[:, 65535], kp.kep_to_cart(k, mu=1.0, degrees=True)[:, 0]), x[:, 65535])
''')
B('c18_solver_patience', 'C18', 'arrays of more than 16384 anomalies', 'orbits of high eccentricity are solved less accurately',
  [(K, '''            else:
                E0 = _get_kepler_guess(Mc, ec)
                E_calc, it_num = laguerre_solve_kepler(
                    E0, Mc, ec, **solver_options)

            Ec''', '''            else:
                E0 = _get_kepler_guess(Mc, ec)
                if it < 16384:
                    E_calc, it_num = laguerre_solve_kepler(
                        E0, Mc, ec, **solver_options)
                else:
                    # keep large sets affordable
                    E_calc, it_num = laguerre_solve_kepler(
                        E0, Mc, ec, **dict(solver_options, tol=1e-4))

            Ec''')],
  '''
M = np.full(17000, 1.3)
e = np.full(17000, 0.97)
E = kp.mean_to_eccentric(M, e)
check(np.all(E == E[0]), (E[0], E[-1]))
''')
B('c11_block_mass', 'C11', 'an Orbit of more than 4096 members with different masses', 'later blocks use the masses of the first one',
  [(O, '''        self._cart[:, do_inds] = functions.kep_to_cart(
            kep_tmp,
            mu=self.G*(self.M0 + self.m[do_inds]),
            degrees=self.degrees,
        )
''', '''        mu = self.G*(self.M0 + self.m[do_inds])
        cart_tmp = np.empty_like(kep_tmp)
        for n in range(0, kep_tmp.shape[1], 4096):
            part = kep_tmp[:, n:n + 4096]
            cart_tmp[:, n:n + 4096] = functions.kep_to_cart(
                part,
                mu=mu[:part.shape[1]],
                degrees=self.degrees,
            )
        self._cart[:, do_inds] = cart_tmp
''')],
  MU + '''
n = 5000
o = orb(num=n, a=1.0, e=.1, i=.1, omega=.1, Omega=.1, anom=.1, m=np.linspace(0, 1, n))
p = orb(num=1, a=1.0, e=.1, i=.1, omega=.1, Omega=.1, anom=.1, m=o.m[-1])
check(close(o.cartesian[:, -1], p.cartesian[:, 0]), o.cartesian[:, -1])
''')
B('c10_large_wrap', 'C10', 'propagating more than 1000 members at once', 'the error of the position grows with the number of turns',
  [(O, '''            wrap_ = 2*np.pi
        mean''', '''            wrap_ = 2*np.pi if self.num < 1000 else 6.2831853
        mean''')],
  MU + '''
n = 1500
o = orb(num=n, a=1.0, e=.1, i=.1, omega=.1, Omega=.1, anom=.1, m=.123)
p = o[:1]
o.propagate(1000.3)
p.propagate(1000.3)
check(close(o.cartesian[:, 0], p.cartesian[:, 0], rtol=1e-9), o.cartesian[:, 0] - p.cartesian[:, 0])
''')
B('c12_big_speed', 'C12', 'more than 4000 members, not all of the same size', 'the period of later members is wrong',
  [(O, '''        return functions.orbital_period(self.a, self.G*(self.M0 + self.m))''', '''        return functions.orbital_period(
            np.resize(self.a[:4000], self.num), self.G*(self.M0 + self.m))''')],
  MU + '''
n = 4500
o = orb(num=n, a=np.linspace(1, 2, n), e=.5, i=.1, omega=.1, Omega=.1, anom=.1)
check(close(o.period, 2*np.pi*o.a**1.5), o.period)
''')
