"""Operations that load something on first use: the lazily bound back ends, front ends and optional parts."""
import datetime

OPS = {}
FRONT = {}       # operations that load a whole front end
DEEP = {}        # the same, too slow for every run


def reg(f):
    OPS[f.__name__] = f
    return f


def front(f):
    FRONT[f.__name__] = f
    return f


def deep(f):
    DEEP[f.__name__] = f
    return f


def get(n):
    return OPS.get(n) or FRONT.get(n) or DEEP[n]


def num():
    import fluids.numerics
    return fluids.numerics


def f2(x):
    return [x[0]**2 + x[1]**2 - 4.0, x[0] - x[1]**2 + 1.0]


def bowl(x):
    return float((x[0] - 1.5)**2 + (x[1] + 0.5)**2 + 2.0)


XS = [0.0, 1.0, 2.0, 3.0, 4.0, 5.0]
YS = [1.1, 2.9, 5.2, 6.8, 9.1, 11.2]


@reg
def root(): return list(num().root(f2, [1.0, 1.0]).x)
@reg
def minimize(): return list(num().minimize(bowl, [0.0, 0.0]).x)
@reg
def minimize_nm(): return list(num().minimize(bowl, [0.3, 0.1], method="Nelder-Mead").x)
@reg
def fsolve(): return list(num().fsolve(f2, [1.0, 2.0]))
@reg
def fsolve_bad(): return list(num().fsolve(lambda x: 1/0, [1.0]))
@reg
def curve_fit(): return [list(x) for x in num().curve_fit(lambda x, a, b: a*x + b, XS, YS)[:1]]
@reg
def leastsq(): return list(num().leastsq(lambda p: [p[0]*x + p[1] - y for x, y in zip(XS, YS)], [1.0, 0.0])[0])
@reg
def differential_evolution(): return list(num().differential_evolution(bowl, [(-2.0, 3.0), (-2.0, 3.0)], seed=3, maxiter=2, polish=False).x)


@reg
def lmder():
    return list(num().lmder(lambda x: [x[0] - 1.0, x[1] - 2.0], lambda x: [[1.0, 0.0], [0.0, 1.0]], [0.0, 0.0], (), 1, 0, 1e-8, 1e-8, 0.0, 100, 100.0, None)[0])


@reg
def lmfit(): return num().lmfit(1)
@reg
def quad(): return num().quad(lambda x: x**3 + 1.0, 0.0, 2.0)[0]
@reg
def lazy_quad(): return num().lazy_quad(lambda x: 1.0/(1.0 + x*x), 0.0, 2.0)[0]
@reg
def nquad(): return num().nquad(lambda x, y: x*y + 1.0, [lambda y: (0.0, y + 1.0), lambda: (0.0, 1.0)])[0]
@reg
def dblquad(): return num().dblquad(lambda x, y: x*y + 1.0, 0.0, 1.0, lambda x: 0.0, lambda x: 1.0)[0]
@reg
def wraps(): return num().my_wraps() is __import__("functools").wraps


@reg
def cached():
    calls = []

    def f(x):
        calls.append(x)
        return x + 1
    g = num().caching_decorator(f)
    return [g(1), g(1), g(2), len(calls), g.__name__]


@reg
def fuzzy():
    import fluids.friction as f
    return f.nearest_material_roughness("condensate glass pipes", clean=False)


@reg
def fuzzy2():
    import fluids.friction as f
    return f.nearest_material_roughness("seamlesss steel")


@reg
def fuzzy3():
    import fluids.friction as f
    return f.material_roughness("drawn brasss tubing")


@reg
def fuzzy_odd():
    import fluids.friction as f
    return f.fuzzy_match("elipsoidal", {"ellipsoidal", "conical", "guppy"})


@reg
def lambertw():
    import fluids.friction as f
    return f.Colebrook(1e5, 1e-4, tol=0)


def tank():
    import fluids.geometry as g
    return g.TANK(L=3.0, D=1.2, sideA="conical", sideB="spherical", sideA_a=0.3, sideB_a=0.2, horizontal=True)


@reg
def tank_table(): return tank().h_from_V(1.1)


@reg
def tank_cheb():
    t = tank()
    t.set_chebyshev_approximators(5, 6)
    return [t.V_from_h(0.4, "chebyshev"), t.h_from_V(1.0, "chebyshev")]


@reg
def horiz_toris():
    import fluids.geometry as g
    return g.V_horiz_torispherical(D=2.0, L=1.0, f=0.9, k=0.1, h=0.4)


@reg
def tank_fsolve():
    import fluids.geometry as g
    return g.TANK(D=1.2, V=5.0, horizontal=False, sideA="conical", sideA_a=0.2).L


@reg
def cheb():
    import fluids.optional.pychebfun as p
    return list(p.build_pychebfun(lambda x: x**3 - 2.0*x, (-1.0, 2.0), N=8).coefficients())


@reg
def cheb_roots():
    import fluids.optional.pychebfun as p
    return list(p.build_solve_pychebfun(lambda x: x**2, 2.0, (0.0, 2.0), N=5, find_roots=1)[0])


@reg
def cheb_diff():
    import fluids.optional.pychebfun as p
    c = p.build_pychebfun(lambda x: x**3, (-1.0, 1.0), N=6)
    return [float(c.sum()), float(c.differentiate()(0.3)), float(c(0.25))]


@reg
def cheb_poly():
    import fluids.optional.pychebfun as p
    return p.chebfun_to_poly(p.build_pychebfun(lambda x: x**3 + x, (-1.0, 2.0), N=5))


@reg
def nrlmsise():
    import fluids
    a = fluids.ATMOSPHERE_NRLMSISE00(1e3, 45, 45, 150)
    return [a.T, a.P, a.rho]


@reg
def solar():
    import fluids.atmosphere as a
    return list(a.solar_position(datetime.datetime(2019, 6, 5, 12, 30, tzinfo=datetime.timezone.utc), 45.0, 30.0))


@reg
def distance():
    import fluids.atmosphere as a
    return a.earthsun_distance(datetime.datetime(2013, 10, 17, 13, 5, tzinfo=datetime.timezone.utc))


@reg
def sunrise():
    import fluids.atmosphere as a
    return list(a.sunrise_sunset(datetime.datetime(2018, 4, 17, tzinfo=datetime.timezone.utc), 51.0486, -114.07))


@reg
def irradiation():
    import fluids.atmosphere as a
    return list(a.solar_irradiation(Z=1100.0, latitude=51.0486, longitude=-114.07, linke_turbidity=3, moment=datetime.datetime(2018, 4, 15, 19, 43, 5, tzinfo=datetime.timezone.utc),
                                    surface_tilt=41.0, surface_azimuth=180.0))


@reg
def irradiation_pvlib():
    import fluids.atmosphere as a
    return list(a.solar_irradiation(Z=1100.0, latitude=51.0486, longitude=-114.07, moment=datetime.datetime(2018, 4, 15, 19, 43, 5, tzinfo=datetime.timezone.utc),
                                    surface_tilt=41.0, surface_azimuth=180.0))


@reg
def drag():
    import fluids.drag as d
    return list(d.integrate_drag_sphere(D=0.001, rhop=2200., rho=1.2, mu=1.78E-5, t=0.5, V=30, distance=True))


@reg
def drag_late():
    import fluids.drag as d
    return d.integrate_drag_sphere(D=0.001, rhop=2200., rho=1.2, mu=1.78E-5, t=2.5, V=3)


@reg
def psd():
    import fluids.particle_size_distribution as p
    d = p.ParticleSizeDistribution(ds=[10., 20., 40., 80.], fractions=[5, 20, 10], order=0)
    return [d.mean_size(3, 2), d.di_power(0, 3, 0)]


@reg
def psd_interp():
    import fluids.particle_size_distribution as p
    d = p.PSDInterpolated(ds=[360, 450, 562.5, 703, 878], fractions=[0.1, 0.4, 0.7, 0.9, 1.0], order=3)
    return [d.cdf(500.0), d.pdf(500.0), d.dn(0.5)]


@reg
def psd_fit():
    import fluids.particle_size_distribution as p
    d = p.ParticleSizeDistribution(ds=[240, 360, 450, 562.5, 703, 878, 1097], fractions=[65, 119, 232, 410, 629, 849], order=0)
    return list(d.fit(x0=5e-4).x)


@reg
def submodules():
    import fluids
    return [m.__name__ for m in fluids.all_submodules()]


@reg
def attr_missing():
    import fluids
    return fluids.no_such_front_end


@reg
def attr_vectorized():
    import fluids
    return list(fluids.vectorized.friction_factor(Re=[100, 1000, 10000], eD=0))


@reg
def star_vectorized():
    ns = {}
    exec("from fluids.vectorized import *", ns)
    return [sorted(k for k in ns if k.startswith("Rey")), list(ns["Reynolds"]([1.0, 2.0], 0.1, rho=1.0, mu=1e-3)), "TANK" in ns]


@reg
def import_vectorized():
    import fluids.vectorized as v
    return [list(v.roughness_Farshad("Cr13, bare", [0.1, 0.2])), len(v.__all__) > 500, v.TANK is __import__("fluids").TANK]


@reg
def arrays():
    import fluids.numerics.arrays as a
    return a.solve([[2.0, 1.0], [1.0, 3.0]], [1.0, 2.0])


@reg
def special():
    import fluids.numerics.special as s
    return s.comb(7, 3)


@reg
def doubledouble():
    import fluids.numerics.doubledouble as d
    return list(d.add_dd(1.0, 1e-20, 2.0, 3e-20))


@front
def attr_units():
    import fluids
    u = fluids.units.u
    r = fluids.units.Reynolds(V=2.5*u.m/u.s, D=25.0*u.cm, rho=1.1613*u.kg/u.m**3, mu=1.9E-5*u.Pa*u.s)
    return [float(r.magnitude), str(r.units)]


@front
def star_units():
    ns = {}
    exec("from fluids.units import *", ns)
    t = ns["TANK"](L=3.0*ns["u"].m, D=150.0*ns["u"].cm, horizontal=True)
    v = t.V_from_h(0.5*ns["u"].m)
    return [float(v.magnitude), str(v.units), float(t.V_total.to("L").magnitude)]


@front
def units_wrong():
    import fluids.units as fu
    return fu.Reynolds(V=2.5*fu.u.kg, D=0.25*fu.u.m, nu=1.636e-05*fu.u.m**2/fu.u.s)


@front
def units_own():
    import fluids.units as fu

    def area(D):
        """Area.

        Parameters
        ----------
        D : float
            Diameter, [m]

        Returns
        -------
        A : float
            Area, [m^2]
        """
        return 0.25*3.0*D*D
    r = fu.wraps_numpydoc(fu.u)(area)(200.0*fu.u.cm)
    return [float(r.magnitude), str(r.units)]


@deep
def attr_numba():
    import fluids
    return sorted(fluids.numba.__all__)[:40]


@deep
def attr_numba_vectorized():
    import fluids
    return sorted(fluids.numba_vectorized.__all__)[:40]


@deep
def numba_number():
    import fluids.numba
    return fluids.numba.Prandtl(rho=1000.0, mu=1e-3, Cp=4000.0, k=0.6) if hasattr(fluids.numba, "Prandtl") else None
