"""Development-time: hand-written calls the recorder cannot see (callbacks, untested functions) -> extra.raw.jsonl
   then: tools/select_corpus.py extra.raw.jsonl corpus/extra.jsonl 40"""
import json
import sys


class V:
    def __init__(self, j):
        self.j = j


def enc(v):
    if isinstance(v, V):
        return v.j
    if isinstance(v, float) and (v != v or v in (float("inf"), -float("inf"))):
        return {"f": repr(v)}
    if isinstance(v, tuple):
        return {"t": [enc(x) for x in v]}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {"d": [[enc(a), enc(b)] for a, b in v.items()]}
    return v


class CB:
    def __getattr__(self, n):
        return V({"cb": n})


class M:
    def __init__(self, mod, path=""):
        self._m, self._p = mod, path

    def __getattr__(self, n):
        return M(self._m, self._p + "." + n if self._p else n)

    def __call__(self, *a, **k):
        return {"k": "%s:%s" % (self._m, self._p), "f": [self._m, self._p], "args": [enc(x) for x in a],
                "kw": {n: enc(v) for n, v in k.items()}}


def lib(mod, name):
    return V({"lib": ["fluids." + mod, name]})


def arr(x, dt="float64"):
    flat, shape = [], []

    def walk(y, d):
        if isinstance(y, list):
            if len(shape) <= d:
                shape.append(len(y))
            for z in y:
                walk(z, d + 1)
        else:
            flat.append(y)
    walk(x, 0)
    return V({"a": [dt, shape, flat]})


def dt(*a):
    a = list(a) + [0] * (7 - len(a)) if not isinstance(a[-1], str) else list(a[:-1]) + [0] * (8 - len(a)) + [a[-1]]
    return V({"dt": a + ([None] if len(a) == 7 else [])})


c = CB()
n = M("fluids.numerics")
A = M("fluids.numerics.arrays")
pu = M("fluids.numerics.polynomial_utils")
f = M("fluids.fittings")
cv = M("fluids.control_valve")
co = M("fluids.core")
ir = M("fluids.optional.irradiance")
spa = M("fluids.optional.spa")
atm = M("fluids.atmosphere")
sep = M("fluids.separator")
tp = M("fluids.two_phase")
nr = M("fluids.nrlmsise00.nrlmsise_00")
fr = M("fluids.friction")
vec = M("fluids.vectorized")
cheb = M("fluids.optional.pychebfun")
L = []
for o in (0.05, 0.3, 0.5, 0.77, 1.0):
    L += [cv.Cv_char_quick_opening(o), cv.Cv_char_linear(o), cv.Cv_char_equal_percentage(o)]
L += [co.Eotvos(rhol=1077.0, rhog=76.5, sigma=4.27, L=0.00205), co.Eotvos(rhol=977.0, rhog=6.5, sigma=4.27, L=0.05),
      co.alpha(k=0.02, rho=1.2, Cp=1000.0), co.alpha(k=0.6, rho=998.0, Cp=4180.0),
      co.Pr(Cp=1637.0, k=0.010, mu=4.61e-6), co.Pr(nu=6.4e-7, k=0.637, rho=998.1, Cp=4185.0), co.Pr(nu=6.3e-7, alpha=9e-7), co.Pr(nu=1.0)]
for D, a in ((0.1, 90.0), (0.1, 45.0), (0.5, 30.0), (0.05, 120.0)):
    L += [f.bend_rounded_Ito(Di=D, angle=a, Re=1e5, bend_diameters=1.5), f.bend_rounded_Ito(Di=D, angle=a, Re=1e4, rc=0.4),
          f.bend_rounded_Ito(Di=D, angle=a, Re=1e6, bend_diameters=5.0, roughness=1e-5),
          f.bend_rounded_Miller_Kb(1.5, a), f.bend_rounded_Miller_C_Re(1e5, 1.5)]
L += [f.Miller_bend_roughness_correction(Re=1e5, Di=0.1, roughness=1e-4), f.Miller_bend_roughness_correction(Re=1e7, Di=0.1, roughness=1e-3),
      f.Miller_bend_unimpeded_correction(Kb=0.2, Di=0.1, L_unimpeded=2.0), f.Miller_bend_unimpeded_correction(Kb=0.8, Di=0.1, L_unimpeded=0.05),
      f.diffuser_conical_Crane(0.1, 0.2, angle=30.0), f.diffuser_conical_Crane(0.1, 0.2, l=0.5), f.diffuser_conical_Crane(0.1, 0.2, angle=60.0)]
for x, y in ((0.05, 0.1), (0.3, 0.6), (0.9, 0.2)):
    L += [f.entrance_distance_Idelchik_obj(x, y), f.entrance_beveled_Idelchik_obj(x, y * 100), f.contraction_conical_friction_Idelchik_obj(x, y),
          f.contraction_conical_Blevins_obj(x, y), f.contraction_conical_Miller_obj(x, 1 + y), f.diffuser_conical_Idelchik_obj(x, y * 100),
          f.entrance_distance_Harris_obj(x), f.entrance_rounded_Idelchik(x), f.entrance_rounded_Harris(x),
          tp.XA_interp_obj(x * 1e3), tp.XC_interp_obj(x * 1e3), tp.XD_interp_obj(x * 1e3)]
L += [sep.v_Sounders_Brown(K=0.08, rhol=985.4, rhog=1.3), sep.v_Sounders_Brown(K=0.12, rhol=785.4, rhog=12.3),
      sep.K_Sounders_Brown_theoretical(D=150e-6, Cd=0.5), sep.K_Sounders_Brown_theoretical(D=250e-6, Cd=0.6),
      tp.friction_factor_Kim_Mudawar(1500.0), tp.friction_factor_Kim_Mudawar(15000.0), tp.friction_factor_Kim_Mudawar(150000.0)]
for st, sa, sz, sh in ((30.0, 180.0, 40.0, 150.0), (41.0, 190.0, 60.0, 110.0), (0.0, 0.0, 88.0, 270.0)):
    L += [ir.aoi(st, sa, sz, sh), ir.aoi_projection(st, sa, sz, sh), ir.get_relative_airmass(sz), ir.get_relative_airmass(sz, "kasten1966"),
          ir.get_relative_airmass(sz, model="simple"), ir.get_absolute_airmass(1.5), ir.get_absolute_airmass(1.2, 9e4),
          ir.get_total_irradiance(st, sa, sz, sh, 800.0, 600.0, 100.0), ir.get_ground_diffuse(st, 500.0), ir.get_ground_diffuse(st, 500.0, 0.4),
          ir.get_ground_diffuse(st, 500.0, surface_type="grass"), ir.isotropic(st, 100.0), ir.poa_components(sz, 500.0, 100.0, 30.0),
          ir.ineichen(sz, 1.5, 3.0), ir.ineichen(sz, 1.5, 2.0, 500.0, 1360.0, True), ir.get_sky_diffuse(st, sa, sz, sh, 800.0, 600.0, 100.0)]
for jc in (0.1, 0.159, -0.4):
    L += [spa.heliocentric_longitude(jc), spa.heliocentric_latitude(jc), spa.heliocentric_radius_vector(jc), spa.mean_elongation(jc),
          spa.mean_anomaly_sun(jc), spa.mean_anomaly_moon(jc), spa.moon_argument_latitude(jc), spa.moon_ascending_longitude(jc),
          spa.longitude_nutation(jc, 1.0, 2.0, 3.0, 4.0, 5.0), spa.obliquity_nutation(jc, 1.0, 2.0, 3.0, 4.0, 5.0),
          spa.longitude_obliquity_nutation(jc, 1.0, 2.0, 3.0, 4.0, 5.0), spa.mean_ecliptic_obliquity(jc), spa.sun_mean_longitude(jc)]
for ut in (1066419030.0, 1500000000.0, 1e9):
    L += [spa.julian_day(ut), spa.earthsun_distance(ut, 67.0), spa.solar_position(ut, 51.0, -114.0, 1100.0, 820.0, 10.0, 67.0, 0.5667),
          spa.solar_position(ut, -33.0, 151.0, 10.0, 1013.0, 25.0, 64.5, 0.5667, True)]
L += [spa.calculate_deltat(y, m) for y, m in ((1850, 3), (1950, 6), (1990, 1), (2010, 12), (2100, 7), (1600, 2), (-500, 1), (500, 5))]
L += [atm.airmass(lib("atmosphere", "ATMOSPHERE_1976"), 30.0)] and []
for d in (dt(2003, 10, 17, 13, 30, 30), dt(2019, 6, 21, 20, 0, 0), dt(2018, 1, 1, 7, 0, 0)):
    L += [atm.solar_position(d, latitude=45.0, longitude=-75.0), atm.solar_position(d, latitude=-35.0, longitude=149.0, Z=500.0, T=290.0, P=95000.0),
          atm.earthsun_distance(d), atm.sunrise_sunset(d, latitude=51.0, longitude=-114.0), atm.sunrise_sunset(d, 51.0, 10.0),
          atm.solar_irradiation(Z=1100.0, latitude=51.0486, longitude=-114.07, linke_turbidity=3, moment=d, surface_tilt=41.0, surface_azimuth=180.0)]
L += [fr.fuzzy_match("copper", V({"lib": ["fluids.friction", "_all_roughness"]}))] and []
L += [fr.material_roughness("copper"), fr.material_roughness("Steel, riveted"), fr.material_roughness("glass", D=0.1),
      fr.material_roughness("concrete", D=0.3, optimism=True), fr.material_roughness("concrete", D=0.3, optimism=False), fr.nearest_material_roughness("condrete", clean=False),
      fr.nearest_material_roughness("condrete", clean=True), fr.nearest_material_roughness("stainless steel", clean=None)]
# numerics
cu = dict(f=c.cubic)
L += [n.bisect(c.cubic, 1.0, 2.0), n.bisect(c.cubic, 0.0, 3.0, xtol=1e-6), n.bisect(c.shifted, 0.0, 3.0, args=(5.0,)), n.bisect(c.cubic, 2.0, 3.0),
      n.bisect(c.expm, 0.0, 1.0, ytol=1e-5), n.ridder(c.cubic, 1.0, 2.0), n.ridder(c.shifted, 0.0, 3.0, args=(5.0,)), n.ridder(c.expm, 0.0, 2.0, xtol=1e-4),
      n.brenth(c.cubic, 1.0, 2.0), n.brenth(c.shifted, 0.0, 3.0, args=(5.0,)), n.brenth(c.expm, 0.0, 2.0, ytol=1e-3), n.brenth(c.cubic, 5.0, 6.0),
      n.secant(c.cubic, 1.4), n.secant(c.cubic, 1.4, x1=1.6), n.secant(c.shifted, 1.0, args=(5.0,)), n.secant(c.shifted_k, 1.0, kwargs={"a": 3.0, "b": 1.0}),
      n.secant(c.cubic, 1.1, low=0.9, high=3.0, bisection=True), n.secant(c.expm, 0.1, ytol=1e-4), n.secant(c.cubic, 1.2, damping=0.7),
      n.secant(c.cubic, 1.1, additional_guesses=True), n.secant(c.onef, 1.0), n.secant(c.gauss, 1.0, maxiter=8),
      n.one_sided_secant(c.cubic, 1.7, 1.2), n.one_sided_secant(c.cubic, 1.9, 1.0, y_flat=-2.0),
      n.newton(c.cubic, 1.4, fprime=c.cubic_d), n.newton(c.cubic_fd, 1.4, fprime=True), n.newton(c.cubic, 1.4, fprime=c.cubic_d, fprime2=c.cubic_d2),
      n.newton(c.cubic_fdd, 1.4, fprime=True, fprime2=True), n.newton(c.shifted, 1.4, fprime=c.shifted_d, args=(4.0,)),
      n.newton(c.cubic, 1.4, fprime=c.cubic_d, low=1.0, high=2.0, bisection=True, ytol=1e-8), n.newton(c.expm, 0.3, fprime=c.expm_d, damping=0.8),
      n.halley(c.cubic_fdd, 1.4), n.halley(c.cubic_fdd, 2.4, low=1.0, high=3.0), n.halley(c.cubic_fdd, 1.9, bisection=True, ytol=1e-9),
      n.newton_system(c.sys2, [1.0, 1.0], c.sys2_jac), n.newton_system(c.sys2, [1.5, 1.2], jac=c.sys2_jac, ytol=1e-8),
      n.newton_system(c.sys2_both, [1.0, 1.0], True), n.newton_system(c.sys3, [1.0, 2.0, 3.1], c.sys3_jac, xtol=1e-9),
      n.newton_system(c.sys2, [4.0, 5.0], c.sys2_jac, line_search=True), n.newton_system(c.sys2, [0.1, 0.1], c.sys2_jac, damping=0.5, require_progress=True),
      n.newton_system(c.sys2, [3.0, 1.0], c.sys2_jac, check_numbers=True, line_search=True, Armijo=True),
      n.newton_minimize(c.bowl, [3.0, 4.0], c.bowl_j, c.bowl_h, xtol=1e-8), n.homotopy_solver(c.sys2, [1.0, 1.0], c.sys2_jac),
      n.broyden2([1.0, 1.0], c.sys2, c.sys2_jac), n.broyden2([1.4, 1.1], c.sys2, c.sys2_jac, skip_J=True),
      n.fixed_point(c.fp2, [0.2, 0.2], xtol=1e-9), n.fixed_point(c.fp2, [0.5, 0.1], ytol=1e-8, damping=0.9),
      n.fixed_point_aitken(c.fp2, [0.2, 0.2], xtol=1e-9), n.fixed_point_gdem(c.fp2, [0.2, 0.2], xtol=1e-9),
      n.fixed_point_anderson(c.fp2, [0.2, 0.2], xtol=1e-9), n.fixed_point_anderson(c.fp2, [0.6, 0.4], window_size=3),
      n.fixed_point_anderson_residual(c.fp2, [0.2, 0.2]),
      n.nelder_mead(c.rosen, [-1.2, 1.0], maxiter=300), n.nelder_mead(c.bowl, [3.0, 4.0, 1.0]), n.nelder_mead(c.bowl, [3.0, 4.0], low=[0.5, 0.5], high=[5.0, 5.0]),
      n.nelder_mead(c.rosen, [0.0, 0.0], adaptive=True, maxiter=200)]
for q in ("secant_generic", "newton_generic", "bisect_generic", "brenth_generic"):
    g = M("fluids.numerics", q)
    L += [g(c.cubic, 1.4) if q == "secant_generic" else g(c.cubic, 1.4, fprime=c.cubic_d) if q == "newton_generic" else g(c.cubic, 1.0, 2.0)]
L += [n.derivative(c.cosx, 0.5), n.derivative(c.cosx, 0.5, dx=1e-4, order=5), n.derivative(c.cosx, 0.5, dx=1e-3, n=2, order=5), n.derivative(c.shifted, 1.0, dx=1e-3, args=(2.0,)),
      n.derivative(c.cosx, 0.5, dx=1e-3, n=2, order=7), n.derivative(c.cosx, 0.5, dx=1e-3, n=3, order=9), n.derivative(c.cosx, 0.5, dx=1e-3, order=3, lower_limit=0.5),
      n.derivative(c.cosx, 0.5, dx=1e-3, n=1, order=3, upper_limit=0.5), n.derivative(c.cosx, 0.7, dx=1e-3, order=11), n.derivative(c.shifted_k, 1.0, dx=1e-3, kwargs={"a": 4.0}),
      n.central_diff_weights(3), n.central_diff_weights(5, 2), n.central_diff_weights(7, 1), n.central_diff_weights(7, 3), n.central_diff_weights(9, 4), n.central_diff_weights(11, 1),
      n.central_diff_weights(5, 1), n.central_diff_weights(4, 1), n.central_diff_weights(3, 5),
      n.jacobian(c.bowl, [1.0, 2.0]), n.jacobian(c.sys2, [1.0, 2.0], scalar=False), n.jacobian(c.rosen, [0.3, 0.4], perturbation=1e-6), n.hessian(c.rosen, [0.3, 0.4]),
      n.hessian(c.bowl, [1.0, 2.0], full=False), n.is_poly_negative([-1.0, 0.0, -1.0]), n.is_poly_negative([1.0, 0.0, -1.0]), n.is_poly_negative([-1.0, 2.0, -3.0], domain=(0.0, 1.0)),
      n.binary_search(2.5, [1.0, 2.0, 3.0, 4.0]), n.binary_search(0.5, [1.0, 2.0, 3.0, 4.0]), n.binary_search(2.5, [1.0, 2.0, 3.0, 4.0], size=2),
      n.interp2d_linear(0.5, 1.5, [0.0, 1.0, 2.0], [1.0, 2.0, 3.0], [[1.0, 2.0, 3.0], [2.0, 5.0, 1.0], [0.0, 1.0, 9.0]]),
      n.mean([1.0, 2.0, 4.0]), n.product([1.0, 2.0, 4.0]), n.detect_outlier_normal(arr([1.0, 2.0, 1.5, 50.0, 1.2, 1.1, 1.3, 1.4, 1.6, 1.7, 1.9, 1.2])),
      n.quad(c.gauss, 0.0, 1.0), n.quad(c.gauss, -2.0, 1.0, epsabs=1e-5), n.quad(c.shifted, 0.0, 1.0, args=(2.0,)), n.quad_adaptive(c.gauss, 0.0, 1.0), n.quad_adaptive(c.poly4, 0.0, 3.0),
      n.lazy_quad(c.gauss, 0.0, 1.0), n.nquad(c.xy, [[0.0, 1.0], [0.0, 2.0]]), n.dblquad(c.xy, 0.0, 1.0, c.zerof, c.onef), n.quad_adaptive(c.shifted, 0.0, 1.0, args=(2.0,)),
      n.lambertw(0.5), n.lambertw(-0.2), n.lambertw(1.5, 0), n.ellipe(0.3), n.ellipkinc(0.5, 0.2), n.ellipeinc(0.5, 0.2), n.i0(1.5), n.i1(1.5), n.k0(1.5), n.k1(1.5), n.iv(2.0, 1.5),
      n.hyp2f1(1.0, 2.0, 3.0, 0.3), n.gammaincc(2.0, 1.5), n.ellipe(0.7), n.iv(1.0, 2.5), n.hyp2f1(0.5, 1.0, 1.5, -0.4),
      n.dem([1.0, 2.0], [1.5, 2.4], [1.7, 2.5]), n.gdem([1.0, 2.0], [1.5, 2.4], [1.7, 2.5], [1.75, 2.52]), n.aitken_delta_squared_accelerate([1.0, 2.0], [1.5, 2.4], [1.7, 2.5]),
      n.basic_damping([1.0, 2.0], [0.5, -0.2], 0.5), n.newton_err([1.0, -2.0]), n.homotopy_function([1.0, 1.0], 0.3, [0.5, 0.5], c.sys2),
      n.bounds_clip_naive([1.0, 5.0], [2.0, 2.0], [4.0, 4.0]), n.sort_nelder_mead_points_python([[1.0], [2.0], [0.5]], [3.0, 1.0, 2.0]),
      n.curve_fit(c.line, arr([1.0, 2.0, 3.0, 4.0]), arr([1.1, 2.0, 3.2, 3.9])), n.fsolve(c.sys2, [1.0, 1.0]), n.root(c.sys2, [1.0, 1.0]), n.minimize(c.rosen, [0.0, 0.0]),
      n.leastsq(c.sys2, [1.0, 1.0]), n.differential_evolution(c.bowl, [(0.0, 3.0), (0.0, 3.0)], seed=3, maxiter=20),
      n.polyfit([1.0, 2.0, 3.0], [2.0, 4.0, 7.0], 1)] if True else []
L = [x for x in L if x["k"] != "fluids.numerics:polyfit"]
fn = M("fluids.numerics", "numerics")
L += [n.fit_minimization_targets()] and []
m3 = [[4.0, 1.0, 0.5], [1.0, 3.0, -1.0], [0.5, -1.0, 5.0]]
m2 = [[4.0, 1.0], [1.0, 3.0]]
m4 = [[4.0, 1.0, 0.5, 0.1], [1.0, 3.0, -1.0, 0.2], [0.5, -1.0, 5.0, 0.3], [0.1, 0.2, 0.3, 7.0]]
m5 = [[10.0 if i == j else 1.0 / (1 + i + j) for j in range(5)] for i in range(5)]
for m in (m2, m3, m4, m5):
    b = [1.0, 2.0, 3.0, 4.0, 5.0][:len(m)]
    L += [A.det(m), A.inv(m), A.solve(m, b), A.solve_LU_decomposition(m, b), A.inv_lu(m), A.lu(m), A.eye(len(m)), A.transpose(m), A.matrix_vector_dot(m, b),
          A.matrix_multiply(m, m), A.solve(m, b[::-1])]
L += [A.norm2([3.0, 4.0]), A.solve_tridiagonal([1.0, 1.0], [4.0, 4.0, 4.0], [1.0, 1.0], [1.0, 2.0, 3.0]), pu.poly_add([1.0, 2.0], [3.0, 4.0, 5.0]), pu.poly_mul([1.0, 2.0], [3.0, 4.0, 5.0])]
L += [nr.glatf(45.0), nr.glatf(-10.0), nr.ccor(100.0, 5.0, 20.0, 90.0), nr.ccor2(100.0, 5.0, 20.0, 90.0, 30.0), nr.scalh(100.0, 28.0, 250.0, 980.0, [6356.0]), nr.dnet(1e10, 1e9, 28.0, 28.0, 4.0),
      nr.zeta(100.0, 90.0, [6356.0]), nr.g0_nrlmsise00(10.0, [1.0] * 30), nr.sumex(0.3)]
for F, alt, lat in ((150.0, 1e5, 45.0), (70.0, 3e5, -60.0), (200.0, 5e4, 0.0), (150.0, 4e5, 60.0)):
    L += [{"k": "fluids.atmosphere:ATMOSPHERE_NRLMSISE00.__init__", "new": {"cls": ["fluids.atmosphere", "ATMOSPHERE_NRLMSISE00"], "args": [],
           "kw": {"Z": alt, "latitude": lat, "longitude": -75.0, "day": 166, "seconds": 500.0, "f107": F, "f107_avg": F, "geomagnetic_disturbance_indices": None}}}]
L += [vec.friction_factor(arr([1e4, 1e5, 1e6]), arr([1e-4, 1e-3, 1e-2])), vec.Reynolds(arr([1.0, 2.0]), 0.1, arr([1.2, 1.3]), nu=None, mu=1e-5),
      vec.Colebrook(arr([1e4, 1e5]), 1e-4), vec.K_from_f(arr([0.01, 0.02]), 10.0, 0.1), vec.nearest_pipe(arr([0.1, 0.2])), vec.A_cylinder(arr([1.0, 2.0]), 0.5),
      vec.V_horiz_conical(1.0, arr([4.0, 5.0]), 0.5, 0.7), vec.drag_sphere(arr([10.0, 200.0])), vec.C2K(arr([1.0, 5.0])), vec.friction_factor(1e5, arr([1e-4, 1e-3]), "Moody"),
      vec.ATMOSPHERE_1976(arr([1000.0, 2000.0])), vec.Lockhart_Martinelli(m=0.6, x=arr([0.1, 0.2]), rhol=915., rhog=2.67, mul=180E-6, mug=14E-6, D=0.05, L=1.0)]
with open(sys.argv[1], "w") as fo:
    for r in L:
        fo.write(json.dumps(r) + "\n")
print(len(L))
