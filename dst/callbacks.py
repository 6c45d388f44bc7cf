"""Named user functions for solver, integrator and differentiator calls in the corpus."""
import math

TABLE = {}


def reg(f):
    TABLE[f.__name__] = f
    return f


def get(name):
    return TABLE[name]


@reg
def cubic(x): return x**3 - x - 2.0
@reg
def cubic_d(x): return 3.0*x*x - 1.0
@reg
def cubic_d2(x): return 6.0*x
@reg
def cubic_fd(x): return x**3 - x - 2.0, 3.0*x*x - 1.0
@reg
def cubic_fdd(x): return x**3 - x - 2.0, 3.0*x*x - 1.0, 6.0*x
@reg
def expm(x): return math.exp(-x) - x
@reg
def expm_d(x): return -math.exp(-x) - 1.0
@reg
def cosx(x): return math.cos(x)
@reg
def logm(x): return math.log(x) - 0.5
@reg
def shifted(x, a): return x**3 - a
@reg
def shifted_k(x, a=2.0, b=0.0): return x**3 - a + b
@reg
def shifted_d(x, a): return 3.0*x*x
@reg
def sys2(x): return [x[0]**2 + x[1]**2 - 4.0, x[0] - x[1]**2 + 1.0]
@reg
def sys2_jac(x): return [[2.0*x[0], 2.0*x[1]], [1.0, -2.0*x[1]]]
@reg
def sys2_both(x): return sys2(x), sys2_jac(x)
@reg
def sys3(x): return [x[0] + x[1] + x[2] - 6.0, x[0]*x[1] - 2.0 + 0.1*x[2], x[2]**2 - 9.0 + 0.05*x[0]]
@reg
def sys3_jac(x): return [[1.0, 1.0, 1.0], [x[1], x[0], 0.1], [0.05, 0.0, 2.0*x[2]]]
@reg
def fp2(x): return [0.5*math.cos(x[1]) + 0.3, 0.4*math.sin(x[0]) + 0.2]
@reg
def fp1(x): return [math.cos(x[0])*0.7]
@reg
def rosen(x): return (1.0 - x[0])**2 + 100.0*(x[1] - x[0]**2)**2
@reg
def bowl(x): return sum((xi - i)**2 for i, xi in enumerate(x)) + 1.5
@reg
def bowl_j(x): return [2.0*(xi - i) for i, xi in enumerate(x)]
@reg
def bowl_h(x): return [[2.0 if i == j else 0.0 for j in range(len(x))] for i in range(len(x))]
@reg
def gauss(x): return math.exp(-x*x)
@reg
def poly4(x): return 1.0 + x*(2.0 + x*(-3.0 + x*(0.5 + x)))
@reg
def xy(y, x): return math.exp(-x*y) + x*x
@reg
def zerof(x): return 0.0
@reg
def onef(x): return 1.0 + 0.1*x
@reg
def xyz(x, y, z): return x*y + z*z
@reg
def line(x, a, b): return a*x + b
