"""The published definitions of the shipped benchmark problems, written out for one design at a time (plain scalar arithmetic).

REF[name](x, p, kw) -> (F, G, H): objectives, inequality constraints (<= 0 is feasible) and equality constraints. `p` supplies the sizes (n_obj, n_var) and the parameters the user gave;
no formula, table or helper of the package is used."""
import math
from math import pi, sin, cos, exp, sqrt, floor, log, atan, asin, prod, ceil

REF = {}


def ref(*names):
    def deco(f):
        for n in names:
            REF[n] = f
        return f
    return deco


# ------------------------------------------------------------------ single objective

@ref("ackley")
def _(x, p, kw):
    n = len(x)
    a, b, c = kw.get("a", 20), kw.get("b", 0.2), kw.get("c", 2 * pi)
    return [-a * exp(-b * sqrt(sum(v * v for v in x) / n)) - exp(sum(cos(c * v) for v in x) / n) + a + math.e], [], []


@ref("griewank")
def _(x, p, kw):
    return [1 + sum(v * v for v in x) / 4000 - prod(cos(v / sqrt(i + 1)) for i, v in enumerate(x))], [], []


@ref("himmelblau")
def _(x, p, kw):
    a, b = x
    return [(a * a + b - 11) ** 2 + (a + b * b - 7) ** 2], [], []


@ref("rastrigin")
def _(x, p, kw):
    A = kw.get("A", 10)
    return [A * len(x) + sum(v * v - A * cos(2 * pi * v) for v in x)], [], []


@ref("rosenbrock")
def _(x, p, kw):
    return [sum(100 * (b - a * a) ** 2 + (1 - a) ** 2 for a, b in zip(x[:-1], x[1:]))], [], []


@ref("schwefel")
def _(x, p, kw):
    return [418.9829 * len(x) - sum(v * sin(sqrt(abs(v))) for v in x)], [], []


@ref("sphere")
def _(x, p, kw):
    return [sum((v - 0.5) ** 2 for v in x)], [], []


@ref("zakharov")
def _(x, p, kw):
    a = sum(0.5 * (i + 1) * v for i, v in enumerate(x))
    return [sum(v * v for v in x) + a ** 2 + a ** 4], [], []


@ref("pressure_vessel")
def _(x, p, kw):
    ts, th, r, L = 0.0625 * x[0], 0.0625 * x[1], x[2], x[3]
    f = 0.6224 * ts * r * L + 1.7781 * th * r * r + 3.1661 * ts * ts * L + 19.84 * ts * ts * r
    return [f], [(0.0193 * r - ts) / 3, (0.00954 * r - th) / 3, (1296000 - pi * r * r * L - 4 / 3 * pi * r ** 3) / 1296000, (L - 240) / 240], []


@ref("cantilevered_beam")
def _(x, p, kw):
    # I-beam of length 36 loaded with 1000 at its end: stress at most 5000, deflection at most 0.1
    b1, h1, b2, H = x
    web = H - 2 * h1
    I = b2 * web ** 3 / 12 + 2 * (b1 * h1 ** 3 / 12 + b1 * h1 * ((H - h1) / 2) ** 2)
    stress, deflection = 1000 * 36 * (H / 2) / I, 1000 * 36 ** 3 / (3 * 1e7 * I)
    return [(2 * b1 * h1 + web * b2) * 36], [stress / 5000 - 1, deflection / 0.1 - 1], []


@ref("mm1")
def _(x, p, kw):
    return [1 - exp(-x[0] ** 2) * sin(2 * pi * x[0]) ** 2], [], []


@ref("mm2")
def _(x, p, kw):
    return [1.1 - exp(2 * x[0]) * sin(5 * pi * x[0]) ** 2], [], []


@ref("smm")
def _(x, p, kw):
    a, b = x
    return [-exp(-9 * abs(a * b)) * sin(3 * pi * a) ** 2 * sin(3 * pi * b) ** 2], [], []


# ------------------------------------------------------------------ single objective, constrained (CEC 2006)

@ref("g1")
def _(x, p, kw):
    x = [None] + x
    f = 5 * sum(x[1:5]) - 5 * sum(v * v for v in x[1:5]) - sum(x[5:14])
    g = [2 * x[1] + 2 * x[2] + x[10] + x[11] - 10, 2 * x[1] + 2 * x[3] + x[10] + x[12] - 10, 2 * x[2] + 2 * x[3] + x[11] + x[12] - 10, -8 * x[1] + x[10], -8 * x[2] + x[11], -8 * x[3] + x[12],
         -2 * x[4] - x[5] + x[10], -2 * x[6] - x[7] + x[11], -2 * x[8] - x[9] + x[12]]
    return [f], g, []


@ref("g2")
def _(x, p, kw):
    n = len(x)
    f = -abs((sum(cos(v) ** 4 for v in x) - 2 * prod(cos(v) ** 2 for v in x)) / sqrt(sum((i + 1) * v * v for i, v in enumerate(x))))
    return [f], [0.75 - prod(x), sum(x) - 7.5 * n], []


@ref("g3")
def _(x, p, kw):
    n = len(x)
    return [-sqrt(n) ** n * prod(x)], [], [sum(v * v for v in x) - 1]


@ref("g4")
def _(x, p, kw):
    x1, x2, x3, x4, x5 = x
    u = 85.334407 + 0.0056858 * x2 * x5 + 0.0006262 * x1 * x4 - 0.0022053 * x3 * x5
    v = 80.51249 + 0.0071317 * x2 * x5 + 0.0029955 * x1 * x2 + 0.0021813 * x3 ** 2
    w = 9.300961 + 0.0047026 * x3 * x5 + 0.0012547 * x1 * x3 + 0.0019085 * x3 * x4
    return [5.3578547 * x3 ** 2 + 0.8356891 * x1 * x5 + 37.293239 * x1 - 40792.141], [-u, u - 92, 90 - v, v - 110, 20 - w, w - 25], []


@ref("g5")
def _(x, p, kw):
    a, b, c, d = x
    return ([3 * a + 0.000001 * a ** 3 + 2 * b + 0.000002 / 3 * b ** 3], [c - d - 0.55, d - c - 0.55],
            [1000 * sin(-c - 0.25) + 1000 * sin(-d - 0.25) + 894.8 - a, 1000 * sin(c - 0.25) + 1000 * sin(c - d - 0.25) + 894.8 - b, 1000 * sin(d - 0.25) + 1000 * sin(d - c - 0.25) + 1294.8])


@ref("g6")
def _(x, p, kw):
    a, b = x
    return [(a - 10) ** 3 + (b - 20) ** 3], [100 - (a - 5) ** 2 - (b - 5) ** 2, (a - 6) ** 2 + (b - 5) ** 2 - 82.81], []


@ref("g7")
def _(x, p, kw):
    x1, x2, x3, x4, x5, x6, x7, x8, x9, x10 = x
    f = x1 ** 2 + x2 ** 2 + x1 * x2 - 14 * x1 - 16 * x2 + (x3 - 10) ** 2 + 4 * (x4 - 5) ** 2 + (x5 - 3) ** 2 + 2 * (x6 - 1) ** 2 + 5 * x7 ** 2 + 7 * (x8 - 11) ** 2 + 2 * (x9 - 10) ** 2 + (x10 - 7) ** 2 + 45
    return [f], [-105 + 4 * x1 + 5 * x2 - 3 * x7 + 9 * x8, 10 * x1 - 8 * x2 - 17 * x7 + 2 * x8, -8 * x1 + 2 * x2 + 5 * x9 - 2 * x10 - 12, 3 * (x1 - 2) ** 2 + 4 * (x2 - 3) ** 2 + 2 * x3 ** 2 - 7 * x4 - 120,
                 5 * x1 ** 2 + 8 * x2 + (x3 - 6) ** 2 - 2 * x4 - 40, x1 ** 2 + 2 * (x2 - 2) ** 2 - 2 * x1 * x2 + 14 * x5 - 6 * x6, 0.5 * (x1 - 8) ** 2 + 2 * (x2 - 4) ** 2 + 3 * x5 ** 2 - x6 - 30,
                 -3 * x1 + 6 * x2 + 12 * (x9 - 8) ** 2 - 7 * x10], []


@ref("g8")
def _(x, p, kw):
    a, b = x
    return [-sin(2 * pi * a) ** 3 * sin(2 * pi * b) / (a ** 3 * (a + b))], [a * a - b + 1, 1 - a + (b - 4) ** 2], []


@ref("g9")
def _(x, p, kw):
    a, b, c, d, e, f, g = x
    v = (a - 10) ** 2 + 5 * (b - 12) ** 2 + c ** 4 + 3 * (d - 11) ** 2 + 10 * e ** 6 + 7 * f ** 2 + g ** 4 - 4 * f * g - 10 * f - 8 * g
    return [v], [-127 + 2 * a ** 2 + 3 * b ** 4 + c + 4 * d ** 2 + 5 * e, -282 + 7 * a + 3 * b + 10 * c ** 2 + d - e, -196 + 23 * a + b ** 2 + 6 * f ** 2 - 8 * g,
                 4 * a ** 2 + b ** 2 - 3 * a * b + 2 * c ** 2 + 5 * f - 11 * g], []


@ref("g10")
def _(x, p, kw):
    a, b, c, d, e, f, g, h = x
    return [a + b + c], [-1 + 0.0025 * (d + f), -1 + 0.0025 * (e + g - d), -1 + 0.01 * (h - e), -a * f + 833.33252 * d + 100 * a - 83333.333, -b * g + 1250 * e + b * d - 1250 * d,
                         -c * h + 1250000 + c * e - 2500 * e], []


@ref("g12")
def _(x, p, kw):
    a, b, c = x
    near = min((a - i) ** 2 + (b - j) ** 2 + (c - k) ** 2 for i in range(1, 10) for j in range(1, 10) for k in range(1, 10))
    return [-(100 - (a - 5) ** 2 - (b - 5) ** 2 - (c - 5) ** 2) / 100], [near - 0.0625], []


@ref("g13")
def _(x, p, kw):
    a, b, c, d, e = x
    return [exp(a * b * c * d * e)], [], [a * a + b * b + c * c + d * d + e * e - 10, b * c - 5 * d * e, a ** 3 + b ** 3 + 1]


@ref("g14")
def _(x, p, kw):
    c = [-6.089, -17.164, -34.054, -5.914, -24.721, -14.986, -24.1, -10.708, -26.662, -22.179]
    s = sum(x)
    x1, x2, x3, x4, x5, x6, x7, x8, x9, x10 = x
    return [sum(v * (k + log(v / s)) for v, k in zip(x, c))], [], [x1 + 2 * x2 + 2 * x3 + x6 + x10 - 2, x4 + 2 * x5 + x6 + x7 - 1, x3 + x7 + x8 + 2 * x9 + x10 - 1]


@ref("g15")
def _(x, p, kw):
    a, b, c = x
    return [1000 - a * a - 2 * b * b - c * c - a * b - a * c], [], [a * a + b * b + c * c - 25, 8 * a + 14 * b + 7 * c - 56]


@ref("g18")
def _(x, p, kw):
    x1, x2, x3, x4, x5, x6, x7, x8, x9 = x
    f = -0.5 * (x1 * x4 - x2 * x3 + x3 * x9 - x5 * x9 + x5 * x8 - x6 * x7)
    g = [x3 ** 2 + x4 ** 2 - 1, x9 ** 2 - 1, x5 ** 2 + x6 ** 2 - 1, x1 ** 2 + (x2 - x9) ** 2 - 1, (x1 - x5) ** 2 + (x2 - x6) ** 2 - 1, (x1 - x7) ** 2 + (x2 - x8) ** 2 - 1, (x3 - x5) ** 2 + (x4 - x6) ** 2 - 1,
         (x3 - x7) ** 2 + (x4 - x8) ** 2 - 1, x7 ** 2 + (x8 - x9) ** 2 - 1, x2 * x3 - x1 * x4, -x3 * x9, x5 * x9, x6 * x7 - x5 * x8]
    return [f], g, []


@ref("g21")
def _(x, p, kw):
    x1, x2, x3, x4, x5, x6, x7 = x
    return [x1], [-x1 + 35 * x2 ** 0.6 + 35 * x3 ** 0.6], [-300 * x3 + 7500 * x5 - 7500 * x6 - 25 * x4 * x5 + 25 * x4 * x6 + x3 * x4, 100 * x2 + 155.365 * x4 + 2500 * x7 - x2 * x4 - 25 * x4 * x7 - 15536.5,
                                                           -x5 + log(-x4 + 900), -x6 + log(x4 + 300), -x7 + log(-2 * x4 + 700)]


@ref("g23")
def _(x, p, kw):
    x1, x2, x3, x4, x5, x6, x7, x8, x9 = x
    return [-9 * x5 - 15 * x8 + 6 * x1 + 16 * x2 + 10 * (x6 + x7)], [x9 * x3 + 0.02 * x6 - 0.025 * x5, x9 * x4 + 0.02 * x7 - 0.015 * x8], [x1 + x2 - x3 - x4, 0.03 * x1 + 0.01 * x2 - x9 * (x3 + x4), x3 + x6 - x5, x4 + x7 - x8]


@ref("g24")
def _(x, p, kw):
    a, b = x
    return [-a - b], [-2 * a ** 4 + 8 * a ** 3 - 8 * a ** 2 + b - 2, -4 * a ** 4 + 32 * a ** 3 - 88 * a ** 2 + 96 * a + b - 36], []


# ------------------------------------------------------------------ two and three objectives

@ref("bnh")
def _(x, p, kw):
    a, b = x
    return [4 * a * a + 4 * b * b, (a - 5) ** 2 + (b - 5) ** 2], [((a - 5) ** 2 + b * b - 25) / 25, (7.7 - (a - 8) ** 2 - (b + 3) ** 2) / 7.7], []


@ref("carside")
def _(x, p, kw):
    x1, x2, x3, x4, x5, x6, x7 = x
    x8, x9 = 0.345, 0.192
    v = [(1.16 - 0.3717 * x2 * x4 - 0.0092928 * x3) / 1, (0.261 - 0.0159 * x1 * x2 - 0.188 * x1 * x8 - 0.019 * x2 * x7 + 0.0144 * x3 * x5 + 0.08045 * x6 * x9) / 0.32,
         (0.214 + 0.00817 * x5 - 0.131 * x1 * x8 - 0.0704 * x1 * x9 + 0.03099 * x2 * x6 - 0.018 * x2 * x7 + 0.0208 * x3 * x8 + 0.121 * x3 * x9 - 0.00364 * x5 * x6 - 0.018 * x2 ** 2) / 0.32,
         (0.74 - 0.61 * x2 - 0.031296 * x3 - 0.166 * x7 * x9 + 0.227 * x2 ** 2) / 0.32, (28.98 + 3.818 * x3 - 4.2 * x1 * x2 + 6.63 * x6 * x9 - 7.77 * x7 * x8) / 32,
         (33.86 + 2.95 * x3 - 5.057 * x1 * x2 - 11 * x2 * x8 - 9.98 * x7 * x8 + 22 * x8 * x9) / 32, (46.36 - 9.9 * x2 - 12.9 * x1 * x8) / 32, (4.72 - 0.5 * x4 - 0.19 * x2 * x3) / 4,
         (10.58 - 0.674 * x1 * x2 - 1.95 * x2 * x8) / 9.9, (16.45 - 0.489 * x3 * x7 - 0.843 * x5 * x6) / 15.7]
    weight = 1.98 + 4.9 * x1 + 6.67 * x2 + 6.98 * x3 + 4.01 * x4 + 1.78 * x5 + 0.00001 * x6 + 2.73 * x7
    return [weight, 4 * v[7], (9.9 * v[8] + 15.7 * v[9]) / 2], [q - 1 for q in v], []


@ref("kursawe")
def _(x, p, kw):
    return [sum(-10 * exp(-0.2 * sqrt(a * a + b * b)) for a, b in zip(x[:-1], x[1:])), sum(abs(v) ** 0.8 + 5 * sin(v ** 3) for v in x)], [], []


@ref("osy")
def _(x, p, kw):
    x1, x2, x3, x4, x5, x6 = x
    f = [-(25 * (x1 - 2) ** 2 + (x2 - 2) ** 2 + (x3 - 1) ** 2 + (x4 - 4) ** 2 + (x5 - 1) ** 2), sum(v * v for v in x)]
    c = [(x1 + x2 - 2) / 2, (6 - x1 - x2) / 6, (2 - x2 + x1) / 2, (2 - x1 + 3 * x2) / 2, (4 - (x3 - 3) ** 2 - x4) / 4, ((x5 - 3) ** 2 + x6 - 4) / 4]
    return f, [-v for v in c], []


@ref("srn")
def _(x, p, kw):
    a, b = x
    return [2 + (a - 2) ** 2 + (b - 1) ** 2, 9 * a - (b - 1) ** 2], [a * a + b * b - 225, a - 3 * b + 10], []


@ref("tnk")
def _(x, p, kw):
    a, b = x
    return [a, b], [1 + 0.1 * cos(16 * atan(a / b)) - a * a - b * b, 2 * ((a - 0.5) ** 2 + (b - 0.5) ** 2) - 1], []


@ref("truss2d")
def _(x, p, kw):
    a, b, y = x
    s = max(20 * sqrt(16 + y * y) / (y * a) if a else math.inf, 80 * sqrt(1 + y * y) / (y * b) if b else math.inf)
    return [a * sqrt(16 + y * y) + b * sqrt(1 + y * y), s], [s - 1e5], []


@ref("welded_beam")
def _(x, p, kw):
    h, l, t, b = x
    t1 = 6000 / (sqrt(2) * h * l)
    R = sqrt(0.25 * (l * l + (h + t) ** 2))
    t2 = 6000 * (14 + 0.5 * l) * R / (2 * (0.707106781186547524 * h * l * (l * l / 12 + 0.25 * (h + t) ** 2)))
    tau = sqrt(t1 ** 2 + t2 ** 2 + l * t1 * t2 / R)
    sigma, pc = 504000 / (t * t * b), 64746.022 * (1 - 0.0282346 * t) * t * b ** 3
    return [1.10471 * h * h * l + 0.04811 * t * b * (14 + l), 2.1952 / (t ** 3 * b)], [tau / 13600 - 1, sigma / 30000 - 1, (h - b) / 4.875, 1 - pc / 6000], []


@ref("omnitest")
def _(x, p, kw):
    return [sum(sin(pi * v) for v in x), sum(cos(pi * v) for v in x)], [], []


@ref("sympart", "sympartrot")
def _(x, p, kw):
    a, b, c = kw.get("length", 1), kw.get("v_dist", 10), kw.get("h_dist", 10)
    w = kw.get("angle", pi / 4) if p["name"] == "sympartrot" else 0
    u, v = cos(w) * x[0] + sin(w) * x[1], -sin(w) * x[0] + cos(w) * x[1]
    sgn = lambda q: (q > 0) - (q < 0)
    i = sgn(u) * ceil((abs(u) - (a + c / 2)) / (2 * a + c))
    j = sgn(v) * ceil((abs(v) - b / 2) / b)
    i, j = sgn(i) * min(abs(i), 1), sgn(j) * min(abs(j), 1)
    # every tile is 2a + c wide in the paper; the distance between the centres is c + 2a there and h_dist here
    return [(u - i * c + a) ** 2 + (v - j * b) ** 2, (u - i * c - a) ** 2 + (v - j * b) ** 2], [], []


@ref("zdt1", "zdt2", "zdt3", "zdt4", "zdt6")
def _(x, p, kw):
    k, n, rest = p["name"], len(x), x[1:]
    f = x[0]
    if k == "zdt4":
        g = 1 + 10 * (n - 1) + sum(v * v - 10 * cos(4 * pi * v) for v in rest)
    elif k == "zdt6":
        f = 1 - exp(-4 * x[0]) * sin(6 * pi * x[0]) ** 6
        g = 1 + 9 * (sum(rest) / (n - 1)) ** 0.25
    else:
        g = 1 + 9 * sum(rest) / (n - 1)
    h = {"zdt1": lambda: 1 - sqrt(f / g), "zdt4": lambda: 1 - sqrt(f / g), "zdt2": lambda: 1 - (f / g) ** 2, "zdt6": lambda: 1 - (f / g) ** 2, "zdt3": lambda: 1 - sqrt(f / g) - f / g * sin(10 * pi * f)}[k]()
    return [f, g * h], [], []


@ref("zdt5")
def _(x, p, kw):
    m, n, norm = kw["m"], kw["n"], kw["normalize"]
    u = [sum(1 for v in x[:30] if v > 0.5)] + [sum(1 for v in x[30 + i * n:30 + (i + 1) * n] if v > 0.5) for i in range(m - 1)]
    g = sum(2 + q if q < n else 1 for q in u[1:])
    f = 1 + u[0]
    F = [f, g / f]
    if norm:        # between the ideal and the nadir point of the front
        F = [(f - 1) / 30, (g / f - (m - 1) / 31) / ((m - 1) - (m - 1) / 31)]
    return F, [], []


# ------------------------------------------------------------------ constrained two-objective families

def ctp_g(x, kw):
    if kw.get("option") == "multimodal":
        return 1 + 10 * (len(x) - 1) + sum(v * v - 10 * cos(2 * pi * v) for v in x[1:])
    return 1 + sum(x[1:])


@ref("ctp1")
def _(x, p, kw):
    g = ctp_g(x, kw)
    f = [x[0], g * exp(-x[0] / g)]
    J, a, b, G = kw.get("n_ieq_constr", 2), [1.0], [1.0], []
    delta = 1 / (J + 1)
    X = delta
    for j in range(J):
        y = a[j] * exp(-b[j] * X)
        a.append((a[j] + y) / 2)
        b.append(-log(y / a[j + 1]) / X)
        X += delta
    return f, [a[j] * exp(-b[j] * f[0]) - f[1] for j in range(1, J + 1)], []


CTP = {"ctp2": [(-0.2, 0.2, 10, 1, 6, 1)], "ctp3": [(-0.2, 0.1, 10, 1, 0.5, 1)], "ctp4": [(-0.2, 0.75, 10, 1, 0.5, 1)], "ctp5": [(-0.2, 0.1, 10, 2, 0.5, 1)], "ctp6": [(0.1, 40, 0.5, 1, 2, -2)],
       "ctp7": [(-0.05, 40, 5, 1, 6, 0)], "ctp8": [(0.1, 40, 0.5, 1, 2, -2), (-0.05, 40, 2, 1, 6, 0)]}


@ref(*CTP)
def _(x, p, kw):
    g = ctp_g(x, kw)
    f1, f2 = x[0], g * (1 - sqrt(x[0] / g))
    G = []
    for th, a, b, c, d, e in CTP[p["name"]]:
        th *= pi
        left = cos(th) * (f2 - e) - sin(th) * f1
        inner = sin(th) * (f2 - e) + cos(th) * f1
        if c != 1 and inner < 0:
            inner = -inner if c % 2 == 0 else math.nan
        right = a * abs(sin(b * pi * inner ** c)) ** d
        G.append(1 - left / right if right else math.nan)       # left >= right, as in the code of the authors
    return [f1, f2], G, []


DIFF = [(0.25, 0, 0), (0, 0.25, 0), (0, 0, 0.25), (0.25,) * 3, (0.5, 0, 0), (0, 0.5, 0), (0, 0, 0.5), (0.5,) * 3, (0.75, 0, 0), (0, 0.75, 0), (0, 0, 0.75), (0.75,) * 3, (0, 1.0, 0), (0.5, 1.0, 0), (0, 1.0, 0.5), (0.5, 1.0, 0.5)]


@ref(*[f"dascmop{i}" for i in range(1, 10)])
def _(x, p, kw):
    k = int(p["name"][7:])
    eta, zeta, gamma = DIFF[kw["d"] - 1] if isinstance(kw["d"], int) else kw["d"]
    M, n = (2, 30) if k < 7 else (3, 30)
    if k <= 3:
        g = sum((v - sin(0.5 * pi * x[0])) ** 2 for v in x[1:])
    elif k == 9:
        g = sum((x[j - 1] - cos(0.25 * j / n * pi * (x[0] + x[1]))) ** 2 for j in range(3, n + 1))
    else:
        g = (n - M + 1) + sum((v - 0.5) ** 2 - cos(20 * pi * (v - 0.5)) for v in x[M - 1:])
    a = x[0]
    if M == 2:
        second = {1: 1 - a * a, 2: 1 - sqrt(a), 0: 1 - sqrt(a) + 0.5 * abs(sin(5 * pi * a))}[k % 3]
        F = [a + g, second + g]
    elif k == 7:
        F = [a * x[1] + g, x[1] * (1 - a) + g, 1 - x[1] + g]
    else:
        F = [cos(0.5 * pi * a) * cos(0.5 * pi * x[1]) + g, cos(0.5 * pi * a) * sin(0.5 * pi * x[1]) + g, sin(0.5 * pi * a) + g]
    b = 2 * eta - 1
    c = [sin(20 * pi * a) - b]
    if M == 3:
        c.append(cos(20 * pi * x[1]) - b)
    if zeta == 0:
        c.append(g * math.inf if g > 0 else 0.0)      # switched off: satisfied with any value
    else:
        d = 0.5
        e = d - log(zeta)
        c.append(1e-4 - abs(e - g) if zeta == 1 else (e - g) * (g - d))
    r = 0.5 * gamma
    if M == 2:
        th = -0.25 * pi
        for pk, qk in zip([0, 1, 0, 1, 2, 0, 1, 2, 3], [1.5, 0.5, 2.5, 1.5, 0.5, 3.5, 2.5, 1.5, 0.5]):
            u, v = F[0] - pk, F[1] - qk
            c.append((u * cos(th) - v * sin(th)) ** 2 / 0.3 + (u * sin(th) + v * cos(th)) ** 2 / 1.2 - r)
    else:
        for q in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1 / sqrt(3),) * 3):
            c.append(sum((f - v) ** 2 for f, v in zip(F, q)) - r ** 2)
    return F, [-v for v in c], []


@ref(*[f"mw{i}" for i in range(1, 15)])
def _(x, p, kw):
    k, M, D = int(p["name"][2:]), p["n_obj"], len(x)
    kind = {1: 1, 4: 1, 5: 1, 9: 1, 12: 1, 2: 2, 6: 2, 8: 2, 10: 2, 13: 2}.get(k, 3)
    g = 1.0
    for i in range(M, D + 1):       # counted from one
        v = x[i - 1]
        if kind == 1:
            z = v ** (D - M)
            g += 1 - exp(-10 * (z - 0.5 - (i - 1) / (2 * D)) ** 2)
        elif kind == 2:
            z = 1 - exp(-10 * (v - (i - 1) / D) ** 2)
            g += 1.5 + 0.1 / D * z * z - 1.5 * cos(2 * pi * z)
        else:
            g += 2 * (v + (x[i - 2] - 0.5) ** 2 - 1) ** 2
    a = x[0]
    if M == 2 and k not in (4, 8, 14):
        f1 = a if k <= 3 else g * a ** (D if k == 10 else 1)
        q = f1 / g
        f2 = g * {1: lambda: 1 - 0.85 * q, 2: lambda: 1 - q, 3: lambda: 1 - q, 5: lambda: sqrt(max(0, 1 - q * q)), 6: lambda: sqrt(max(0, 1.21 - q * q)), 7: lambda: sqrt(max(0, 1 - q * q)), 9: lambda: 1 - q ** 0.6,
                  10: lambda: 1 - q * q, 11: lambda: sqrt(max(0, 2 - q * q)), 12: lambda: 0.85 - 0.8 * q - 0.08 * abs(sin(3.2 * pi * q)), 13: lambda: 5 - exp(q) - abs(0.5 * sin(3 * pi * q))}[k]()
        F = [f1, f2]
        l = sqrt(2) * (f2 - f1)
        ang = atan(f2 / f1) if f1 else pi / 2
        rr = f1 ** 2 + f2 ** 2
        t = 0.5 * pi - 2 * abs(ang - 0.25 * pi)
        G = {1: lambda: [f1 + f2 - 1 - 0.5 * sin(2 * pi * l) ** 8], 2: lambda: [f1 + f2 - 1 - 0.5 * sin(3 * pi * l) ** 8],
             3: lambda: [f1 + f2 - 1.05 - 0.45 * sin(0.75 * pi * l) ** 6, 0.85 - f1 - f2 + 0.3 * sin(0.75 * pi * l) ** 2],
             5: lambda: [rr - (1.7 - 0.2 * sin(2 * ang)) ** 2, (1 + 0.5 * sin(6 * t ** 3)) ** 2 - rr, (1 - 0.45 * sin(6 * t ** 3)) ** 2 - rr],
             6: lambda: [(f1 / (1 + 0.15 * cos(6 * ang ** 4) ** 10)) ** 2 + (f2 / (1 + 0.75 * cos(6 * ang ** 4) ** 10)) ** 2 - 1],
             7: lambda: [rr - (1.2 + abs(0.4 * sin(4 * ang) ** 16)) ** 2, (1.15 - 0.2 * sin(4 * ang) ** 8) ** 2 - rr],
             9: lambda: [min((1 - 0.64 * f1 ** 2 - f2) * (1 - 0.36 * f1 ** 2 - f2), (1.35 ** 2 - (f1 + 0.35) ** 2 - f2) * (1.15 ** 2 - (f1 + 0.15) ** 2 - f2))],
             10: lambda: [-(2 - 4 * f1 ** 2 - f2) * (2 - 8 * f1 ** 2 - f2), (2 - 2 * f1 ** 2 - f2) * (2 - 16 * f1 ** 2 - f2), (1 - f1 ** 2 - f2) * (1.2 - 1.2 * f1 ** 2 - f2)],
             11: lambda: [-(3 - f1 ** 2 - f2) * (3 - 2 * f1 ** 2 - f2), (3 - 0.625 * f1 ** 2 - f2) * (3 - 7 * f1 ** 2 - f2), -(1.62 - 0.18 * f1 ** 2 - f2) * (1.125 - 0.125 * f1 ** 2 - f2),
                          (2.07 - 0.23 * f1 ** 2 - f2) * (0.63 - 0.07 * f1 ** 2 - f2)],
             12: lambda: [-(1 - 0.625 * f1 - f2 + 0.08 * sin(2 * pi * (f2 - f1 / 1.6))) * (1.4 - 0.875 * f1 - f2 + 0.08 * sin(2 * pi * (f2 / 1.4 - f1 / 1.6))),
                          (1 - 0.8 * f1 - f2 + 0.08 * sin(2 * pi * (f2 - f1 / 1.5))) * (1.8 - 1.125 * f1 - f2 + 0.08 * sin(2 * pi * (f2 / 1.8 - f1 / 1.6)))],
             13: lambda: [-(5 - (1 + f1 + 0.5 * f1 ** 2) - 0.5 * sin(3 * pi * f1) - f2) * (5 - (1 + 0.7 * f1) - 0.5 * sin(3 * pi * f1) - f2),
                          (5 - exp(f1) - 0.5 * sin(3 * pi * f1) - f2) * (5 - (1 + 0.4 * f1) - 0.5 * sin(3 * pi * f1) - f2)]}[k]()
        return F, G, []
    if k == 4:
        F = [g * prod(1 - v for v in x[:M - 1 - m]) * (x[M - 1 - m] if m else 1) for m in range(M)]
        l = F[-1] - sum(F[:-1])
        return F, [sum(F) - 1 - 0.4 * sin(2.5 * pi * l) ** 8], []
    if k == 8:
        F = [g * prod(cos(0.5 * pi * v) for v in x[:M - 1 - m]) * (sin(0.5 * pi * x[M - 1 - m]) if m else 1) for m in range(M)]
        s = sum(f * f for f in F)
        return F, [s - (1.25 - 0.5 * sin(6 * asin(min(1.0, F[-1] / sqrt(s)))) ** 2) ** 2], []
    F = x[:M - 1]
    F = F + [g / (M - 1) * sum(6 - exp(f) - 1.5 * sin(1.1 * pi * f * f) for f in F)]
    return F, [F[-1] - sum(6.1 - (1 + f + 0.5 * f * f + 1.5 * sin(1.1 * pi * f * f)) for f in F[:-1]) / (M - 1)], []


# ------------------------------------------------------------------ DTLZ and its constrained relatives

def dtlz(k, x, M, alpha=100):
    xm = x[M - 1:]
    if k in (1, 3):
        g = 100 * (len(xm) + sum((v - 0.5) ** 2 - cos(20 * pi * (v - 0.5)) for v in xm))
    elif k in (2, 4, 5):
        g = sum((v - 0.5) ** 2 for v in xm)
    elif k == 6:
        g = sum(v ** 0.1 for v in xm)
    else:
        g = 1 + 9 / len(xm) * sum(xm)
        F = list(x[:M - 1])
        return F + [(1 + g) * (M - sum(f / (1 + g) * (1 + sin(3 * pi * f)) for f in F))], g
    if k == 1:
        return [0.5 * (1 + g) * prod(x[:M - 1 - m]) * ((1 - x[M - 1 - m]) if m else 1) for m in range(M)], g
    pos = [v ** alpha for v in x[:M - 1]] if k == 4 else list(x[:M - 1])
    if k in (5, 6):
        pos = pos[:1] + [(1 + 2 * g * v) / (2 * (1 + g)) for v in pos[1:]]
    th = [0.5 * pi * v for v in pos]
    return [(1 + g) * prod(cos(t) for t in th[:M - 1 - m]) * (sin(th[M - 1 - m]) if m else 1) for m in range(M)], g


@ref(*[f"dtlz{i}" for i in range(1, 8)])
def _(x, p, kw):
    return dtlz(int(p["name"][4:]), x, p["n_obj"], kw.get("alpha", 100))[0], [], []


@ref("dtlz1^-1")
def _(x, p, kw):
    F, g = dtlz(1, x, p["n_obj"])
    return [0.5 * (1 + g) - f for f in F], [], []


@ref("convex_dtlz2", "convex_dtlz4")
def _(x, p, kw):
    F, _ = dtlz(int(p["name"][-1]), x, p["n_obj"])
    return [f ** 4 for f in F[:-1]] + [F[-1] ** 2], [], []


@ref("sdtlz1")
def _(x, p, kw):
    F, _ = dtlz(1, x, p["n_obj"])
    return [f * float(kw.get("scale_factor", 10)) ** i for i, f in enumerate(F)], [], []


@ref("c1dtlz1")
def _(x, p, kw):
    F, _ = dtlz(1, x, p["n_obj"])
    return F, [F[-1] / 0.6 + sum(f / 0.5 for f in F[:-1]) - 1], []


@ref("c1dtlz3")
def _(x, p, kw):
    F, _ = dtlz(3, x, p["n_obj"])
    r, s = kw.get("r", 9 if p["n_obj"] < 5 else 12.5), sum(f * f for f in F)
    return F, [-(s - 16) * (s - r * r)], []


@ref("c2dtlz2")
def _(x, p, kw):
    F, _ = dtlz(2, x, p["n_obj"])
    M, s = len(F), sum(f * f for f in F)
    r = kw.get("r", {2: 0.2, 3: 0.4}.get(M, 0.5))
    return F, [min(min((f - 1) ** 2 + s - f * f - r * r for f in F), sum((f - 1 / sqrt(M)) ** 2 for f in F) - r * r)], []


@ref("c3dtlz1")
def _(x, p, kw):
    F, _ = dtlz(1, x, p["n_obj"])
    return F, [1 - f / 0.5 - sum(F[:j] + F[j + 1:]) for j, f in enumerate(F)], []


@ref("c3dtlz4")
def _(x, p, kw):
    F, _ = dtlz(4, x, p["n_obj"])
    return F, [1 - f * f / 4 - sum(q * q for q in F[:j] + F[j + 1:]) for j, f in enumerate(F)], []


@ref("dc1dtlz1", "dc1dtlz3", "dc2dtlz1", "dc2dtlz3", "dc3dtlz1", "dc3dtlz3")
def _(x, p, kw):
    kind, M = p["name"][2], p["n_obj"]
    F, g = dtlz(int(p["name"][-1]), x, M)
    if kind == "1":
        return F, [0.95 - cos(5 * pi * x[0])], []
    if kind == "2":
        return F, [0.9 - cos(3 * pi * g / 100), 0.9 - exp(-g / 100)], []  # (shipped variant: without the factor 100 in g)
    return F, [0.5 - cos(5 * pi * g)] + [0.5 - cos(5 * pi * v) for v in x[:M - 1]], []


# ------------------------------------------------------------------ WFG toolkit

def s_linear(y, A):
    return abs(y - A) / abs(floor(A - y) + A)


def s_multi(y, A, B, C):
    q = abs(y - C) / (2 * (floor(C - y) + C))
    return (1 + cos((4 * A + 2) * pi * (0.5 - q)) + 4 * B * q * q) / (B + 2)


def s_decept(y, A, B, C):
    return 1 + (abs(y - A) - B) * (floor(y - A + B) * (1 - C + (A - B) / B) / (A - B) + floor(A + B - y) * (1 - C + (1 - A - B) / B) / (1 - A - B) + 1 / B)


def b_flat(y, A, B, C):
    return A + min(0, floor(y - B)) * A * (B - y) / B - min(0, floor(C - y)) * (1 - A) * (y - C) / (1 - C)


def b_param(y, u, A, B, C):
    return y ** (B + (C - B) * (A - (1 - 2 * u) * abs(floor(0.5 - u) + A)))


def r_sum(y, w=None):
    w = w or [1.0] * len(y)
    return sum(a * b for a, b in zip(y, w)) / sum(w)


def r_nonsep(y, A):
    n = len(y)
    return sum(y[j] + sum(abs(y[j] - y[(j + k + 1) % n]) for k in range(A - 1)) for j in range(n)) / (n / A * ceil(A / 2) * (1 + 2 * A - 2 * ceil(A / 2)))


@ref(*[f"wfg{i}" for i in range(1, 10)])
def _(z, p, kw):
    num, M, n, k = int(p["name"][3:]), p["n_obj"], len(z), kw["k"]
    y = [min(1.0, v / (2 * (i + 1))) for i, v in enumerate(z)]
    clip = lambda y: [0.0 if -1e-10 <= v < 0 else 1.0 if 1 < v <= 1 + 1e-10 else v for v in y]
    gap = k // (M - 1)
    groups = [list(range(m * gap, (m + 1) * gap)) for m in range(M - 1)]
    if num == 7:
        y = clip([b_param(v, r_sum(y[i + 1:]), 0.98 / 49.98, 0.02, 50) if i < k else v for i, v in enumerate(y)])
    if num == 8:
        y = clip([b_param(v, r_sum(y[:i]), 0.98 / 49.98, 0.02, 50) if i >= k else v for i, v in enumerate(y)])
    if num == 9:
        y = clip([b_param(v, r_sum(y[i + 1:]), 0.98 / 49.98, 0.02, 50) if i < n - 1 else v for i, v in enumerate(y)])
        y = clip([s_decept(v, 0.35, 0.001, 0.05) if i < k else s_multi(v, 30, 95, 0.35) for i, v in enumerate(y)])
    if num in (1, 2, 3, 6, 7, 8):
        y = clip([s_linear(v, 0.35) if i >= k else v for i, v in enumerate(y)])
    if num == 4:
        y = clip([s_multi(v, 30, 10, 0.35) for v in y])
    if num == 5:
        y = clip([s_decept(v, 0.35, 0.001, 0.05) for v in y])
    if num == 1:
        y = clip([b_flat(v, 0.8, 0.75, 0.85) if i >= k else v for i, v in enumerate(y)])
        y = clip([v ** 0.02 for v in y])
        w = [2.0 * (i + 1) for i in range(n)]
        t = [r_sum([y[i] for i in gr], [w[i] for i in gr]) for gr in groups] + [r_sum(y[k:], w[k:])]
    elif num in (2, 3):
        y = clip(y[:k] + [r_nonsep(y[k + 2 * i:k + 2 * i + 2], 2) for i in range((n - k) // 2)])
        t = [r_sum([y[i] for i in gr]) for gr in groups] + [r_sum(y[k:])]
    elif num in (6, 9):
        t = [r_nonsep([y[i] for i in gr], gap) for gr in groups] + [r_nonsep(y[k:], n - k)]
    else:
        t = [r_sum([y[i] for i in gr]) for gr in groups] + [r_sum(y[k:])]
    t = clip(t)
    A = [1] + [0 if num == 3 else 1] * (M - 2)
    x = [max(t[-1], A[i]) * (t[i] - 0.5) + 0.5 for i in range(M - 1)] + [t[-1]]
    if num in (1, 2):
        h = [prod(1 - cos(0.5 * pi * v) for v in x[:M - 1 - m]) * ((1 - sin(0.5 * pi * x[M - 1 - m])) if m else 1) for m in range(M - 1)]
        h.append(1 - x[0] - cos(10 * pi * x[0] + pi / 2) / (10 * pi) if num == 1 else 1 - x[0] * cos(5 * pi * x[0]) ** 2)
    elif num == 3:
        h = [prod(x[:M - 1 - m]) * ((1 - x[M - 1 - m]) if m else 1) for m in range(M)]
    else:
        h = [prod(sin(0.5 * pi * v) for v in x[:M - 1 - m]) * (cos(0.5 * pi * x[M - 1 - m]) if m else 1) for m in range(M)]
    return [x[-1] + 2 * (m + 1) * h[m] for m in range(M)], [], []


# ------------------------------------------------------------------ dynamic problems (time t = floor(tau / taut) / nt)

@ref(*[f"df{i}" for i in range(1, 15)])
def _(x, p, kw):
    k, t, n = int(p["name"][2:]), p["t"], len(x)
    s = sin(0.5 * pi * t)
    a0, rest = x[0], x[1:]
    if k == 1:
        H = 0.75 * s + 1.25
        g = 1 + sum((v - abs(s)) ** 2 for v in rest)
        return [a0, g * (1 - (a0 / g) ** H)], [], []
    if k == 2:
        r = floor((n - 1) * abs(s))
        g = 1 + sum((v - abs(s)) ** 2 for i, v in enumerate(x) if i != r)
        return [x[r], g * (1 - sqrt(x[r] / g))], [], []
    if k == 3:
        H = s + 1.5
        g = 1 + sum((v - s - a0 ** H) ** 2 for v in rest)
        return [a0, g * (1 - (a0 / g) ** H)], [], []
    if k == 4:
        b = 1 + abs(cos(0.5 * pi * t))
        c, H = max(abs(s), s + b), 1.5 + s
        g = 1 + sum((x[i - 1] - s * (a0 / c) ** 2 / i) ** 2 for i in range(2, n + 1))
        return [g * abs(a0 - s) ** H, g * abs(a0 - s - b) ** H], [], []
    if k == 5:
        w = floor(10 * s)
        g = 1 + sum((v - s) ** 2 for v in rest)
        return [g * (a0 + 0.02 * sin(w * pi * a0)), g * (1 - a0 + 0.02 * sin(w * pi * a0))], [], []
    if k == 6:
        a = 0.2 + 2.8 * abs(s)
        g = 1 + sum(abs(s) * (v - s) ** 2 - 10 * cos(2 * pi * (v - s)) + 10 for v in rest)
        return [g * (a0 + 0.1 * sin(3 * pi * a0)) ** a, g * (1 - a0 + 0.1 * sin(3 * pi * a0)) ** a], [], []
    if k == 7:
        a = 5 * cos(0.5 * pi * t)
        g = 1 + sum((v - 1 / (1 + exp(a * (a0 - 2.5)))) ** 2 for v in rest)
        return [g * (1 + t) / a0, g * a0 / (1 + t)], [], []
    if k == 8:
        a = 2.25 + 2 * cos(2 * pi * t)
        g = 1 + sum((v - s * sin(4 * pi * a0) / (1 + abs(s))) ** 2 for v in rest)
        return [g * (a0 + 0.1 * sin(3 * pi * a0)), g * (1 - a0 + 0.1 * sin(3 * pi * a0)) ** a], [], []
    if k == 9:
        N = 1 + floor(10 * abs(s))
        g = 1 + sum((x[i] - cos(4 * t + a0 + x[i - 1])) ** 2 for i in range(1, n))
        m = max(0, (0.1 + 0.5 / N) * sin(2 * N * pi * a0))
        return [g * (a0 + m), g * (1 - a0 + m)], [], []
    b0, xs = x[1], x[2:]
    S, C = (lambda v: sin(0.5 * pi * v)), (lambda v: cos(0.5 * pi * v))
    if k == 10:
        H = 2.25 + 2 * cos(0.5 * pi * t)
        g = 1 + sum((v - sin(4 * pi * (a0 + b0)) / (1 + abs(s))) ** 2 for v in xs)
        return [g * S(a0) ** H, g * (S(b0) * C(a0)) ** H, g * (C(b0) * C(a0)) ** H], [], []
    if k == 11:
        G = abs(s)
        g = 1 + G + sum((v - 0.5 * G * a0) ** 2 for v in xs)
        y = [pi * G / 6 + (pi / 2 - pi * G / 3) * v for v in (a0, b0)]
        return [g * sin(y[0]), g * sin(y[1]) * cos(y[0]), g * cos(y[1]) * cos(y[0])], [], []
    if k == 12:
        q = 10 * sin(pi * t)
        g = 1 + sum((v - sin(t * a0)) ** 2 for v in xs) + prod(abs(sin(floor(q * (2 * v - 1)) * pi / 2)) for v in (a0, b0))
        return [g * C(b0) * C(a0), g * S(b0) * C(a0), g * S(a0)], [], []
    g = 1 + sum((v - s) ** 2 for v in xs)
    if k == 13:
        q = floor(6 * s)
        return [g * C(a0) ** 2, g * C(b0) ** 2, g * sum(S(v) ** 2 + S(v) * cos(q * pi * v) ** 2 for v in (a0, b0))], [], []
    y = 0.5 + s * (a0 - 0.5)
    wav = lambda v: 0.05 * sin(6 * pi * v)
    return [g * (1 - y + wav(y)), g * (1 - b0 + wav(b0)) * (y + wav(y)), g * (b0 + wav(b0)) * (y + wav(y))], [], []


# ------------------------------------------------------------------ combinatorial (the instance is part of `p`)

@ref("knapsack", "mknapsack")
def _(x, p, kw):
    P, W, C = p["instance"]
    chosen = [i for i, v in enumerate(x) if v > 0.5]
    profit, weight = sum(P[i] for i in chosen), sum(W[i] for i in chosen)
    return ([-profit] if p["name"] == "knapsack" else [-profit, len(chosen)]), [weight - C], []


@ref("tsp")
def _(x, p, kw):
    c, order = p["instance"], [int(v) for v in x]
    return [sum(math.dist(c[a], c[b]) for a, b in zip(order, order[1:] + order[:1]))], [], []


@ref("flowshop")
def _(x, p, kw):
    T = p["instance"]
    done = [0.0] * len(T)
    for job in (int(v) for v in x):
        for m in range(len(T)):
            done[m] = max(done[m], done[m - 1] if m else 0.0) + T[m][job]
    return [done[-1]], [], []


# ------------------------------------------------------------------ dynamic problems of the CEC 2015 collection (as shipped: without the variables' own boxes)

@ref("cec:FDA4", "cec:FDA5")
def _(x, p, kw):
    s = sin(0.5 * pi * p["t"])
    G = abs(s)
    g, y = sum((v - G) ** 2 for v in x[2:]), x[:2]
    if p["name"] == "cec:FDA5":
        g, y = g + G, [v ** (1 + 100 * s ** 4) for v in y]
    c, d = (lambda v: cos(0.5 * pi * v)), (lambda v: sin(0.5 * pi * v))
    return [(1 + g) * c(y[0]) * c(y[1]), (1 + g) * c(y[0]) * d(y[1]), (1 + g) * d(y[0])], [], []


@ref("cec:FDA2DEB")
def _(x, p, kw):
    H = 2 * sin(0.5 * pi * (p["t"] - 1))
    g = 1 + sum(v * v for v in x[1:6])
    return [x[0], g * (1 - (x[0] / g) ** (2 ** (H + sum((v - H / 4) ** 2 for v in x[6:13]))))], [], []


@ref("cec:DIMP2")
def _(x, p, kw):
    n, g = len(x), 1 + 2 * (len(x) - 1)
    for i in range(2, n + 1):
        y = x[i - 1] - sin((0.5 * pi * p["t"] + 2 * pi * i / (n + 1)) ** 2)
        g += y * y - 2 * cos(3 * pi * y)
    return [x[0], g * (1 - sqrt(x[0] / g))], [], []


@ref("cec:dMOP2", "cec:HE2")
def _(x, p, kw):
    s, f = sin(0.5 * pi * p["t"]), x[0]
    H = 0.75 * s + 1.25
    if p["name"] == "cec:dMOP2":
        g = 1 + 9 * sum((v - s) ** 2 for v in x[1:])
        return [f, g * (1 - (f / g) ** H)], [], []
    g = 1 + 9 * sum(x[1:]) / (len(x) - 1)
    return [f, g * (1 - sqrt(f / g) ** H - (f / g) ** H * sin(10 * pi * f))], [], []


@ref("cec:HE7", "cec:HE9")
def _(x, p, kw):
    H, n, a = 0.75 * sin(0.5 * pi * p["t"]) + 1.25, len(x), x[0]

    def mean(start, wave):
        ks = range(start, n, 2)
        out = 0.0
        for k in ks:
            ang = 6 * pi * a + k * pi / n
            y = x[k] - (sin(ang) if p["name"] == "cec:HE9" else (0.3 * a * a * cos(4 * ang) + 0.6 * a) * wave(ang))
            out += y * y
        return 2 * out / len(ks)

    f = a + mean(2, cos)
    g = mean(1, sin) + 2 - (a * a if p["name"] == "cec:HE9" else sqrt(a))
    return [f, g * (1 - (f / g) ** H)], [], []


@ref("g11")
def _(x, p, kw):
    return [x[0] ** 2 + (x[1] - 1) ** 2], None, None


@ref("g16")
def _(x, p, kw):
    a, b, c, d, e = x
    y, k = {}, {}
    y[1] = b + c + 41.6
    k[1] = 0.024 * d - 4.62
    y[2] = 12.5 / k[1] + 12
    k[2] = 0.0003535 * a * a + 0.5311 * a + 0.08705 * y[2] * a
    k[3] = 0.052 * a + 78 + 0.002377 * y[2] * a
    y[3] = k[2] / k[3]
    y[4] = 19 * y[3]
    k[4] = 0.04782 * (a - y[3]) + 0.1956 * (a - y[3]) ** 2 / b + 0.6376 * y[4] + 1.594 * y[3]
    k[6] = a - y[3] - y[4]
    y[5] = k[6] * (0.95 - k[4] / (100 * b))
    y[6] = a - y[5] - y[4] - y[3]
    k[8] = (y[5] + y[4]) * 0.995
    y[7], y[8] = k[8] / y[1], k[8] / 3798
    y[9] = 96.82 / (y[7] - 0.0663 * y[7] / y[8] - 0.3153) + 0.321 * y[1]
    y[10] = 1.29 * y[5] + 1.258 * y[4] + 2.29 * y[3] + 1.71 * y[6]
    y[11] = 1.71 * a - 0.452 * y[4] + 0.58 * y[3]
    k[12] = 0.995 * y[10] + 1998
    y[12] = 12.3 / 752.3 * a + 1.75 * y[2] * 0.995 * a / k[12]
    y[13] = k[12] - 1.75 * y[2]
    y[14] = 3623 + 64.4 * b + 58.4 * c + 146312 / (y[9] + e)
    y[15] = y[13] / (0.995 * y[10] + 60.8 * b + 48 * d - 0.1121 * y[14] - 5095)
    y[16] = 148000 - 331000 * y[15] + 40 * y[13] - 61 * y[15] * y[13]
    y[17] = 14130000 - 1328 * y[10] - 531 * y[11] + (2324 * y[10] - 28740000 * y[2]) / k[12]
    k[15] = y[13] / y[15] - y[13] / 0.52
    k[16] = 1.104 - 0.72 * y[15]
    f = 0.000117 * y[14] + 0.1365 + 0.00002358 * y[13] + 0.000001502 * y[16] + 0.0321 * y[12] + 0.004324 * y[5] + 0.0001 * k[15] / k[16] + 37.48 * y[2] / k[12] - 0.0000005843 * y[17]
    box = [(213.1, 405.23), (17.505, 1053.6667), (11.275, 35.03), (214.228, 665.585), (7.458, 584.463), (0.961, 265.916), (1.612, 7.046), (0.146, 0.222), (107.99, 273.366), (922.693, 1286.105), (926.832, 1444.046),
           (18.766, 537.141), (1072.163, 3247.039), (8961.448, 26844.086), (0.063, 0.386), (71084.33, 140000), (2802713, 12146108)]
    G = [0.28 / 0.72 * y[5] - y[4], c - 1.5 * b, 3496 * y[2] / k[12] - 21, 110.6 + y[1] - 62212 / (y[9] + e)]
    for i, (lo, hi) in enumerate(box):
        G += [lo - y[i + 1], y[i + 1] - hi]
    return [f], G, []


@ref("g17")
def _(x, p, kw):
    f = (30 if x[0] < 300 else 31) * x[0] + (28 if x[1] < 100 else 29 if x[1] < 200 else 30) * x[1]
    q, r = x[2] * x[3] / 131.078, 0.90798 / 131.078
    A, B = 1.48477, 1.47588
    return [f], [], [300 - x[0] - q * cos(A - x[5]) + r * x[2] ** 2 * cos(B), -x[1] - q * cos(A + x[5]) + r * x[3] ** 2 * cos(B),
                     -x[4] - q * sin(A + x[5]) + r * x[3] ** 2 * sin(B), 200 - q * sin(A - x[5]) + r * x[2] ** 2 * sin(B)]


@ref("g19")
def _(x, p, kw):
    A = [(-16, 2, 0, 1, 0), (0, -2, 0, .4, 2), (-3.5, 0, 2, 0, 0), (0, -2, 0, -4, -1), (0, -9, -2, 1, -2.8), (2, 0, -4, 0, 0), (-1, -1, -1, -1, -1), (-1, -2, -3, -2, -1), (1, 2, 3, 4, 5), (1, 1, 1, 1, 1)]
    b = [-40, -2, -.25, -4, -4, -1, -40, -60, 5, 1]
    C = [(30, -20, -10, 32, -10), (-20, 39, -6, -31, 32), (-10, -6, 10, -6, -10), (32, -31, -6, 39, -20), (-10, 32, -10, -20, 30)]
    d, e = [4, 8, 10, 6, 2], [-15, -27, -36, -18, -12]
    u, v = x[:10], x[10:]
    f = sum(C[i][j] * v[i] * v[j] for i in range(5) for j in range(5)) + 2 * sum(d[j] * v[j] ** 3 for j in range(5)) - sum(s * t for s, t in zip(b, u))
    return [f], [-2 * sum(C[i][j] * v[i] for i in range(5)) - 3 * d[j] * v[j] ** 2 - e[j] + sum(A[i][j] * u[i] for i in range(10)) for j in range(5)], []


@ref("g20")
def _(x, p, kw):
    a = [.0693, .0577, .05, .2, .26, .55, .06, .1, .12, .18, .1, .09]
    b = [44.094, 58.12, 58.12, 137.4, 120.9, 170.9, 62.501, 84.94, 133.425, 82.507, 46.07, 60.097]
    c = [123.7, 31.7, 45.7, 14.7, 84.7, 27.7, 49.7, 7.1, 2.1, 17.7, .85, .64]
    d = [31.244, 36.12, 34.784, 92.7, 82.7, 91.6, 56.708, 82.7, 80.8, 64.517, 49.4, 49.1]
    e = [.1, .3, .4, .3, .6, .3]
    S = sum(x)
    first, last = sum(x[i] / b[i] for i in range(12)), sum(x[i + 12] / b[i] for i in range(12))
    G = [(x[i] + x[i + 12]) / (S + e[i]) for i in range(3)] + [(x[i + 3] + x[i + 15]) / (S + e[i]) for i in range(3, 6)]
    H = [x[i + 12] / (b[i] * last) - c[i] * x[i] / (40 * b[i] * first) for i in range(12)]
    return [sum(a[i % 12] * v for i, v in enumerate(x))], G, H + [S - 1, sum(x[i] / d[i] for i in range(12)) + .7302 * 530 * 14.7 / 40 * last - 1.671]


@ref("g22")
def _(x, p, kw):
    x = [None] + list(x)
    q = 1e5
    H = [x[5] - q * x[8] + 1e7, x[6] + q * x[8] - q * x[9], x[7] + q * x[9] - 5e7, x[5] + q * x[10] - 3.3e7, x[6] + q * x[11] - 4.4e7, x[7] + q * x[12] - 6.6e7,
         x[5] - 120 * x[2] * x[13], x[6] - 80 * x[3] * x[14], x[7] - 40 * x[4] * x[15], x[8] - x[11] + x[16], x[9] - x[12] + x[17],
         -x[18] + log(x[10] - 100), -x[19] + log(300 - x[8]), -x[20] + log(x[16]), -x[21] + log(400 - x[9]), -x[22] + log(x[17]),
         -x[8] - x[10] + x[13] * x[18] - x[13] * x[19] + 400, x[8] - x[9] - x[11] + x[14] * x[20] - x[14] * x[21] + 400, x[9] - x[12] - 4.60517 * x[15] + x[15] * x[22] + 100]
    return [x[1]], [-x[1] + x[2] ** .6 + x[3] ** .6 + x[4] ** .6], H


# ------------------------------------------------------------------ ZCAT (Zapotecas-Martinez et al.), as shipped

def _zs(v): return sin(v * pi / 2)
def _zc(v): return cos(v * pi / 2)
def _wave(v, k): return (cos((2 * k - 1) * v * pi) + 2 * v + 4 * k * (1 - v) - 1) / (4 * k)


def _ladder(y, M, head, tail, join):
    """f_1 joins all of y_1..y_{M-1}; f_j joins the first M-j by `head` and the next one by `tail`."""
    return [join([head(v) for v in y[:M - 1]])] + [join([head(v) for v in y[:M - j]] + [tail(y[M - j])]) for j in range(2, M)]


def zcat_shape(k, y, M):
    a, r = y[0], y[:M - 1]
    mean = lambda v: sum(v) / len(v)
    five = lambda v: (0.5 - v) ** 5 / (2 * 0.5 ** 5)
    grow = lambda v: (exp(8 * v) - 1) / (exp(8) - 1)
    within = lambda lo, hi, vs: all(lo <= v <= hi for v in vs)
    if k == 1:
        return _ladder(y, M, _zs, _zc, prod) + [1 - _zs(a)]
    if k == 2:
        return _ladder(y, M, lambda v: 1 - _zc(v), lambda v: 1 - _zs(v), prod) + [1 - _zs(a)]
    if k == 3:
        return _ladder(y, M, lambda v: v, lambda v: 1 - v, mean) + [1 - a]
    if k == 4:
        return r + [1 - mean(r)]
    if k == 5:
        return r + [grow(mean([1 - v for v in r]))]
    if k == 6:
        s = lambda v: 1 / (1 + exp(v))
        m = mean(r)
        return r + [(s(80 * m - 40) - 0.05 * m - s(40) + 0.05) / (s(-40) - s(40) + 0.05)]
    if k == 7:
        return r + [mean([five(v) for v in r]) + 0.5]
    if k == 8:
        return _ladder(y, M, lambda v: 1 - _zs(v), lambda v: 1 - _zc(v), lambda q: 1 - prod(q)) + [_zc(a)]
    if k == 9:
        return _ladder(y, M, _zs, _zc, mean) + [_zc(a)]
    if k == 10:
        return r + [(1 / 0.02 - 1 / (mean([1 - v for v in r]) + 0.02)) / (1 / 0.02 - 1 / 1.02)]
    if k == 11:
        return _ladder(y, M, lambda v: v, lambda v: 1 - v, mean) + [_wave(a, 4)]
    if k == 12:
        return _ladder(y, M, lambda v: 1 - v, lambda v: v, lambda q: 1 - prod(q)) + [_wave(a, 3)]
    if k == 13:
        return _ladder(y, M, _zs, _zc, lambda q: 1 - mean(q)) + [1 - _wave(a, 3)]
    if k in (14, 16):
        e = 2 if k == 14 else 1
        f = [_zs(a) ** e] + [_zs(a) ** (e + (j - 1) / (M - 2)) for j in range(2, M - 1)]
        if M > 2:
            f.append(0.5 * (1 + sin((3 if k == 14 else 5) * pi * a - pi / 2)))
        return f + [_zc(a) if k == 14 else _wave(a, 5)]
    if k == 15:
        return [a ** (1 + (j - 1) / (4 * M)) for j in range(1, M)] + [_wave(a, 3)]
    if k == 17:
        return [a] * (M - 1) + [grow(1 - a)] if within(0, 0.5, r) else zcat_shape(5, y, M)
    if k == 18:
        return [a] * (M - 1) + [five(a) + 0.5] if within(0, 0.4, r) or within(0.6, 1, r) else zcat_shape(7, y, M)
    if k == 19:
        flat = within(0, 0.2, [a]) or within(0.4, 0.6, [a])
        q = [a] * (M - 1) if flat else r
        m = a if flat else mean(r)
        return q + [1 - m - cos(10 * pi * m + pi / 2) / (10 * pi)]
    flat = within(0.1, 0.4, [a]) or within(0.6, 0.9, [a])
    return [a] * (M - 1) + [five(a) + 0.5] if flat else zcat_shape(7, y, M)


def zcat_set(k, y, size):
    """The position of the Pareto set in the remaining variables."""
    m, out = len(y), []
    mu, mean = sum(y) / m, (lambda q: sum(q) / m)
    for j in range(size):
        t = 2 * pi * j / size
        if k == 1:
            g = mean([sin(1.5 * pi * v + t) for v in y]) / 2 + 0.5
        elif k == 2:
            g = mean([v * v * sin(4.5 * pi * v + t) for v in y]) / 2 + 0.5
        elif k == 3:
            g = mean([cos(pi * v + t) ** 2 for v in y])
        elif k == 4:
            g = mu / 2 * cos(4 * pi * mu + t) + 0.5
        elif k == 5:
            g = mean([sin(2 * pi * v - 1 + t) ** 3 for v in y]) / 2 + 0.5
        elif k == 6:
            g = (10 - 10 * exp(-0.4 * sqrt(mean([v * v for v in y]))) + math.e - exp(mean([cos(11 * pi * v + t) ** 3 for v in y]))) / (10 - 10 * exp(-0.4) + math.e - exp(-1))
        elif k == 7:
            g = (mu + exp(sin(7 * pi * mu - pi / 2 + t)) - exp(-1)) / (1 + math.e - exp(-1))
        elif k == 8:
            g = mean([abs(sin(2.5 * pi * (v - 0.5) + t)) for v in y])
        elif k == 9:
            g = mu / 2 - mean([abs(sin(2.5 * pi * v - pi / 2 + t)) for v in y]) / 2 + 0.5
        else:
            g = mean([sin((4 * v - 2) * pi + t) for v in y]) ** 3 / 2 + 0.5
        out.append(g)
    return out


def zcat_distance(level, w):
    n, biggest = len(w), max(abs(v) for v in w)
    if level == 1:
        return 10 * sum(v * v for v in w) / n
    if level == 2:
        return 10 * biggest
    third = 10 * sum((v * v - cos(9 * pi * v) + 1) / 3 for v in w) / n
    fourth = 10 / (2 * math.e - 2) * (exp(sqrt(biggest)) - exp(sum((cos(9 * pi * v) + 1) / 2 for v in w) / n) - 1 + math.e)
    if level in (3, 4):
        return third if level == 3 else fourth
    if level == 5:
        return 10 * sum(abs(v) ** 0.002 for v in w) / n - 0.7 * third
    return 10 * (sum(abs(v) for v in w) / n) ** 0.002 - 0.7 * fourth


@ref(*[f"zcat{i}" for i in range(1, 21)])
def _(x, p, kw):
    k, M, n = int(p["name"][4:]), p["n_obj"], p["n_var"]
    y = [v / (i + 1) + 0.5 for i, v in enumerate(x)]
    one = k in (14, 15, 16) or (k == 19 and (y[0] <= 0.2 or 0.4 <= y[0] <= 0.6)) or (k == 20 and (0.1 <= y[0] <= 0.4 or 0.6 <= y[0] <= 0.9))
    m = 1 if one else M - 1
    F = [(i + 1) ** 2 * v for i, v in enumerate(zcat_shape(k, y, M))]
    if n == m:
        return F, [], []
    which = [4, 5, 2, 7, 9, 4, 5, 2, 7, 9, 3, 10, 1, 6, 8, 10, 1, 8, 6, 3][k - 1]
    at = zcat_set(which, y[:m], n - m) if kw.get("complicated_pareto_set") else [0.221] * (n - m)
    z = [v - g for v, g in zip(y[m:], at)]
    if kw.get("bias"):
        z = [abs(v) ** 0.05 for v in z]
    for i in range(1, M + 1):
        group = z[i - 1::M] or z[:1]
        level = (4 if i % 2 == 0 else 1) if kw.get("imbalance") else kw.get("level", 1)
        F[i - 1] += i * i * zcat_distance(level, group)
    return F, [], []


# ------------------------------------------------------------------ engineering designs

@ref("wrm")
def _(x, p, kw):
    a, b, c = x
    q = 1 / (a * b)
    F = [106780.37 * (b + c) + 61704.67, 3000 * a, 305700 * 2289 * b / (0.06 * 2289) ** 0.65, 250 * 2289 * exp(9.9 * c - 39.75 * b + 2.74), 25 * (1.39 * q + 4940 * c - 80)]
    rows = [(0.00139, 4.94, -0.08, 1), (0.000306, 1.082, -0.0986, 1), (12.307, 49408.24, 4051.02, 50000), (2.098, 8046.33, -696.71, 16000), (2.138, 7883.39, -705.04, 10000), (0.417, 1721.26, -136.54, 2000), (0.164, 631.13, -54.58, 550)]
    return F, [r * q + s * c + t - lim for r, s, t, lim in rows], []


@ref("csi")
def _(x, p, kw):
    a, b, c, d, e, f, g = x
    pub = 4.72 - 0.5 * d - 0.19 * b * c
    v1 = 10.58 - 0.674 * a * b - 0.67275 * b
    v2 = 16.45 - 0.489 * c * g - 0.843 * e * f
    w = 1.98 + 4.9 * a + 6.67 * b + 6.98 * c + 4.01 * d + 1.78 * e + 0.00001 * f + 2.73 * g
    G = [0.16 - 0.3717 * b * d - 0.0092928 * c,
         -0.059 - 0.0159 * a * b - 0.06486 * a - 0.019 * b * g + 0.0144 * c * e + 0.0154464 * f,
         -0.106 + 0.00817 * e - 0.045195 * a - 0.0135168 * a + 0.03099 * b * f - 0.018 * b * g + 0.007176 * c + 0.023232 * c - 0.00364 * e * f - 0.018 * b * b,
         0.42 - 0.61 * b - 0.031296 * c - 0.031872 * g + 0.227 * b * b,
         -3.02 + 3.818 * c - 4.2 * a * b + 1.27296 * f - 2.68065 * g,
         3.31728 + 2.95 * c - 5.057 * a * b - 3.795 * b - 3.4431 * g,
         14.36 - 9.9 * b - 4.4505 * a, pub - 4, v1 - 9.9, v2 - 15.7]
    return [w, pub, (v1 + v2) / 2], G, []


@ref("clutch")
def _(x, p, kw):
    ri, ro, t, f, z = 60 + x[0], 90 + x[1], 1 + x[2] / 2, 600 + x[3], 2 + x[4]
    area = pi * (ro ** 2 - ri ** 2)
    rm = 2 / 3 * (ro ** 3 - ri ** 3) / (ro ** 2 - ri ** 2)
    torque = 0.5 * f * z * rm / 1000
    pres, speed = f / area, pi * rm * 250 / 30
    time = 55 * (pi * 250 / 30) / (torque + 3)
    G = [20 - (ro - ri), (z + 1) * (t + 0.5) - 30, pres - 1, pres * speed - 10000, speed - 10000, 60 - torque, -time, time - 15]
    return [area * t * (z + 1) * 0.0000078, time], G, []
