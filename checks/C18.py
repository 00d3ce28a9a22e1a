"""The zodiacal map gives the coefficient of its entry nearest to the pointing."""
from checks.lib import *


def fit(c, pos, map_file=None):
    z = mod("models.foregrounds.zodiacalForeground").ZodiacalFrg
    o = z(wl=np.array([1.0, 2.0]) * u.um, description={"value": "zodiacal", "zodiacFactor": V(1.0)})
    return o.zodiacal_fit_direction(pos, map_file)


def nearest(c, n, ra, a, turns):
    if c.symbolic:
        from symx import core
        c.setattr(core, "FORK_FLOOR", 10)
        c.setattr(core, "FORK_EXTREMES", True)
    dec, b = c.reals("dec", n, -80, 80), c.real("b", -80, 80)
    with zodi_map(c, ra, dec, [float(k + 1) for k in range(n)]) as (f, asked):
        got = fit(c, (c.scalar_q(a, "deg"), c.scalar_q(b, "deg")), f)
    k = int(round(float(got))) - 1
    c.true("in_map", 0 <= k < n)
    d = []
    for x, y in zip(ra, dec):
        x = x - a
        for t in turns[:-1]:
            if abs(x + t) <= 180.0:
                x = x + t
                break
        else:
            x = x + turns[-1]
        d.append(x * x + (y - b) * (y - b))
    for j in range(n):
        if j != k:
            c.true("nearest", d[k] <= d[j] + 1e-6)


def inside(c):
    """any map of 2..4 entries, any pointing: no entry is nearer than the chosen one"""
    n = c.int("n", 2, 5 if c.thorough else 4)
    nearest(c, n, c.reals("ra", n, 100, 200), c.real("a", 100, 200), [0])


def circle(c):
    """right ascensions are on a circle"""
    n = c.int("n", 2, 3 if c.thorough else 2)
    nearest(c, n, c.reals("ra", n, 0, 360), c.real("a", -180, 360), [0, -360, 360])


def coefficient(c):
    """any coefficients: the one of the nearest entry is returned unchanged"""
    co = c.reals("k", 3, -5, 50)
    pos, want = c.choice("pos", [((12.0, 5.0), 0), ((140.0, 20.0), 1), ((280.0, -45.0), 2)])
    un, f = c.choice("un", [("deg", 1.0), ("rad", np.pi / 180), ("arcmin", 60.0)])
    with zodi_map(c, [10.0, 150.0, 300.0], [0.0, 60.0, -30.0], co) as (name, asked):
        c.eq("coeff", fit(c, (pos[0] * f * u.Unit(un), pos[1] * f * u.Unit(un)), name), co[want], scale=1.0)


def origin(c):
    """pointings at the origin of a coordinate are pointings like the others"""
    co, k = c.reals("k", 3, 0, 50), c.real("f", 0, 9)
    pos, want = c.choice("pos", [((0.0, 5.0), 0), ((150.0, 0.0), 1), ((0.0, 0.0), 0), ((300.0, 0.0), 2)])
    S = mod("models.foregrounds.zodiacalForeground").ZodiacalFrg
    wl = np.array([1.0, 2.0]) * u.um
    with zodi_map(c, [10.0, 150.0, 300.0], [0.0, 60.0, -30.0], co) as (name, asked):
        d = {"value": "zodiacal", "zodiacFactor": V(k), "zodiacalMap": V(True), "custom_map_file": V(name)}
        z = S(wl=wl, description=d, coordinates=(pos[0] * u.deg, pos[1] * u.deg))
        ref = S(wl=wl, description={"value": "zodiacal", "zodiacFactor": V(co[want])})
        c.eq("radiance", z.radiance.data, ref.radiance.data)


def custom_map(c):
    """a custom map file is the one that is used, the packaged one otherwise"""
    co = c.reals("k", 2, 0, 5)
    with zodi_map(c, [10.0, 150.0], [0.0, 60.0], co) as (f, asked):
        for k in c.choice("seq", [(0,), (1,), (0, 1), (1, 0)]):
            got = fit(c, (12.0 * u.deg, 5.0 * u.deg), f if k else None)
            c.eq("coeff", got, co[0] if k else PACKAGED[0], scale=1.0)
        c.true("file", all(a == f or a.endswith("Zodi_map.hdf5") for a in asked))


HARNESSES = [
    H(inside, "maps of 2..4 entries at any position, any pointing, within 100 degrees of right ascension"),
    H(circle, "maps of 2 (thorough: 3) entries at any position, any pointing with right ascension from -180 to 360 degrees"),
    H(coefficient, "any coefficients, three pointings in deg/rad/arcmin"),
    H(origin, "any coefficients and factor, four pointings with a coordinate equal to zero"),
    H(custom_map, "custom map file, packaged one, or one after the other; any coefficients"),
]
