"""Multiaccum gains from the number of non-destructive reads."""
from checks.lib import *


def det(c, freq, m):
    d = {"freqNDR": V(c.scalar_q(freq, "Hz"))}
    if m is not None:
        d["multiaccumM"] = V(c.scalar_q(m, ""))
    return {"detector": d}


def gains(c):
    """n = floor(t f) reads, at least 2; any frame time and read frequency"""
    t, f = c.real("t", 0.01, 50), c.real("f", 0, 20)
    un, k = c.choice("un", [("s", 1.0), ("min", 1 / 60.0)])
    r, s = mod("models.noise").multiaccum(det(c, f, None), c.scalar_q(t * k, un))
    n = c.floor(t * f)
    if n < 2:
        n = 2.0
    c.eq("read", r, c.div(12.0 * (n - 1.0), n * n + n))
    c.eq("shot", s, c.div(6.0 * (n * n + 1.0), 5.0 * (n * n + n)))


def by_reads(c):
    """every read count up to the bound and every fraction of a read"""
    n = c.int("n", 0, 40 if c.thorough else 12)
    x = c.real("x", 0.01, 0.99)
    m = c.choice("m", [None, 1.0, 2.0, 4.0])
    f = c.choice("f", [0.5, 1.0, 8.0])
    r, s = mod("models.noise").multiaccum(det(c, f, m), c.scalar_q((n + x) / f, "s"))
    k = max(n, 2)
    c.eq("read", r, 12.0 * (k - 1) / (k * k + k) / (m or 1.0))
    c.eq("shot", s, 6.0 * (k * k + 1) / (5.0 * (k * k + k)))


def averaging(c):
    """averaging m reads divides the read noise variance by m and nothing else changes"""
    t, f = c.real("t", 0.01, 50), c.real("f", 0, 20)
    m = c.real("m", 1, 20)
    fn = mod("models.noise").multiaccum
    r0, s0 = fn(det(c, f, None), c.scalar_q(t, "s"))
    r1, s1 = fn(det(c, f, m), c.scalar_q(t, "s"))
    c.eq("read", r1 * m, r0)
    c.eq("shot", s1, s0)


HARNESSES = [
    H(gains, "any frame time up to 50 s and read frequency up to 20 Hz"),
    H(by_reads, "every read count 0..12 (thorough 0..40) and any fraction of a read; m absent, 1, 2, 4"),
    H(averaging, "any m in 1..20"),
]
