"""Generators of places and attitudes for the coordinate checks."""
import math

import opendis.RangeCoordinates as RC

from . import consts
from .history import clamp, relate

LATS = [0.0, 1e-9, -1e-9, 45.0, -45.0, 89.9, -89.9, 90.0, -90.0, 89.999999,
        -89.9999999, 36.6, -33.9, 66.5, 12.0, 80.0, -80.0, 84.0, 0.5, -0.5]
LONS = [0.0, 180.0, -180.0, 90.0, -90.0, 179.999999, -179.999999, -121.9,
        45.0, 135.0, -135.0, 1e-9, 6.0, 151.2, -0.5, 0.5]
ALTS = [0.0, 1.0, 100.0, -100.0, 8848.0, -10000.0, 1e4, 4e5, 2.02e7,
        3.5786e7, 4e7, 0.001, -430.5, 12000.25]
ANGLES = [0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, math.pi / 4,
          -math.pi / 4, 3 * math.pi / 4, .1, -.1, 1.0, -2.5, 3.0]


def special(r, top):
    """A number made from one that the code itself uses."""
    return r.choice(consts.reals(RC, top) or [0.0])


def lat(r, top=90.0):
    if r.random() < .08:
        return special(r, top)
    k = r.random()
    if k < .25:
        v = r.choice(LATS)
        return v if abs(v) <= top else 0.0
    if k < .3:
        return float(r.randint(-int(top), int(top)))
    if k < .35:
        return r.choice([1, -1]) * (top - 10 ** r.uniform(-9, 0))
    if k < .4:
        return r.choice([1, -1]) * 10 ** r.uniform(-10, 0)
    return r.uniform(-top, top)


def lon(r):
    if r.random() < .08:
        return special(r, 180.0)
    k = r.random()
    if k < .25:
        return r.choice(LONS)
    if k < .3:
        return float(r.randint(-180, 180))
    if k < .36:
        v = r.choice([0, 90, -90, 180, -180]) + r.choice(
            [1, -1]) * 10 ** r.uniform(-10, 0)
        return v if abs(v) <= 180 else -v / abs(v) * 180
    return r.uniform(-180, 180)


def alt(r):
    if r.random() < .08:
        return max(-1e4, special(r, 4.2e7))
    k = r.random()
    if k < .4:
        return r.choice(ALTS)
    if k < .8:
        return r.uniform(-1e4, 3e4)
    return r.uniform(-1e4, 4.2e7)


def angle(r):
    if r.random() < .08:
        return special(r, 20.0)
    k = r.random()
    if k < .3:
        return r.choice(ANGLES)
    if k < .35:
        return r.choice(ANGLES) + r.choice([1, -1]) * 10 ** r.uniform(-10, -1)
    if k < .4:
        return r.uniform(-20, 20)
    return r.uniform(-math.pi, math.pi)


def ecef(r):
    """An Earth-centred point with components that are zero, whole, or
    depend on each other, off the polar axis."""
    while True:
        v = relate(r, [r.gauss(0, 1) for _ in range(3)], .6)
        if r.random() < .2:
            v[r.randrange(3)] = 0.0
        n = math.sqrt(sum(c * c for c in v))
        if math.hypot(v[0], v[1]) < 1e-4 * n:
            continue
        k = (6378137.0 + alt(r)) / n
        v = [c * k for c in v]
        if r.random() < .3:
            v = [float(round(c)) for c in v]
        if 6.345e6 < math.sqrt(sum(c * c for c in v)) < 5.5e7:
            return v


def lla(r):
    v = [lat(r), lon(r), alt(r)]
    if r.random() < .03:
        v[1] = r.choice([v[0], -v[0], 90 - v[0], v[0] - 90])
    return v


def fix(v, top=90.0):
    """Bring a geodetic point back into range, in place."""
    v[0] = clamp(v[0], -top, top)
    v[1] = clamp(v[1], -180.0, 180.0)
    v[2] = clamp(v[2], -1e4, 4.2e7)
