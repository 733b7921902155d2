"""Contracts of the shell kernels, derived from the strain-displacement relations."""
from .expr import *
from .kern import II, BF, sh_attr, flags
from fractions import Fraction


class Kin:
    """strain-displacement table: B[s][d] = list of (coef P, order in xi, order in eta)"""

    def __init__(self, a, b, r=None, wxi=None, weta=None):
        A = 2 / a
        Bb = 2 / b
        z = {}
        z[0] = {0: [(A, 1, 0)], 2: []}
        z[1] = {1: [(Bb, 0, 1)], 2: []}
        z[2] = {0: [(Bb, 0, 1)], 1: [(A, 1, 0)], 2: []}
        z[3] = {2: [(-(A * A), 2, 0)]}
        z[4] = {2: [(-(Bb * Bb), 0, 2)]}
        z[5] = {2: [(-2 * A * Bb, 1, 1)]}
        if r is not None:
            z[1][2].append((1 / r, 0, 0))
        if wxi is not None:
            z[0][2].append((A * A * wxi, 1, 0))
            z[1][2].append((Bb * Bb * weta, 0, 1))
            z[2][2].append((A * Bb * weta, 1, 0))
            z[2][2].append((A * Bb * wxi, 0, 1))
        self.z = z

    def terms(self, s, d):
        return self.z[s].get(d, [])


def Fsym(F):
    return lambda s, t: F(min(s, t), max(s, t))


def field_flags(o):
    return {('x', d): flags(o, 'x', 'uvw'[d]) for d in range(3)} | {('y', d): flags(o, 'y', 'uvw'[d]) for d in range(3)}


def prod_int(fl1, d1, p1, i, j, fl2, d2, p2, k, l):
    """integral over the domain in natural coordinates of the product of two shape function derivatives"""
    return II(p1[0], i, fl1['x', d1], p2[0], k, fl2['x', d2]) * II(p1[1], j, fl1['y', d1], p2[1], l, fl2['y', d2])


def shape(fl, d, p, i, j, xi, eta):
    return BF(p[0], i, xi, fl['x', d]) * BF(p[1], j, eta, fl['y', d])


def stiffness_int(kin, F, fl, jac):
    """analytic: spec(d1,d2,i,j,k,l) of int B1^T F B2 dA"""
    def spec(d1, d2, i, j, k, l):
        r = ZERO
        for s in range(6):
            for (c1, p1x, p1y) in kin.terms(s, d1):
                for t in range(6):
                    for (c2, p2x, p2y) in kin.terms(t, d2):
                        r = r + c1 * F(s, t) * c2 * prod_int(fl, d1, (p1x, p1y), i, j, fl, d2, (p2x, p2y), k, l)
        return r * jac
    return spec


def stiffness_pt(kin, F, fl, w, xi, eta):
    def spec(d1, d2, i, j, k, l):
        r = ZERO
        for s in range(6):
            b1 = ZERO
            for (c1, px, py) in kin.terms(s, d1):
                b1 = b1 + c1 * shape(fl, d1, (px, py), i, j, xi, eta)
            if b1.is_zero():
                continue
            for t in range(6):
                b2 = ZERO
                for (c2, px, py) in kin.terms(t, d2):
                    b2 = b2 + c2 * shape(fl, d2, (px, py), k, l, xi, eta)
                if b2.is_zero():
                    continue
                r = r + b1 * F(s, t) * b2
        return r * w
    return spec
