"""Independent reference of the documented potentials (numpy, vectorized over leading axes)."""

from __future__ import annotations
import numpy as np

ENTROPY = 10.0
HEAT_TRANSFER = 0.5
K = np.eye(2)
SHEAR = 0.5


def det(F):
    return F[..., 0, 0] * F[..., 1, 1] - F[..., 0, 1] * F[..., 1, 0]


def i1(F):
    return np.sum(F * F, axis=(-2, -1))


def cof(F):
    """dJ/dF"""
    C = np.empty_like(F)
    C[..., 0, 0], C[..., 0, 1], C[..., 1, 0], C[..., 1, 1] = F[..., 1, 1], -F[..., 1, 0], -F[..., 0, 1], F[..., 0, 0]
    return C


def austenite(F):
    J = det(F)
    return i1(F) - 2 - 2 * np.log(J) + (J - 1) ** 2


def d_austenite(F):
    J = det(F)[..., None, None]
    return 2 * F + (-2 / J + 2 * (J - 1)) * cof(F)


def martensite(F):
    J = det(F)
    return (i1(F) / J - 2 - SHEAR**2) ** 2 + (J**2 + 1 / J**2 - 2) ** 2


def d_martensite(F):
    J = det(F)[..., None, None]
    u = i1(F)[..., None, None] / J - 2 - SHEAR**2
    C = cof(F)
    return 2 * u * (2 * F / J - i1(F)[..., None, None] / J**2 * C) + 2 * (J**2 + J**-2 - 2) * (2 * J - 2 * J**-3) * C


def percentage(t):
    return -np.expm1(-5 * t)


def weight(t):
    """a(t) - t a'(t)"""
    return -np.expm1(-5 * t) - 5 * t * np.exp(-5 * t)


def antider_weight(t):
    """integral of weight from 0 to t"""
    e = np.exp(-5 * t)
    # int a = t - (1-e)/5 ; int t a' = t a - int a
    ia = t - (1 - e) / 5
    return ia - (t * (1 - e) - ia)


def total(F, t):
    a = percentage(t)
    return a * austenite(F) + (1 - a) * martensite(F)


def coupling_stress(F, t):
    return percentage(t)[..., None, None] * (d_austenite(F) - d_martensite(F))


def dissipation(F0, F1):
    D = F1 - F0
    S = np.swapaxes(D, -1, -2) @ F0
    S = S + np.swapaxes(S, -1, -2)
    return np.sum(S * S, axis=(-2, -1)) / 2


def conductivity(F):
    Fi = np.linalg.inv(F)
    return det(F)[..., None, None] * Fi @ K @ np.swapaxes(Fi, -1, -2)
