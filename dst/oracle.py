"""Independent references for every region kind, and gauge-invariant comparisons.

Nothing here calls sleplet.  Uses scipy for Legendre functions and quadrature, ssht only
for sample positions of the masked-region grid.
"""

import functools
import math

import numpy as np


@functools.lru_cache(maxsize=None)
def _plm(L, n, a, b):
    """Normalised associated Legendre X_lm(theta) at Gauss nodes in theta on [a, b]."""
    from scipy.special import sph_harm_y

    x, w = np.polynomial.legendre.leggauss(n)
    th = 0.5 * (b - a) * x + 0.5 * (b + a)
    w = 0.5 * (b - a) * w * np.sin(th)
    X = np.zeros((L * L, n))
    for ell in range(L):
        for m in range(-ell, ell + 1):
            X[ell * ell + ell + m] = sph_harm_y(ell, m, th, 0.0).real
    return X, w


def elm(L):
    ell = np.concatenate([np.full(2 * e + 1, e) for e in range(L)])
    m = np.concatenate([np.arange(-e, e + 1) for e in range(L)])
    return ell, m


def d_latlon(L, theta_min, theta_max, phi_min, phi_max, n=None):
    """integral over the rectangle of conj(Y_i) Y_j."""
    n = n or (2 * L + 24)
    X, w = _plm(L, n, theta_min, theta_max)
    P = (X * w) @ X.T
    _, m = elm(L)
    dm = m[None, :] - m[:, None]
    with np.errstate(divide="ignore", invalid="ignore"):
        F = np.where(
            dm == 0, phi_max - phi_min,
            (np.exp(1j * dm * phi_max) - np.exp(1j * dm * phi_min)) / (1j * np.where(dm == 0, 1, dm)),
        )
    return P * F


def d_polar(L, theta_max, gap=False):
    D = d_latlon(L, 0.0, theta_max, 0.0, 2 * math.pi)
    if gap:
        D = D + d_latlon(L, math.pi - theta_max, math.pi, 0.0, 2 * math.pi)
    _, m = elm(L)
    return np.where(m[None, :] == m[:, None], D.real, 0.0)


@functools.lru_cache(maxsize=None)
def _grid(L, res):
    from scipy.special import sph_harm_y

    import pyssht as ssht

    th, ph = ssht.sample_positions(res, Grid=True, Method="MWSS")
    Y = np.zeros((L * L,) + th.shape, dtype=complex)
    for ell in range(L):
        for m in range(-ell, ell + 1):
            Y[ell * ell + ell + m] = sph_harm_y(ell, m, th, ph)
    w = np.sin(th) * np.ediff1d(th[:, 0]).mean() * np.ediff1d(ph[0]).mean()
    return th, ph, Y, w


def grid(res):
    return _grid(1, res)[:2]


def d_mask(L, mask):
    """Masked region, sampled at twice the band-limit."""
    th, ph, Y, w = _grid(L, 2 * L)
    Yf = Y.reshape(L * L, -1)
    ww = (w * np.asarray(mask, float)).reshape(-1)
    return (Yf.conj() * ww) @ Yf.T


def area_mask(L, mask):
    th, ph, Y, w = _grid(L, 2 * L)
    return float((w * np.asarray(mask, float)).sum())


def shannon(area, L):
    return round(area * L * L / (4 * math.pi))


class Mismatch(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Mismatch(msg)


def check_eigen(D, evals, evecs, *, rows=None, full_evals=True, tol=1e-6, what="basis", min_rows=None):
    """Eigenvalues/eigenvectors against the independent matrix D (gauge invariant)."""
    evals = np.asarray(evals)
    evecs = np.asarray(evecs)
    n = D.shape[0]
    need(evals.ndim == 1 and evecs.ndim == 2, f"{what}: unexpected shapes {evals.shape} {evecs.shape}")
    need(np.all(np.isfinite(evals)), f"{what}: eigenvalues not finite")
    need(np.all(np.isfinite(evecs)), f"{what}: eigenvectors not finite")
    need(not np.iscomplexobj(evals) or np.abs(evals.imag).max() < tol, f"{what}: complex eigenvalues")
    evals = evals.real
    need(np.all(np.diff(evals) <= 1e-9), f"{what}: eigenvalues are not in descending order")
    if full_evals:
        ref = np.linalg.eigvalsh(D)[::-1]
        need(evals.shape == ref.shape, f"{what}: {evals.shape[0]} eigenvalues instead of {ref.shape[0]}")
        d = np.abs(evals - ref).max()
        need(d <= tol, f"{what}: eigenvalues differ from the direct computation by {d:.3g}")
    k = evecs.shape[0]
    need(evecs.shape[1] == n, f"{what}: eigenvectors have {evecs.shape[1]} components instead of {n}")
    need(k <= evals.shape[0], f"{what}: more eigenvectors than eigenvalues")
    if min_rows is not None:
        need(k >= min_rows, f"{what}: only {k} eigenvectors, Shannon number {min_rows}")
    G = evecs @ evecs.conj().T
    d = np.abs(G - np.eye(k)).max() if k else 0.0
    need(d <= tol, f"{what}: eigenvectors are not orthonormal (error {d:.3g})")
    r = D @ evecs.T - evecs.T * evals[:k]
    d = np.abs(r).max() if k else 0.0
    need(d <= tol, f"{what}: eigenvectors do not solve the concentration problem (residual {d:.3g})")


def same_subspaces(ev_a, A, ev_b, B, *, tol=1e-6, gap=1e-7, what="basis"):
    """Two sets of leading eigenvectors agree up to rotations inside equal eigenvalues."""
    k = min(len(A), len(B))
    ev_a, ev_b = np.asarray(ev_a).real, np.asarray(ev_b).real
    n = min(len(ev_a), len(ev_b))
    need(len(ev_a) == len(ev_b), f"{what}: {len(ev_a)} versus {len(ev_b)} eigenvalues")
    d = np.abs(ev_a[:n] - ev_b[:n]).max() if n else 0
    need(d <= tol, f"{what}: eigenvalues differ by {d:.3g}")
    i = 0
    while i < k:
        j = i + 1
        while j < n and abs(ev_a[j] - ev_a[j - 1]) < gap:
            j += 1
        if j > k:
            break  # cluster cut by truncation: any rotation is legitimate
        P = A[i:j].T @ A[i:j].conj()
        Q = B[i:j].T @ B[i:j].conj()
        d = np.abs(P - Q).max()
        need(d <= tol, f"{what}: eigenvectors {i}..{j - 1} differ (projector error {d:.3g})")
        i = j
