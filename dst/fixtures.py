"""Small synthetic stand-ins for the files the public archive publishes."""

import functools
import io

import numpy as np

EARTH = "EGM2008_Topography_flms_L2190.mat"
WMAP = "wmap_lcdm_pl_model_wmap7baoh0.mat"


SEEDS = (30, 44, 66)  # one synthetic topography per variant


@functools.lru_cache(None)
def earth_coeffs(variant=0, lmax=24):
    """Coefficients of a smooth synthetic 'topography' with land at the places sleplet rotates to the pole."""
    rng = np.random.default_rng(SEEDS[variant])
    flm = np.zeros(lmax * lmax, dtype=np.complex128)
    for ell in range(lmax):
        amp = 1 / (1 + ell) ** 1.5
        flm[ell * ell + ell] = amp * rng.standard_normal()
        for m in range(1, ell + 1):
            flm[ell * ell + ell + m] = amp * (rng.standard_normal() + 1j * rng.standard_normal()) / np.sqrt(2)
    return flm


@functools.lru_cache(None)
def earth_mat(variant=0):
    import scipy.io as sio

    b = io.BytesIO()
    sio.savemat(b, {"flm": earth_coeffs(variant).reshape(-1, 1)}, do_compression=False)
    return _stable(b.getvalue())


@functools.lru_cache(None)
def wmap_mat(variant=0, lmax=40):
    import scipy.io as sio

    ell = np.arange(2, lmax + 2, dtype=float)
    b = io.BytesIO()
    sio.savemat(b, {"cl": ((1000 + 100 * variant) / (1 + ((ell - 10) / 8) ** 2)).reshape(-1, 1)}, do_compression=False)
    return _stable(b.getvalue())


def _stable(data):
    """The mat header carries a creation date; blank it."""
    return b"MATLAB 5.0 MAT-file synthetic".ljust(116) + data[116:]


def npy(arr):
    b = io.BytesIO()
    np.save(b, arr)
    return b.getvalue()


def publish_standard(world, variant=0):
    world.archive.publish(EARTH, earth_mat(variant))
    world.archive.publish(WMAP, wmap_mat(variant))
