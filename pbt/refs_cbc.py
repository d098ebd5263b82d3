"""LALSimulation as the oracle of the compact-binary models."""
import functools

import lal
import lalsimulation as ls
import numpy as np
import torch
from scipy.interpolate import CubicSpline

lal.ClobberDebugLevel(0)

D = torch.float64
MTSUN = lal.MTSUN_SI
TABLES = ("qnmdata_a", "qnmdata_fring", "qnmdata_fdamp")


def components(chirp_mass, q):
    """m1 >= m2 for q <= 1, from the chirp mass."""
    m1 = chirp_mass * (1 + q) ** 0.2 / q**0.6
    return m1, m1 * q


def lal_fd(name, m1, m2, s1, s2, distance, phic, inclination, freqs, f_ref):
    """Plus and cross at any frequencies, from LALSimulation."""
    seq = lal.CreateREAL8Sequence(len(freqs))
    seq.data = np.asarray(freqs, dtype=np.float64)
    hp, hc = ls.SimInspiralChooseFDWaveformSequence(
        float(phic), float(m1) * lal.MSUN_SI, float(m2) * lal.MSUN_SI,
        *[float(v) for v in s1], *[float(v) for v in s2], float(f_ref),
        float(distance) * 1e6 * lal.PC_SI, float(inclination),
        lal.CreateDict(), getattr(ls, name), seq,
    )
    return hp.data.data.copy(), hc.data.data.copy()


def tables(model):
    """The ringdown tables of a PhenomD-like model, if it has them."""
    try:
        return [getattr(model, k).detach().double().numpy() for k in TABLES]
    except AttributeError:
        return None


GRID = np.unique(np.concatenate([
    np.linspace(-1, 1, 200001), 1 - np.geomspace(1e-9, 1e-3, 20001),
]))


def resampled(cls, how):
    """The model with its ringdown tables resampled on a fine grid.

    ``spline`` interpolates them as LALSimulation does, ``linear`` as the
    model itself. Returns None if the tables do not decide the output.
    """
    model = cls()
    t = tables(model)
    if t is None:
        return None
    a, fring, fdamp = t
    grid = GRID[(GRID >= a[0]) & (GRID <= a[-1])]
    if how == "linear":
        grid = np.unique(np.concatenate([grid, a]))
        new = [np.interp(grid, a, v) for v in (fring, fdamp)]
    else:
        new = [
            CubicSpline(a, v, bc_type="natural")(grid) for v in (fring, fdamp)
        ]
    for key, v in zip(TABLES, [grid] + new):
        setattr(model, key, torch.from_numpy(np.ascontiguousarray(v)))
    return model


def final_spin(q, c1, c2, chip=0.0):
    """Final spin and mass (in units of the total mass), from LAL."""
    m1, m2 = 1 / (1 + q), q / (1 + q)
    if chip:
        spin = ls.SimPhenomUtilsPhenomPv2FinalSpin(m1, m2, c1, c2, chip)
    else:
        spin = ls.SimIMRPhenomDFinalSpin(m1, m2, c1, c2)
    return spin, ls.SimPhenomUtilsIMRPhenomDFinalMass(m1, m2, c1, c2)


@functools.lru_cache(None)
def ringdown_splines(cls):
    a, fring, fdamp = tables(cls())
    return [CubicSpline(a, v, bc_type="natural") for v in (fring, fdamp)]


def ringdown(cls, q, c1, c2, chip=0.0):
    """Dimensionless ringdown and damping frequencies."""
    spin, mass = final_spin(q, c1, c2, chip)
    fring, fdamp = ringdown_splines(cls)
    return float(fring(spin) / mass), float(fdamp(spin) / mass)


def chi_p(q, s1, s2):
    """Effective precession spin for m1 >= m2."""
    a1, a2 = 2 + 1.5 * q, 2 + 1.5 / q
    one = a1 * np.hypot(s1[0], s1[1])
    two = a2 * q**2 * np.hypot(s2[0], s2[1])
    return max(one, two) / a1


def alignment(cls, q, s1, s2):
    """Slope of phase by which LALSimulation misplaces the ringdown.

    It differentiates PhenomD's phase at the ringdown frequency on a spline
    through ten points; the returned error is that derivative minus the
    exact one, per unit of dimensionless frequency. Also returned is an
    estimate of the error of central differences four parts in ten thousand
    apart.
    """
    eta = q / (1 + q) ** 2
    eta2 = eta * eta
    c1, c2 = s1[2], s2[2]
    fr, fd = ringdown(cls, q, c1, c2, chi_p(q, s1, s2))
    seta = np.sqrt(max(0.0, 1 - 4 * eta))
    xi = 0.5 * (
        (c1 + c2) * (1 - eta * 76 / 113) + seta * (c1 - c2)
    ) - 1
    a1, a2, a3, a4, a5 = (
        f(eta, eta2, xi) for f in (alpha1, alpha2, alpha3, alpha4, alpha5)
    )

    def phase(f):
        return (
            a1 * f - a2 / f + 4 / 3 * a3 * f**0.75
            + a4 * np.arctan((f - a5 * fr) / fd)
        ) / eta

    exact = (
        a1 + a2 / fr**2 + a3 * fr**-0.25
        + a4 * fd / ((fr - a5 * fr) ** 2 + fd**2)
    ) / eta
    x = np.linspace(0.8, 1.2, 10) * fr
    spline = CubicSpline(x, phase(x), bc_type="natural")(fr, 1)
    h = 4e-4 * fr
    central = (
        phase(fr + 1.5 * h) + phase(fr + 0.5 * h)
        - phase(fr - 0.5 * h) - phase(fr - 1.5 * h)
    ) / (4 * h)
    return float(spline - exact), abs(float(central - exact))


# fits of the merger-ringdown phase (Khan et al., arXiv:1508.07253)

def alpha1(eta, eta2, xi):
    return (
        43.31514709695348
        + 638.6332679188081 * eta
        + (
            -32.85768747216059
            + 2415.8938269370315 * eta
            - 5766.875169379177 * eta2
            + (
                -61.85459307173841
                + 2953.967762459948 * eta
                - 8986.29057591497 * eta2
            )
            * xi
            + (
                -21.571435779762044
                + 981.2158224673428 * eta
                - 3239.5664895930286 * eta2
            )
            * xi
            * xi
        )
        * xi
    )


def alpha2(eta, eta2, xi):
    return (
        -0.07020209449091723
        - 0.16269798450687084 * eta
        + (
            -0.1872514685185499
            + 1.138313650449945 * eta
            - 2.8334196304430046 * eta2
            + (
                -0.17137955686840617
                + 1.7197549338119527 * eta
                - 4.539717148261272 * eta2
            )
            * xi
            + (
                -0.049983437357548705
                + 0.6062072055948309 * eta
                - 1.682769616644546 * eta2
            )
            * xi
            * xi
        )
        * xi
    )


def alpha3(eta, eta2, xi):
    return (
        9.5988072383479
        - 397.05438595557433 * eta
        + (
            16.202126189517813
            - 1574.8286986717037 * eta
            + 3600.3410843831093 * eta2
            + (
                27.092429659075467
                - 1786.482357315139 * eta
                + 5152.919378666511 * eta2
            )
            * xi
            + (
                11.175710130033895
                - 577.7999423177481 * eta
                + 1808.730762932043 * eta2
            )
            * xi
            * xi
        )
        * xi
    )


def alpha4(eta, eta2, xi):
    return (
        -0.02989487384493607
        + 1.4022106448583738 * eta
        + (
            -0.07356049468633846
            + 0.8337006542278661 * eta
            + 0.2240008282397391 * eta2
            + (
                -0.055202870001177226
                + 0.5667186343606578 * eta
                + 0.7186931973380503 * eta2
            )
            * xi
            + (
                -0.015507437354325743
                + 0.15750322779277187 * eta
                + 0.21076815715176228 * eta2
            )
            * xi
            * xi
        )
        * xi
    )


def alpha5(eta, eta2, xi):
    return (
        0.9974408278363099
        - 0.007884449714907203 * eta
        + (
            -0.059046901195591035
            + 1.3958712396764088 * eta
            - 4.516631601676276 * eta2
            + (
                -0.05585343136869692
                + 1.7516580039343603 * eta
                - 5.990208965347804 * eta2
            )
            * xi
            + (
                -0.017945336522161195
                + 0.5965097794825992 * eta
                - 2.0608879367971804 * eta2
            )
            * xi
            * xi
        )
        * xi
    )
