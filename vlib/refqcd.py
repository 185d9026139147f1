"""Reference for running couplings and masses: three-loop evolution through the
rundec dependency (C++ RunDec), driven by explicit flavour threshold lists
instead of case-by-case code, and an independent ODE integration."""
import functools
import math
import rundec

MZ = 91.1876
MB_TH, MC_TH, MT_TH = 4.8, 1.3, 170.
LOOP = 3


def _th(crd, m, nf):
    crd.nfMmu.Mth = m
    crd.nfMmu.muth = m
    crd.nfMmu.nf = nf
    return crd.nfMmu


@functools.lru_cache(None)
def alpha_s(mu, f, asmz=0.1185):
    crd = rundec.CRunDec()
    if f == 5:
        if mu == MZ:
            return asmz
        return crd.AlphasExact(asmz, MZ, mu, 5, LOOP)
    if f == 6:
        return crd.AlL2AlH(asmz, MZ, _th(crd, MT_TH, 6), mu, LOOP)
    if f == 4:
        return crd.AlH2AlL(asmz, MZ, _th(crd, MB_TH, 5), mu, LOOP)
    if f == 3:
        a4 = crd.AlH2AlL(asmz, MZ, _th(crd, MB_TH, 5), MC_TH, LOOP)
        return crd.AlH2AlL(a4, MC_TH, _th(crd, MC_TH, 4), mu, LOOP)
    raise ValueError(f)


def _same(m0, f, mu0, mu, asmz):
    if mu == mu0:
        return m0
    return rundec.CRunDec().mMS2mMS(m0, alpha_s(mu0, f, asmz), alpha_s(mu, f, asmz), f, LOOP)


def _down(m0, mu0, mu, th, fhigh, asmz):
    crd = rundec.CRunDec()
    return crd.mH2mL(m0, alpha_s(mu0, fhigh, asmz), mu0, _th(crd, th, fhigh), mu, LOOP)


def _up(m0, mu0, mu, th, fhigh, asmz):
    crd = rundec.CRunDec()
    return crd.mL2mH(m0, alpha_s(mu0, fhigh - 1, asmz), mu0, _th(crd, th, fhigh), mu, LOOP)


@functools.lru_cache(None)
def m_b(mbmb, mu, f, asmz=0.1185):
    if f == 5:
        return _same(mbmb, 5, mbmb, mu, asmz)
    if f == 4:
        return _down(mbmb, mbmb, mu, MB_TH, 5, asmz)
    if f == 3:
        return _down(_down(mbmb, mbmb, MC_TH, MB_TH, 5, asmz), MC_TH, mu, MC_TH, 4, asmz)
    if f == 6:
        return _up(mbmb, mbmb, mu, MT_TH, 6, asmz)
    raise ValueError(f)


@functools.lru_cache(None)
def m_c(mcmc, mu, f, asmz=0.1185):
    if f == 4:
        return _same(mcmc, 4, mcmc, mu, asmz)
    if f == 3:
        return _down(mcmc, mcmc, mu, MC_TH, 4, asmz)
    if f == 5:
        return _up(mcmc, mcmc, mu, MB_TH, 5, asmz)
    raise ValueError(f)


@functools.lru_cache(None)
def m_s(ms2, mu, f, asmz=0.1185):
    if f == 3:
        return _same(ms2, 3, 2, mu, asmz)
    if f == 4:
        return _up(ms2, 2, mu, MC_TH, 4, asmz)
    if f == 5:
        return _up(_up(ms2, 2, MC_TH, MC_TH, 4, asmz), MC_TH, mu, MB_TH, 5, asmz)
    raise ValueError(f)


def ode_alpha_s(mu, f, a0, mu0):
    """Independent three-loop integration of the beta function."""
    from scipy.integrate import solve_ivp
    b0 = (11 - 2 * f / 3.) / 4
    b1 = (102 - 38 * f / 3.) / 16
    b2 = (2857 / 2. - 5033 * f / 18. + 325 * f**2 / 54.) / 64

    def rhs(t, y):
        a = y[0] / math.pi
        return [-2 * math.pi * a**2 * (b0 + b1 * a + b2 * a**2)]
    s = solve_ivp(rhs, (math.log(mu0), math.log(mu)), [a0], rtol=1e-10, atol=1e-13)
    return float(s.y[0, -1])
