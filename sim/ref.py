"""Reference answers, computed in the most literal way possible.

Nothing here follows the recursions used by the library: Gaussian answers come
from writing down the joint distribution of all variables and conditioning it,
finite state answers from enumerating all paths.
"""
import math

import numpy as np
from scipy.special import gammaincc

LOG2PI = math.log(2.0 * math.pi)


def logn(x, m, P):
    """log N(x; m, P)"""
    d = np.ravel(x) - np.ravel(m)
    P = np.atleast_2d(P)
    s, ld = np.linalg.slogdet(P)
    return -0.5 * (len(d) * LOG2PI + ld + d.dot(np.linalg.solve(P, d)))


def psd_sqrt(P):
    P = 0.5 * (np.atleast_2d(P) + np.atleast_2d(P).T)
    lam, V = np.linalg.eigh(P)
    return V * np.sqrt(np.maximum(lam, 0.0))


class Joint(object):
    """Jointly Gaussian variables, built as affine functions of white noise"""

    def __init__(self):
        self.n = 0
        self.m = {}
        self.G = {}

    def noise(self, P):
        """New independent noise with covariance P, returned as (0, G)"""
        L = psd_sqrt(P)
        G = np.zeros((len(L), self.n + L.shape[1]))
        G[:, self.n:] = L
        self.n += L.shape[1]
        return G

    def pad(self, G):
        if G.shape[1] < self.n:
            return np.hstack((G, np.zeros((G.shape[0], self.n - G.shape[1]))))
        return G

    def put(self, name, const, terms=(), noise=None):
        """name = const + sum A * var + noise"""
        m = np.array(const, dtype=float).ravel()
        G = np.zeros((len(m), self.n))
        for A, var in terms:
            m = m + np.atleast_2d(A).dot(self.m[var])
            G = G + np.atleast_2d(A).dot(self.pad(self.G[var]))
        if noise is not None:
            G = G + self.pad(noise)
        self.m[name], self.G[name] = m, G

    def moments(self, names):
        m = np.concatenate([self.m[k] for k in names])
        G = np.vstack([self.pad(self.G[k]) for k in names])
        return m, G.dot(G.T)

    def condition(self, names, obs):
        """Mean and covariance of `names` given obs {name: value}, and the
        log density of the observed values"""
        m, P = self.moments(names)
        obs = [(k, np.ravel(v)) for k, v in obs]
        if not obs:
            return m, P, 0.0
        mo, Po = self.moments([k for k, _ in obs])
        v = np.concatenate([x for _, x in obs])
        Gn = np.vstack([self.pad(self.G[k]) for k in names])
        Go = np.vstack([self.pad(self.G[k]) for k, _ in obs])
        C = Gn.dot(Go.T)
        K = np.linalg.solve(Po, C.T).T
        mc = m + K.dot(v - mo)
        Pc = P - K.dot(C.T)
        return mc, 0.5 * (Pc + Pc.T), logn(v, mo, Po)


def normalise(logw):
    """Normalised weights of log weights"""
    logw = np.asarray(logw, dtype=float)
    w = np.exp(logw - np.max(logw))
    return w / np.sum(w)


def neff(w):
    w = np.asarray(w) / np.sum(w)
    return 1.0 / np.sum(w * w)


# --- testing draws against distributions ------------------------------------

def ks_uniform(u):
    """p-value of the Kolmogorov-Smirnov statistic of u against U(0,1)"""
    u = np.sort(np.asarray(u))
    n = len(u)
    if n < 20:
        return 1.0
    k = np.arange(n)
    d = max(np.max((k + 1) / n - u), np.max(u - k / n))
    x = (math.sqrt(n) + 0.12 + 0.11 / math.sqrt(n)) * d
    p = 2.0 * sum((-1) ** (j - 1) * math.exp(-2.0 * j * j * x * x) for j in range(1, 50))
    return float(min(1.0, max(p, 0.0)))


def chi2_p(obs, exp, merge=8.0):
    """p-value of the chi-square statistic, small cells merged"""
    obs = np.ravel(np.asarray(obs, dtype=float))
    exp = np.ravel(np.asarray(exp, dtype=float))
    if np.any(obs[exp <= 0.0] > 0):
        return 0.0
    keep = exp > 0.0
    obs, exp = obs[keep], exp[keep]
    small = exp < merge
    if np.any(small):
        o, e = obs[small].sum(), exp[small].sum()
        obs, exp = obs[~small], exp[~small]
        if e >= merge or len(exp) == 0:
            obs, exp = np.append(obs, o), np.append(exp, e)
        else:
            j = np.argmin(exp)
            obs[j] += o
            exp[j] += e
    if len(obs) < 2:
        return 1.0
    return float(gammaincc(0.5 * (len(obs) - 1), 0.5 * np.sum((obs - exp) ** 2 / exp)))


def pit(p, i, v):
    """Uniform variate of drawing category i from p (randomised by v)"""
    c = np.cumsum(p)
    c = c / c[-1]
    lo = c[i - 1] if i else 0.0
    return lo + v * (c[i] - lo)


def uniform_p(u):
    """Combined test for uniformity (Bonferroni over KS, chi-square, variance)"""
    u = np.asarray(u, dtype=float)
    if len(u) < 50:
        return 1.0
    k = 20 if len(u) > 400 else 8
    h = np.histogram(u, bins=k, range=(0.0, 1.0))[0]
    p = min(ks_uniform(u), chi2_p(h, np.full(k, len(u) / float(k))))
    return min(1.0, 2.0 * p)


STAGES = (1e-3, 1e-4, 1e-6)


# the same chance of a false report, deviations noticed earlier
FINE = (0.1, 0.01, 1e-4, 1e-6)


def escalate(test, factor=4, stages=STAGES):
    """Sequential test: `test(stage, size)` returns (p, info) from fresh runs.

    Only small p-values in consecutive, independent and growing batches are
    reported (chance 1e-13 if the tested distribution is right).
    Returns (p-values, info or None).
    """
    ps = []
    size = 1
    for k, thr in enumerate(stages):
        p, info = test(k, size)
        ps.append(p)
        if p >= thr:
            return ps, None
        size *= factor
    return ps, info
