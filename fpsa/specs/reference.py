"""Reference programs.  Never executed: they are analysed by the same engine
and their terms are compared with those of the code under analysis."""
import numpy as np
from numpy import dot, zeros
import random
from scipy import ndimage
from scipy.stats import norm
from scipy.linalg import expm


def kf_batch(f, n, d, zs, Fs, Qs, Hs, Rs, Bs, us, update_first):
    xs, Ps = zeros((n,) + d), zeros((n, f.dim_x, f.dim_x))
    xp, Pp = zeros((n,) + d), zeros((n, f.dim_x, f.dim_x))
    for i in range(n):
        if update_first:
            f.update(zs[i], R=Rs[i], H=Hs[i])
            xs[i], Ps[i] = f.x, f.P
        f.predict(u=us[i], B=Bs[i], F=Fs[i], Q=Qs[i])
        xp[i], Pp[i] = f.x, f.P
        if not update_first:
            f.update(zs[i], R=Rs[i], H=Hs[i])
            xs[i], Ps[i] = f.x, f.P
    return xs, Ps, xp, Pp


def rts(Xs, Ps, Fs, Qs, n, d):
    x, P = Xs.copy(), Ps.copy()
    K, Pp = zeros(Ps.shape), Ps.copy()
    for k in range(n - 2, -1, -1):
        F = Fs[k + 1]
        Pp[k] = F @ P[k] @ F.T + Qs[k + 1]
        K[k] = P[k] @ F.T @ np.linalg.inv(Pp[k])
        x[k] = x[k] + K[k] @ (x[k + 1] - F @ x[k])
        P[k] = P[k] + K[k] @ (P[k + 1] - Pp[k]) @ K[k].T
    return x, P, K, Pp


def pu_batch(f, n, d, zs, Rs, update_first):
    xs, Ps = zeros((n,) + d), zeros((n, f.dim_x, f.dim_x))
    xp, Pp = zeros((n,) + d), zeros((n, f.dim_x, f.dim_x))
    for i in range(n):
        if update_first:
            f.update(zs[i], Rs[i])
            xs[i], Ps[i] = f.x, f.P
        f.predict()
        xp[i], Pp[i] = f.x, f.P
        if not update_first:
            f.update(zs[i], Rs[i])
            xs[i], Ps[i] = f.x, f.P
    return xs, Ps, xp, Pp


def pu_batch2(f, n, d, zs, update_first):
    xs, Ps = zeros((n,) + d), zeros((n, f.dim_x, f.dim_x))
    for i in range(n):
        if not update_first:
            f.predict()
        f.update(zs[i])
        xs[i], Ps[i] = f.x, f.P
        if update_first:
            f.predict()
    return xs, Ps


def fixed_lag(f, zs, us, N):
    x, P, F, H, Q, R = f.x, f.P, f.F, f.H, f.Q, f.R
    I = np.eye(f.dim_x)
    smooth, hats = [], []
    y = S = K = None
    for k in range(len(zs)):
        xp = F @ x
        if us[k] is not None:
            xp = xp + f.B @ us[k]
        P = F @ P @ F.T + Q
        y = zs[k] - H @ xp
        S = H @ P @ H.T + R
        SI = np.linalg.inv(S)
        K = P @ H.T @ SI
        x = xp + K @ y
        P = (I - K @ H) @ P @ (I - K @ H).T + K @ R @ K.T
        hats.append(x)
        if k < N:
            smooth.append(x)
        else:
            smooth.append(xp)
            C = P
            for i in range(N):
                smooth[k - i] = smooth[k - i] + C @ H.T @ SI @ y
                C = C @ (F - K @ H).T
    return smooth, hats, P, y, S, K


def ut(sig, Wm, Wc, noise, mean, res):
    k, n = sig.shape
    x = np.dot(Wm, sig) if mean is None else mean(sig, Wm)
    P = zeros((n, n))
    for i in range(k):
        y = res(sig[i], x)
        P = P + Wc[i] * np.outer(y, y)
    if noise is not None:
        P = P + noise
    return x, P


def ukf_predict(f, dt, fx, args, UT, mean, res):
    sig = f.points_fn.sigma_points(f.x, f.P)
    k, n = sig.shape
    sf = zeros((k, n))
    for i in range(k):
        sf[i] = fx(sig[i], dt, **args)
    x, P = (ut if UT is None else UT)(sf, f.points_fn.Wm, f.points_fn.Wc, f.Q, mean, res)
    return x, P, f.points_fn.sigma_points(x, P)


def ukf_update(f, z, R, hx, args, UT, mean, resx, resz, add):
    sf = f.sigmas_f
    k, n = sf.shape
    Wc = f.points_fn.Wc
    m = R.shape[0]
    sh = zeros((k, m))
    for i in range(k):
        sh[i] = hx(sf[i], **args)
    zp, S = (ut if UT is None else UT)(sh, f.points_fn.Wm, Wc, R, mean, resz)
    C = zeros((n, m))
    for i in range(k):
        C = C + Wc[i] * np.outer(resx(sf[i], f.x), resz(sh[i], zp))
    SI = f.inv(S)
    K = C @ SI
    y = resz(z, zp)
    x = add(f.x, K @ y)
    P = f.P - K @ S @ K.T
    return x, P, y, S, SI, K, sh


def ukf_batch(f, zs, Rs, dts, UT):
    n = len(zs)
    d = f.x.shape[0]
    xs, Ps = zeros((n, d)), zeros((n, d, d))
    for i in range(n):
        f.predict(dt=dts[i], UT=UT)
        f.update(zs[i], R=Rs[i], UT=UT)
        xs[i] = f.x
        Ps[i] = f.P
    return xs, Ps


def ukf_rts(f, Xs, Ps, Qs, dts, UT, mean, res):
    N, n = Xs.shape
    Wc = f.points_fn.Wc
    xs, ps, Ks = Xs.copy(), Ps.copy(), zeros((N, n, n))
    for k in range(N - 2, -1, -1):
        sig = f.points_fn.sigma_points(xs[k], ps[k])
        q = sig.shape[0]
        sf = zeros((q, n))
        for i in range(q):
            sf[i] = f.fx(sig[i], dts[k + 1])
        xb, Pb = (ut if UT is None else UT)(sf, f.points_fn.Wm, Wc, Qs[k + 1], mean, res)
        C = 0
        for i in range(q):
            C = C + Wc[i] * np.outer(res(sig[i], xs[k]), res(sf[i], xb))
        K = C @ f.inv(Pb)
        xs[k] = xs[k] + K @ res(xs[k + 1], xb)
        ps[k] = ps[k] + K @ (ps[k + 1] - Pb) @ K.T
        Ks[k] = K
    return xs, ps, Ks


def ckf_predict(x, P, Q, dt, fx, a1, mean, res):
    n = P.shape[0]
    L = np.linalg.cholesky(P)
    sf = zeros((2 * n, n))
    for k in range(n):
        sf[k] = fx(x + np.sqrt(n) * L[:, k], dt, *a1)
        sf[n + k] = fx(x - np.sqrt(n) * L[:, k], dt, *a1)
    x, P = ckf_moments(sf, Q, mean, res)
    return x, P, sf


def ckf_moments(s, Q, mean, res):
    k, n = s.shape
    x = zeros(n)
    if mean is None:
        for i in range(k):
            x = x + s[i] / k
    else:
        x = mean(s, np.full(k, 1.0 / k))
    P = zeros((n, n))
    for i in range(k):
        y = res(s[i], x)
        P = P + np.outer(y, y) / k
    return x, P + Q


def ckf_update(x, P, sf, z, R, hx, a1, mean, resx, resz):
    k, n = sf.shape
    m = R.shape[0]
    sh = zeros((k, m))
    for i in range(k):
        sh[i] = hx(sf[i], *a1)
    zp, S = ckf_moments(sh, R, mean, resz)
    C = zeros((n, m))
    for i in range(k):
        C = C + np.outer(resx(sf[i], x), resz(sh[i], zp)) / k
    SI = np.linalg.inv(S)
    K = C @ SI
    y = resz(z.reshape(m, 1), zp.reshape(m, 1)).reshape(m)
    return x + K @ y, P - K @ S @ K.T, y, S, SI, K, sh


def enkf_predict(sig, Q, fx, dt, rng):
    N, n = sig.shape
    s = zeros((N, n))
    e = rng(zeros(n), Q, N)
    for i in range(N):
        s[i] = fx(sig[i], dt) + e[i]
    x = zeros(n)
    for i in range(N):
        x = x + s[i] / N
    P = zeros((n, n))
    for i in range(N):
        P = P + np.outer(s[i] - x, s[i] - x) / (N - 1)
    return s, x, P


def enkf_update(sig, x, P, z, R, hx, rng, inv):
    N, n = sig.shape
    m = R.shape[0]
    sh = zeros((N, m))
    for i in range(N):
        sh[i] = hx(sig[i])
    zm = zeros(m)
    for i in range(N):
        zm = zm + sh[i] / N
    S = R
    C = zeros((n, m))
    for i in range(N):
        S = S + np.outer(sh[i] - zm, sh[i] - zm) / (N - 1)
        C = C + np.outer(sig[i] - x, sh[i] - zm) / (N - 1)
    SI = inv(S)
    K = C @ SI
    e = rng(zeros(m), R, N)
    s = zeros((N, n))
    xx = zeros(n)
    for i in range(N):
        s[i] = sig[i] + K @ (z + e[i] - sh[i])
    for i in range(N):
        xx = xx + s[i] / N
    return s, xx, P - K @ S @ K.T, S, SI, K


# ------------------------------------------------------------ g-h and friends
def gh_step(x, dx, dt, g, h, z):
    xp = x + dx * dt
    y = z - xp
    return xp + g * y, dx + h * y / dt, xp, dx, y


def ghk_step(x, dx, ddx, dt, g, h, k, z):
    xp = x + dx * dt + ddx * dt * dt / 2
    dxp = dx + ddx * dt
    y = z - xp
    return xp + g * y, dxp + h * y / dt, ddx + 2 * k * y / (dt * dt), xp, dxp, ddx, y


def gh_batch(x, dx, dt, g, h, zs):
    n = len(zs)
    r, p = zeros((n + 1, 2)), zeros(n)
    r[0, 0], r[0, 1] = x, dx
    for i in range(n):
        x, dx, xp, dxp, y = gh_step(x, dx, dt, g, h, zs[i])
        r[i + 1, 0], r[i + 1, 1], p[i] = x, dx, xp
    return r, p


def ghk_batch(x, dx, ddx, dt, g, h, k, zs):
    n = len(zs)
    r, p = zeros((n + 1, 2)), zeros(n)
    r[0, 0], r[0, 1] = x, dx
    for i in range(n):
        x, dx, ddx, xp, dxp, ddxp, y = ghk_step(x, dx, ddx, dt, g, h, k, zs[i])
        r[i + 1, 0], r[i + 1, 1], p[i] = x, dx, xp
    return r, p


def gh_vrf(g, h, dt):
    d = g * (4 - 2 * g - h)
    return (2 * h + 2 * g ** 2 - 3 * g * h) / d, 2 * h ** 2 / (d * dt ** 2), (2 * g ** 2 + 2 * h + g * h) / d


def ghk_vrf(g, h, k, dt):
    a = 4 - 2 * g - h
    b = g * h + g * k - 2 * k
    vx = (2 * h * (2 * g ** 2 + 2 * h - 3 * g * h) - 2 * g * k * a) / (2 * a * b)
    vdx = (2 * h ** 3 - 4 * h ** 2 * k + 4 * k ** 2 * (2 - g)) / (a * b * dt ** 2)
    vddx = 8 * h * k ** 2 / (a * b * dt ** 4)
    c = 2 * g + h - 4
    return vx, vdx, vddx, (g * k * c + h * (g * (2 * g + h) + 2 * h)) / ((2 * k - g * (h + k)) * c)


def optimal_noise_smoothing(g):
    h = (2 * g ** 3 - 4 * g ** 2 + (4 * g ** 6 - 64 * g ** 5 + 64 * g ** 4) ** .5) / (8 * (1 - g))
    return g, h, (h * (2 - g) - g ** 2) / g


def least_squares_parameters(n):
    return 2 * (2 * n + 1) / ((n + 2) * (n + 1)), 6 / ((n + 2) * (n + 1))


def critical_damping2(t):
    return 1 - t ** 2, (1 - t) ** 2


def critical_damping3(t):
    return 1 - t ** 3, 1.5 * (1 - t ** 2) * (1 - t), .5 * (1 - t) ** 3


def benedict_bordner(g):
    return g, g ** 2 / (2 - g)


def benedict_bordner_critical(g):
    return g, .8 * (2 - g ** 2 - 2 * (1 - g ** 2) ** .5) / g ** 2


# least squares: gains, residual and state at the n-th measurement
def ls_step(order, x, n, dt, z):
    if order == 0:
        y = z - x[0]
        k = [1 / n]
        return [x[0] + k[0] * y], k, y
    if order == 1:
        y = z - (x[0] + dt * x[1])
        k = [2 * (2 * n - 1) / (n * (n + 1)), 6 / (n * (n + 1) * dt)]
        return [x[0] + dt * x[1] + k[0] * y, x[1] + k[1] * y], k, y
    d = n * (n + 1) * (n + 2)
    y = z - (x[0] + dt * x[1] + dt ** 2 * x[2] / 2)
    k = [3 * (3 * n ** 2 - 3 * n + 2) / d, 18 * (2 * n - 1) / (d * dt), 60 / (d * dt ** 2)]
    return [x[0] + dt * x[1] + dt ** 2 * x[2] / 2 + k[0] * y, x[1] + dt * x[2] + k[1] * y, x[2] + k[2] * y], k, y


def ls_std(order, n, dt, s):
    if order == 0:
        return [s / np.sqrt(n)]
    if order == 1:
        return [s * np.sqrt(2 * (2 * n - 1) / (n * (n + 1))), s / dt * np.sqrt(12 / (n * (n ** 2 - 1)))]
    d = n * (n ** 2 - 1) * (n ** 2 - 4)
    return [s * np.sqrt(3 * (3 * n ** 2 - 3 * n + 2) / (n * (n + 1) * (n + 2))),
            s / dt * np.sqrt(12 * (16 * n ** 2 - 30 * n + 11) / d), s / dt ** 2 * np.sqrt(720 / d)]


# fading-memory polynomial filter
def fm_step(order, x, b, dt, z):
    if order == 0:
        return [x[0] + (1 - b) * (z - x[0])]
    if order == 1:
        y = z - (x[0] + dt * x[1])
        return [x[0] + dt * x[1] + (1 - b ** 2) * y, x[1] + (1 - b) ** 2 / dt * y]
    y = z - (x[0] + dt * x[1] + dt ** 2 * x[2] / 2)
    return [x[0] + dt * x[1] + dt ** 2 * x[2] / 2 + (1 - b ** 3) * y, x[1] + dt * x[2] + 1.5 * (1 - b) ** 2 * (1 + b) / dt * y,
            x[2] + (1 - b) ** 3 / dt ** 2 * y]


def fm_P(order, b, dt):
    if order == 0:
        return [(1 - b) / (1 + b)]
    if order == 1:
        return [(1 - b) * (1 + 4 * b + 5 * b ** 2) / (1 + b) ** 3, 2 * (1 - b) ** 3 / ((1 + b) ** 3 * dt ** 2)]
    return [(1 - b) * (1 + 6 * b + 16 * b ** 2 + 24 * b ** 3 + 19 * b ** 4) / (1 + b) ** 5,
            (1 - b) ** 3 * (13 + 50 * b + 49 * b ** 2) / (2 * (1 + b) ** 5 * dt ** 2), 6 * (1 - b) ** 5 / ((1 + b) ** 5 * dt ** 4)]


def fm_e(order, b, dt):
    if order == 0:
        return [dt * b / (1 - b)]
    if order == 1:
        return [2 * dt ** 2 * b ** 2 / (1 - b) ** 2, dt * (1 + 3 * b) / (1 - b)]
    return [6 * dt ** 3 * b ** 3 / (1 - b) ** 3, dt ** 2 * (2 + 5 * b + 11 * b ** 2) / (1 - b) ** 2, 6 * dt * (1 + 2 * b) / (1 - b)]


# ------------------------------------------------------------ model builders
def in_blocks(q, d, bs, by_dim):
    D = zeros((d * bs, d * bs))
    for a in range(d):
        for b in range(d):
            for c in range(bs):
                if by_dim:
                    D[c * d + a, c * d + b] = q[a][b]
                else:
                    D[a * bs + c, b * bs + c] = q[a][b]
    return D


def by_derivative(Q, d, bs):
    return in_blocks(Q.tolist(), d, bs, False)


def fact(k):
    r = 1
    for i in range(k):
        r = r * (i + 1)
    return r


def q_discrete(d, dt, var, bs, by_dim):
    top = 2 if d < 4 else 3
    g = [dt ** (top - i) / fact(top - i) for i in range(d)]
    return in_blocks([[g[i] * g[j] * var for j in range(d)] for i in range(d)], d, bs, by_dim)


def q_continuous(d, dt, density, bs, by_dim):
    # integral over [0, dt] of phi(t) phi(t)^T with phi_i = t^(d-1-i)/(d-1-i)!
    q = []
    for i in range(d):
        row = []
        for j in range(d):
            a = d - 1 - i
            b = d - 1 - j
            row.append(density * dt ** (a + b + 1) / (fact(a) * fact(b) * (a + b + 1)))
        q.append(row)
    return in_blocks(q, d, bs, by_dim)


def kinematic_F(order, dt):
    n = order + 1
    F = zeros((n, n))
    for i in range(n):
        for j in range(n):
            if j >= i:
                F[i, j] = dt ** (j - i) / fact(j - i)
    return F


def kinematic_kf_F(d, order, dt, by_dim):
    F = kinematic_F(order, dt)
    n = order + 1
    return in_blocks([[F[i, j] for j in range(n)] for i in range(n)], n, d, by_dim)


def kinematic_kf_H(d, order, dz, by_dim):
    H = zeros((dz, d * (order + 1)))
    for i in range(dz):
        for c in range(d):
            if by_dim:
                H[i, c * (order + 1)] = 1.
            else:
                H[i, c] = 1.
    return H


def van_loan(F, G, dt):
    n = F.shape[0]
    A = np.block([[-F * dt, G @ G.T * dt], [zeros((n, n)), F.T * dt]])
    B = expm(A)
    phi = B[n:, n:].T
    return phi, phi @ B[:n, n:]


def linear_ode(F, LQL, dt):
    n = F.shape[0]
    phi = np.block([[F, LQL], [zeros((n, n)), -F.T]])
    E = expm(phi * dt)
    # columns belonging to the second half
    return expm(F * dt), E[:n, n:] @ np.linalg.inv(E[n:, n:])


def bayes_predict(pdf, offset, kernel, mode, cval):
    if mode == 'wrap':
        return ndimage.convolve(np.roll(pdf, offset), kernel, mode='wrap')
    return ndimage.convolve(ndimage.shift(pdf, offset, cval=cval), kernel, mode='constant', cval=cval)


# ---------------------------------------------------------------- statistics
def nees(xs, es, ps):
    out = []
    for k in range(len(xs)):
        e = xs[k] - es[k]
        out.append(e.T @ np.linalg.inv(ps[k]) @ e)
    return np.array(out)


def ellipse(P, k):
    U, s, V = np.linalg.svd(P)
    return np.arctan2(U[1, 0], U[0, 0]), k * np.sqrt(s[0]), k * np.sqrt(s[1])


def student_t(df, mu, std):
    g = random.gauss(0, std)
    chi2 = random.gammavariate(df / 2, 2.)
    return mu + g / (chi2 / df) ** .5


def gauss_curve(mean, sd, lo, hi, curve):
    if lo is None:
        lo = mean + sd * norm.ppf(.001)
        hi = mean + sd * norm.ppf(.999)
    xs = np.arange(lo, hi, (hi - lo) / 1000.)
    if curve == 'pdf':
        return xs, norm.pdf(xs, mean, sd), lo, hi
    return xs, norm.cdf(xs, mean, sd), lo, hi


def cumulative(ys):
    return np.cumsum(ys)


def rk4(y, x, h, f):
    a = f(y, x)
    b = f(y + h * a / 2, x + h / 2)
    c = f(y + h * b / 2, x + h / 2)
    d = f(y + h * c, x + h)
    return y + h / 6 * (a + 2 * b + 2 * c + d)


def inv_diag(S):
    out = zeros(S.shape)
    for i in range(S.shape[0]):
        out[i, i] = 1 / S[i, i]
    return out


# objects for the Saver and comparison checks
class Inner(object):
    def __init__(self, m):
        self.m = m


class Watched(object):
    def __init__(self, x, P, inner, hx, hist, dt):
        self.x = x
        self.P = P
        self.inner = inner
        self.hx = hx
        self.hist = hist
        self.dt = dt
        self.text = 'abc'
        self.none = None
        self.flag = True
        self._hidden = x[:, 0] * 2
        self._cache = None

    @property
    def likelihood(self):
        return self.P * self.dt

    @property
    def live(self):
        return self.x

    @property
    def nested(self):
        return [self.x, [self.P, self.dt]]

    def step(self):
        self.x = self.x + 1


class Numeric(object):
    def __init__(self, x, P, w, dt, v):
        self.x = x
        self.P = P
        self.w = w
        self.dt = dt
        self.v = v

    @property
    def trace2(self):
        return self.dt * 2
