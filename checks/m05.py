"""M05: PDF, CDF, logarithmic and quantile forms agree with each other."""
import numpy as np
from scipy import integrate, special, stats

from vh.core import Case

RULE = ('every basis function is evaluated in NumPy and TensorFlow (single '
        'and double precision) for random, broadcast and extreme arguments; '
        'values are compared with independent formulas (scipy and log-space '
        'expressions), PDFs are summed/integrated, CDFs differentiated, '
        'quantile functions inverted and samples tested against the PDF; '
        'distinct = (function, precision, regime)')
ASSUMPTIONS = ['scipy.stats and scipy.integrate are correct',
               'sampling is decided with tests at the 1e-7 level']
BUDGET = {'quick': 12, 'thorough': 300}
REQUIRE = {'values': 400, 'integrals': 30, 'inversions': 20, 'samples': 10}


def functions(name):
    from egenerator.utils import basis_functions as b
    return getattr(b, name), getattr(b, 'tf_' + name)


def both(m, name, args, want, regime, rtol=1e-10, atol=1e-290,
         rtol32=2e-4, atol32=None, **kw):
    """NumPy and TensorFlow variants against the expected values."""
    import tensorflow as tf
    f, g = functions(name)
    if atol32 is None:
        atol32 = 1e-6 * np.max(np.abs(want))
    m.event('values')
    m.saw('functions', (name, 'numpy', regime))
    with np.errstate(all='ignore'):
        got = np.asarray(f(*args, **kw))
    m.check(got.shape == np.shape(want), 'shape', name, observed=got.shape,
            expected=np.shape(want))
    m.close(got, want, 'value', '{} ({})'.format(name, regime), rtol=rtol,
            atol=atol)
    for dtype, rt, at in (('float64', max(rtol, 1e-9), atol),
                          ('float32', rtol32, atol32)):
        m.event('values')
        m.saw('functions', (name, dtype, regime))
        # the expected value for the rounded arguments
        cast = [np.asarray(a).astype(dtype) for a in args]
        out = g(*[tf.constant(a) for a in cast], **kw).numpy()
        m.check(out.dtype == np.dtype(dtype), 'dtype', name + ' ' + dtype)
        if dtype == 'float64':
            m.close(out, want, 'value-tf', 'tf_{} ({})'.format(name, regime),
                    rtol=rt, atol=at)
        else:
            with np.errstate(all='ignore'):
                ref = np.asarray(f(*[c.astype('float64') for c in cast],
                                   **kw))
            m.close(out, ref, 'value-tf32', 'tf_{} ({})'.format(
                name, regime), rtol=rt, atol=at)
    return got


def draw(rng, regime, n=40):
    scale = 10**rng.uniform(-2, 4)
    mu = rng.normal(0, 3, n) * scale
    sigma = scale * 10**rng.uniform(-1, 1, n)
    r = 10**rng.uniform(-2, 2, n)
    width = {'core': 1.5, 'tail': 12., 'far': 60.}[regime]
    side = rng.choice([-1, 1], n)
    x = mu + np.where(side > 0, sigma * r, sigma) * side * np.abs(
        rng.normal(0, width, n))
    x[rng.randint(n)] = mu[0]
    mu[0] = x[0]            # exactly at the peak
    return x, mu, sigma, r


def ag_log(x, mu, sigma, r):
    width = np.where(x < mu, sigma, sigma * r)
    return 0.5 * np.log(2 / np.pi) - np.log(sigma) - np.log1p(r) \
        - 0.5 * ((x - mu) / width)**2


def ag_cdf(x, mu, sigma, r):
    left = 2 * stats.norm.cdf((x - mu) / sigma) / (1 + r)
    right = 1 - 2 * r * stats.norm.sf((x - mu) / sigma / r) / (1 + r)
    return np.where(x < mu, left, right)


def case_gauss(m, rng):
    for regime in ('core', 'tail', 'far'):
        x, mu, sigma, _ = draw(rng, regime)
        both(m, 'gauss', (x, mu, sigma), stats.norm.pdf(x, mu, sigma),
             regime, rtol=1e-8, rtol32=5e-2 if regime == 'far' else 5e-3)
        both(m, 'log_gauss', (x, mu, sigma), stats.norm.logpdf(x, mu, sigma),
             regime, rtol=1e-9, atol=1e-9, rtol32=1e-3, atol32=1e-3)
    m.event('integrals')
    f, _ = functions('gauss')
    mu, sigma = rng.normal(), 10**rng.uniform(-2, 2)
    m.close(integrate.quad(lambda t: f(t, mu, sigma), mu - 20 * sigma,
                           mu + 20 * sigma, points=[mu])[0], 1.,
            'normalization', 'gauss', rtol=1e-6)
    # broadcasting
    x, mu, sigma, _ = draw(rng, 'core', 12)
    both(m, 'gauss', (x[:, None], mu, sigma),
         stats.norm.pdf(x[:, None], mu, sigma), 'broadcast', rtol=1e-8,
         rtol32=5e-2)


def case_asymmetric(m, rng):
    for regime in ('core', 'tail', 'far'):
        x, mu, sigma, r = draw(rng, regime)
        log = ag_log(x, mu, sigma, r)
        both(m, 'asymmetric_gauss', (x, mu, sigma, r), np.exp(log), regime,
             rtol=1e-8, rtol32=5e-2 if regime == 'far' else 5e-3)
        got = both(m, 'log_asymmetric_gauss', (x, mu, sigma, r), log, regime,
                   rtol=1e-9, atol=1e-9, rtol32=1e-3, atol32=1e-3)
        m.check(np.all(np.isfinite(got)), 'finite-log', 'logarithmic form '
                'in the tails')
        cdf = both(m, 'asymmetric_gauss_cdf', (x, mu, sigma, r),
                   ag_cdf(x, mu, sigma, r), regime, rtol=1e-8, atol=1e-12,
                   rtol32=1e-3, atol32=1e-5)
        m.check(np.all((cdf >= 0) & (cdf <= 1 + 1e-12)), 'cdf-range',
                'CDF outside of [0, 1]')
    f, _ = functions('asymmetric_gauss')
    c, _ = functions('asymmetric_gauss_cdf')
    for _ in range(4):
        x, mu, sigma, r = [float(v[1]) for v in draw(rng, 'core', 3)]
        lo, hi = mu - 15 * sigma, mu + 15 * sigma * r
        m.event('integrals')
        m.saw('integrals', ('asymmetric', r > 1))
        # integrate the two sides of the peak separately
        a = integrate.quad(lambda t: f(t, mu, sigma, r), lo, mu)[0]
        b = integrate.quad(lambda t: f(t, mu, sigma, r), mu, hi)[0]
        m.close(a + b, 1., 'normalization', 'asymmetric_gauss', rtol=1e-6)
        m.close(c(mu, mu, sigma, r), a, 'cdf-integral', 'CDF at the peak',
                rtol=1e-6)
        t = rng.uniform(mu - 3 * sigma, mu + 3 * r * sigma)
        part = integrate.quad(lambda t: f(t, mu, sigma, r), lo, min(mu, t))[0]
        if t > mu:
            part += integrate.quad(lambda t: f(t, mu, sigma, r), mu, t)[0]
        m.close(c(t, mu, sigma, r), part, 'cdf-integral', 'CDF is not the '
                'integral of the PDF', rtol=1e-6, atol=1e-9)
        grid = np.linspace(lo, hi, 400)
        values = c(grid, mu, sigma, r)
        m.check(np.all(np.diff(values) >= -1e-12), 'cdf-monotone', 'CDF '
                'decreases')


def case_quantile(m, rng):
    n = 50
    _, mu, sigma, r = draw(rng, 'core', n)
    q = rng.uniform(0.002, 0.998, n)
    q[:10] = (1 / (1 + r[:10])) * rng.uniform(0.9, 1.1, 10)
    q = np.clip(q, 1e-3, 1 - 1e-3)
    q[10] = 1 / (1 + r[10])
    left = mu + sigma * stats.norm.ppf(np.clip(q * (1 + r) / 2, 0, 1))
    right = mu + sigma * r * stats.norm.isf(np.clip(
        (1 - q) * (1 + r) / (2 * r), 0, 1))
    want = np.where(q < 1 / (1 + r), left, right)
    width = np.abs(want - mu) + sigma
    x = both(m, 'asymmetric_gauss_ppf', (q, mu, sigma, r), want, 'quantile',
             rtol=1e-6, atol=1e-6 * width.max(), rtol32=2e-2,
             atol32=3e-2 * width.max())
    c, tc = functions('asymmetric_gauss_cdf')
    g, tg = functions('asymmetric_gauss_ppf')
    m.event('inversions', n)
    m.saw('inversions', 'asymmetric')
    m.close(c(x, mu, sigma, r), q, 'inverse', 'CDF of the quantile',
            rtol=1e-6, atol=1e-8)
    t = mu + np.where(rng.rand(n) < 0.5, sigma * r, -sigma) * rng.uniform(
        0, 2.5, n)
    m.close(g(c(t, mu, sigma, r), mu, sigma, r), t, 'inverse', 'quantile of '
            'the CDF', rtol=1e-5, atol=1e-5 * (sigma * (1 + r)).max())


def case_negative_binomial(m, rng):
    for regime in ('small', 'typical', 'large', 'poisson'):
        n = 30
        mu = {'small': 10**rng.uniform(-6, -1, n),
              'typical': 10**rng.uniform(-1, 2, n),
              'large': 10**rng.uniform(2, 4, n),
              'poisson': 10**rng.uniform(-1, 2, n)}[regime]
        alpha = 10**rng.uniform(-2, 1, n) if regime != 'poisson' else \
            10**rng.uniform(-4, -3, n)
        x = rng.poisson(mu * rng.uniform(0, 3, n)).astype(float)
        x[:3] = 0
        want = stats.nbinom.logpmf(x, 1 / alpha, 1 / (1 + alpha * mu))
        tol = dict(rtol=1e-6, atol=1e-7, rtol32=1e-2,
                   atol32=0.2 if regime == 'poisson' else 2e-2)
        if regime == 'large':
            tol['atol32'] = 0.2
        both(m, 'log_negative_binomial', (x, mu, alpha), want, regime,
             add_normalization_term=True, **tol)
        tol['atol32'] = tol['atol32'] * 3 + 1e-5 * np.max(
            special.gammaln(x + 1 / alpha))
        both(m, 'log_negative_binomial', (x, mu, alpha),
             want + special.gammaln(x + 1), regime, **tol)
        tolerance = (regime, 'default')
        m.saw('functions', ('log_negative_binomial',) + tolerance)
    f, _ = functions('log_negative_binomial')
    for _ in range(3):
        mu, alpha = 10**rng.uniform(-2, 1.5), 10**rng.uniform(-2, 0.3)
        k = np.arange(0, 20000.)
        p = np.exp(f(k, mu, alpha, add_normalization_term=True))
        m.event('integrals')
        m.saw('integrals', ('negative binomial', mu > 1))
        m.close(p.sum(), 1., 'normalization', 'negative binomial', rtol=1e-6)
        m.close(np.sum(k * p), mu, 'mean', 'negative binomial', rtol=1e-5)
        m.close(np.sum(k**2 * p) - mu**2, mu + alpha * mu**2, 'variance',
                'negative binomial', rtol=1e-4)
        # non-integer charges interpolate smoothly
        half = f(np.array([1.5]), mu, alpha, add_normalization_term=True)
        m.check(np.all(np.isfinite(half)), 'finite-log',
                'negative binomial at fractional charge')


def case_rayleigh(m, rng):
    sigma = 10**rng.uniform(-3, 3, 40)
    x = sigma * np.abs(rng.normal(0, 2, 40))
    both(m, 'rayleigh', (x, sigma), stats.rayleigh.pdf(x, scale=sigma),
         'core', rtol=1e-9, rtol32=2e-3)
    both(m, 'rayleigh_cdf', (x, sigma), stats.rayleigh.cdf(x, scale=sigma),
         'core', rtol=1e-7, atol=1e-12, rtol32=2e-3, atol32=1e-5)
    f, _ = functions('rayleigh')
    c, _ = functions('rayleigh_cdf')
    s = float(sigma[0])
    m.event('integrals')
    m.saw('integrals', 'rayleigh')
    m.close(integrate.quad(lambda t: f(t, s), 0, 12 * s)[0], 1.,
            'normalization', 'rayleigh', rtol=1e-6)
    t = s * rng.uniform(0.2, 3)
    m.close(c(t, s), integrate.quad(lambda u: f(u, s), 0, t)[0],
            'cdf-integral', 'rayleigh', rtol=1e-6)
    p = c(x, sigma)
    ok = p < 0.999
    m.event('inversions', int(ok.sum()))
    m.saw('inversions', 'rayleigh')
    m.close(sigma[ok] * np.sqrt(-2 * np.log1p(-p[ok])), x[ok], 'inverse',
            'rayleigh', rtol=1e-5, atol=1e-12)


def case_sampler(m, rng):
    from egenerator.utils import basis_functions as b
    f, _ = functions('log_negative_binomial')
    for i in range(4):
        mu = [10**rng.uniform(-4, -2), 10**rng.uniform(-2, 0),
              10**rng.uniform(0, 1), 10**rng.uniform(1, 2)][i]
        alpha = 10**rng.uniform(-1.5, 0.5)
        use_alpha = bool(rng.rand() < 0.5)
        n = 400000 if mu < 1e-2 else 60000
        seed = int(rng.randint(2**31))

        def sample(seed=seed):
            return b.sample_from_negative_binomial(
                np.random.RandomState(seed), mu,
                alpha if use_alpha else mu + alpha * mu**2, use_alpha,
                size=n)
        x = sample()
        m.event('samples')
        m.saw('samples', (i, use_alpha))
        m.check(x.shape == (n,) and np.all(x >= 0) and np.all(
            x == np.floor(x)), 'sample-support', 'samples are no counts')
        m.array_equal(sample(), x, 'sample-seed', 'same seed, other samples')
        # allow for the regularisation of the variance (1e-6)
        top = max(2, int(x.max()) + 1)
        var = mu + max(alpha * mu**2, 1e-6)
        k = np.arange(top)
        prob = np.exp(f(k.astype(float), mu, (var - mu) / mu**2,
                        add_normalization_term=True))
        mean = x.mean()
        spread = np.sqrt(var / n)
        m.check(abs(mean - mu) < 6 * spread + 1e-12, 'sample-mean',
                'mean of the samples', observed=mean, expected=mu,
                spread=spread)
        count = np.bincount(x.astype(int), minlength=top)[:top]
        big = prob * n > 8
        rest_p = max(1e-300, 1 - prob[big].sum())
        obs = np.append(count[big], n - count[big].sum())
        exp = np.append(prob[big], rest_p) * n
        use = exp > 1e-3
        chi = np.sum((obs[use] - exp[use])**2 / np.maximum(exp[use], 8))
        p = stats.chi2.sf(chi, use.sum())
        m.check(p > 1e-7, 'sample-distribution', 'samples do not follow the '
                'PDF', mu=mu, alpha=alpha, param_is_alpha=use_alpha,
                p=float(p))
    # arrays, single precision, limits
    shape = (40, 30)
    mu = (10**rng.uniform(-7, 2, shape)).astype(np.float32)
    alpha = (10**rng.uniform(-3, 0, shape)).astype(np.float32)
    x = b.sample_from_negative_binomial(rng, mu, alpha, True)
    m.event('samples')
    m.check(x.shape == shape, 'sample-shape', 'array of samples')
    total, spread = mu.sum(), np.sqrt((mu + alpha * mu**2).sum())
    m.check(abs(x.sum() - total) < 7 * spread + 3, 'sample-mean',
            'sum of the samples', observed=x.sum(), expected=total)
    mu0 = np.array([0., 0., 3.])
    x = b.sample_from_negative_binomial(rng, mu0, np.array([.1, .2, .1]),
                                        True, size=(50, 3))
    m.event('samples')
    m.check(np.all(x[:, :2] == 0), 'sample-zero', 'no light expected')
    # without over-dispersion: Poisson
    n, mu1 = 40000, rng.uniform(1, 10)
    x = b.sample_from_negative_binomial(rng, mu1, mu1, False, size=n)
    m.event('samples')
    m.check(abs(x.mean() - mu1) < 6 * np.sqrt(mu1 / n), 'sample-mean',
            'Poisson limit', observed=x.mean(), expected=mu1)
    m.check(abs(x.var() - mu1) < 8 * np.sqrt((mu1 + 2 * mu1**2) / n),
            'sample-variance', 'Poisson limit', observed=x.var(),
            expected=mu1)


def cases(tier):
    return [Case('gauss', case_gauss, reps=4, reps_thorough=200),
            Case('asymmetric', case_asymmetric, reps=5, reps_thorough=200),
            Case('quantile', case_quantile, reps=4, reps_thorough=200),
            Case('negative_binomial', case_negative_binomial, reps=4,
                 reps_thorough=200),
            Case('rayleigh', case_rayleigh, reps=3, reps_thorough=100),
            Case('sampler', case_sampler, reps=3, reps_thorough=100)]
