"""C37: estimates and models are the quantities their documentation defines.

The formula of each fitted quantity is extracted from the source, through the helper
functions it goes through, and compared by identity testing with an independent statement of
the model: the posterior in information form, the shrunk mean, the factor model, and so on.
"""

import math

from sa import matrix as m
from sa.estimators import inliner, selfterm
from sa.matrix import A, Interpreter, Obj, Points, Unknown, broadcast, close, diag, identity, matmul, scalar, solve, transpose, vector
from sa.vg import Evaluator, cval, is_const, walk

N, K, OBS = 4, 2, 17
KEPT = {"cov_nearest", "stationary_bootstrap", "equations_to_matrix", "input_to_array", "check_estimator", "check_implied_vol"}


def check(P, rep):
    rep.rule("formula", "a fitted quantity is the documented one", need=8)
    for name, tests in MODELS.items():
        c = next((c for c in P.classes.values() if c.name == name), None)
        if c is not None:
            model(P, rep, c, tests)
    for name, tests in FUNCTIONS.items():
        f = next((f for f in P.funcs.values() if f.cls is None and f.name == name), None)
        if f is not None:
            function(P, rep, f, tests)


def model(P, rep, c, tests):
    f, me = c.find_method("fit"), selfterm(c)
    if f is None:
        return
    own = inliner(c)
    ev = Evaluator(P, budget=1_500_000, inline=lambda g, *a: g.name not in KEPT and own(g))
    ev.run(f, cls=c)
    rep.saw(ev)
    for options, goals in tests:
        label = ",".join(f"{k}={v if not isinstance(v, A) else '...'}" for k, v in options.items())
        for attr, field, ref, *seen in goals:
            t = ev.st.heap.get((me, attr))
            inst = f"{c.name}({label}).{attr}{'.' + field if field else ''}"
            if t is None:
                rep.undecided("formula", inst, f.loc, "it is not set")
                continue
            verdicts = [decide(t, field, me, options, ref, seed, *seen) for seed in range(2)]
            report(rep, inst, f.loc, verdicts)


def function(P, rep, f, tests):
    for label, make, ref in tests:
        ev = Evaluator(P, budget=300_000, inline=lambda g, *a: g.name not in KEPT)
        t = ev.run(f)
        rep.saw(ev)
        verdicts = []
        for seed in range(3):
            given = make(Points(seed))

            def env(s, given=given):
                if s.op == "in":
                    k = s.args[0] if isinstance(s.args[0], str) else s.args[-1]
                    return (given[k],) if k in given else None
                return None

            verdicts.append(outcome(lambda env=env: Interpreter(env)(t), lambda given=given: ref(**given)))
        report(rep, f"{f.name}({label})", f.loc, verdicts)


def report(rep, inst, loc, verdicts):
    bad = [w for v, w in verdicts if v is False]
    unsure = [w for v, w in verdicts if v is None]
    if bad:
        rep.bad("formula", inst, loc, bad[0])
    elif unsure:
        rep.undecided("formula", inst, loc, unsure[0])
    else:
        rep.ok("formula", inst)


def outcome(got, want):
    try:
        g = got()
    except Unknown as e:
        return None, f"not decided: {e}"
    w = want()
    if isinstance(w, tuple):
        if not isinstance(g, (tuple, list)) or len(g) != len(w):
            return None, "not decided: a different kind of result"
        pairs = list(zip(g, w, strict=True))
    else:
        pairs = [(g, w)]
    for x, y in pairs:
        try:
            same = close(x, y, 1e-6)
        except Unknown as e:
            return None, f"not decided: {e}"
        if not same:
            return False, f"it gives {short(x)} where the definition gives {short(y)}"
    return True, ""


def short(v):
    v = scalar(v)
    return f"{v:.6g}" if isinstance(v, (int, float)) else f"{[round(x, 5) for x in m.arr(v).data[:4]]}"


class World:
    """Arbitrary data, options and results of nested estimators."""

    def __init__(self, seed, me, options):
        p = Points(seed)
        self.me, self.options = me, options
        self.X = p.matrix(OBS, N, -0.5, 0.6)
        self.y = p.matrix(OBS, K, -0.5, 0.6)
        self.mu, self.fmu = p.vector(N), p.vector(K)
        self.cov, self.fcov = p.spd(N, 0.3), p.spd(K, 0.3)
        self.returns, self.freturns = p.matrix(OBS + 2, N), p.matrix(OBS + 2, K)
        self.loadings, self.intercepts = p.matrix(N, K), p.vector(N)
        self.picking, self.views = p.matrix(K, N), p.vector(K)
        self.implied = p.matrix(OBS, N, 0.1, 0.6)
        self.vols = p.vector(N, 0.1, 1.0)
        self.weights = p.matrix(K, N, 0.0, 1.0)
        self.outer = p.vector(K, 0.0, 1.0)
        if "estimators" in options:
            self.options = {**options, "estimators": [(str(i), Obj(weights_=r)) for i, r in enumerate(m.rows(self.weights))]}
        self.small = options.get("_factors", False)

    def __call__(self, t):
        if t.op == "in":
            n = t.args[0] if isinstance(t.args[0], str) else t.args[-1]
            return (getattr(self, n),) if n in ("X", "y") else None
        if t.op == "attr":
            obj, n = t.args
            if obj is self.me:
                return (self.options[n],) if n in self.options else None
            if n in ("nearest", "higham", "higham_max_iteration"):
                return ({"nearest": True, "higham": False}.get(n, 100),)
            if n == "weights_":
                final = any(x.op == "attr" and x.args[0] is self.me and "final" in x.args[1] for x in walk(obj))
                return None if not final else (self.outer,)
            if n in NESTED:
                return (getattr(self, NESTED[n]),)
            if obj.op == "attr" and obj.args[1] == "prior_model_":
                of = obj.args[0]
                factors = self.small and any(x.op == "attr" and "factor" in str(x.args[1]) for x in walk(of))
                k = {"mu": "mu", "covariance": "cov", "returns": "returns"}.get(n)
                return None if k is None else (getattr(self, ("f" if factors else "") + k),)
            return None
        if t.op == "enum":
            return (str(t.args[-1]),)
        if t.op == "call":
            return self.call(t)
        if t.op == "sub" and is_const(t.args[1]) and t.args[0].op == "call" and name_of(t.args[0]) == "equations_to_matrix":
            return (((self.picking, self.views, [], []))[cval(t.args[1])],)
        return None

    def call(self, t):
        n, args, kw = name_of(t), t.args[1], dict(t.args[2])
        if n == "validate_data":
            return ((self.X, self.y),) if len(args) > 2 or "y" in kw else (self.X,)
        if n == "isinstance":
            return (True,)
        if n == "Parallel" or t.args[0].op == "call" and name_of(t.args[0]) == "Parallel":
            return ([Obj(weights_=r) for r in m.rows(self.weights)],)
        if n == "check_implied_vol":
            return (self.implied,)
        if n == "minimize":
            return (Obj(x=vector([0.3])),)
        if n == "hasattr":
            return (False,)
        return None


NESTED = {"covariance_": "cov", "mu_": "mu", "loading_matrix_": "loadings", "intercepts_": "intercepts"}


def name_of(t):
    f = t.args[0]
    if f.op in ("ext", "fn"):
        return str(f.args[0]).rpartition(".")[2]
    return f.args[1] if f.op in ("meth", "attr", "bound") and isinstance(f.args[1], str) else ""


class Reader(Interpreter):
    def call(self, t):
        n = name_of(t)
        if n == "cov_nearest":
            # nothing changes on the positive definite matrices used here
            args, kw = t.args[1], dict(t.args[2])
            return self(args[0] if args else kw["cov"])
        return super().call(t)


def decide(t, field, me, options, ref, seed, seen=None):
    w = World(seed, me, options)
    read = Reader(w)

    def got():
        x = t
        if field:
            x = settle(x, read)
            x = dict(fields(x)).get(field)
            if x is None:
                raise Unknown(f"no field {field}")
        return read(x) if seen is None else seen(read(x))

    return outcome(got, lambda: ref(w))


def settle(t, read):
    while t.op == "phi":
        t = t.args[1] if read.truth(t.args[0]) else t.args[2]
    return t


def fields(t):
    if t.op == "new" and len(t.args) > 2:
        return list(t.args[2])
    if t.op == "call" and t.args[0].op == "cls":
        return list(t.args[2])
    raise Unknown("not a model")


# -- independent statements ---------------------------------------------------------------


def add(*xs):
    return broadcast(lambda *v: sum(v), *xs)


def scale(k, x):
    return broadcast(lambda v: k * v, x)


def inverse(x):
    return solve(x, identity(x.shape[0]))


def columns(x):
    return [r.data for r in m.rows(transpose(x))]


def average(x):
    return vector([math.fsum(c) / len(c) for c in columns(x)])


def window(w, size):
    return w.X if size is None else A((size, N), w.X.data[-size * N :])


def black_litterman(w):
    o = w.options
    tau, c = o["tau"], o["view_confidences"]
    P, Q = w.picking, w.views
    own = diag(matmul(matmul(P, w.cov), transpose(P)))
    if c is None:
        omega = scale(tau, own)
    else:
        omega = vector([tau * (1 / k - 1) * x for k, x in zip(c.data, own.data, strict=True)])
    prior = inverse(scale(tau, w.cov))
    weight = diag(vector([1 / x for x in omega.data]))
    info = add(prior, matmul(matmul(transpose(P), weight), P))
    mean = solve(info, add(matmul(prior, w.mu), matmul(transpose(P), matmul(weight, Q))))
    return add(mean, vector([o["risk_free_rate"]] * N)), add(w.cov, inverse(info))


def residuals(w):
    fit = matmul(w.y, transpose(w.loadings))
    err = broadcast(lambda x, f, i: x - f - i, w.X, fit, w.intercepts)
    return vector([m.variance(1)(c) for c in columns(err)])


def factor_covariance(w):
    v = matmul(matmul(w.loadings, w.fcov), transpose(w.loadings))
    return add(v, diag(residuals(w))) if w.options["residual_variance"] else v


def log_normal(w):
    h = w.options["investment_horizon"]
    v = diag(w.cov).data
    mu = [math.exp(h * a + 0.5 * h * b) for a, b in zip(w.mu.data, v, strict=True)]
    cov = [mu[i] * mu[j] * (math.exp(h * w.cov.data[i * N + j]) - 1) for i in range(N) for j in range(N)]
    return vector(mu), A((N, N), cov)


def shrunk(w):
    o = w.options
    mu = average(w.X)
    inv = inverse(w.cov)
    one = vector([1.0] * N)
    if o["vol_weighted_target"]:
        g = scalar(matmul(matmul(one, inv), mu)) / scalar(matmul(matmul(one, inv), one))
    else:
        g = math.fsum(mu.data) / N
    target = vector([g] * N)
    d = add(mu, scale(-1, target))
    if o["method"] == "JAMES_STEIN":
        e = m.eigh(w.cov)[0].data
        b = (sum(e) - 2 * max(e)) / OBS / sum(x * x for x in d.data)
        a = 1 - b
    elif o["method"] == "BAYES_STEIN":
        q = scalar(matmul(matmul(d, inv), d))
        b = (N + 2) / ((N + 2) + OBS * q)
        a = 1 - b
    return add(scale(a, mu), scale(b, target))


def gerber(w):
    o = w.options
    x = window(w, o["window_size"])
    cols = columns(x)
    sd = [math.sqrt(m.variance(0)(c)) for c in cols]
    side = [[1 if v >= o["threshold"] * s else -1 if v <= -o["threshold"] * s else 0 for v in c] for c, s in zip(cols, sd, strict=True)]
    h = [[sum(p * q for p, q in zip(a, b, strict=True)) for b in side] for a in side]
    out = []
    for i in range(N):
        for j in range(N):
            if o["psd_variant"]:
                k = sum(1 for p, q in zip(side[i], side[j], strict=True) if p or q)
            else:
                k = math.sqrt(h[i][i] * h[j][j])
            out.append(sd[i] * sd[j] * h[i][j] / k)
    return A((N, N), out)


def correlation(x):
    sd = [math.sqrt(v) for v in diag(x).data]
    n = len(sd)
    return A((n, n), [x.data[i * n + j] / sd[i] / sd[j] for i in range(n) for j in range(n)])


def spread(x, sd):
    n = len(sd)
    return A((n, n), [x.data[i * n + j] * sd[i] * sd[j] for i in range(n) for j in range(n)])


def detoned(w):
    k = w.options["n_markets"]
    sd = [math.sqrt(v) for v in diag(w.cov).data]
    val, vec = m.eigh(correlation(w.cov))
    rest = [val.data[i] if i < N - k else 0.0 for i in range(N)]
    left = matmul(matmul(vec, diag(vector(rest))), transpose(vec))
    return spread(correlation(left), sd)


def equilibrium(w):
    o = w.options
    x = o["weights"] if o["weights"] is not None else vector([1 / N] * N)
    return scale(o["risk_aversion"], matmul(w.cov, x))


def inverse_volatility(w):
    v = [1 / math.sqrt(x) for x in diag(w.cov).data]
    return vector([x / sum(v) for x in v])


def distance(corr, o):
    c = [abs(x) if o["absolute"] else x for x in corr.data]
    c = [x ** o["power"] for x in c]
    low = min((abs(b) if o["absolute"] else b) ** o["power"] for b in (-1, 0, 1))
    d = [math.sqrt(min(1.0, max(0.0, (1 - x) / (1 - low)))) for x in c]
    return A(corr.shape, c), A(corr.shape, d)


def gram(x):
    return matmul(x, transpose(x))


def ewm(w):
    a, x = w.options["alpha"], window(w, w.options["window_size"])
    n = x.shape[0]
    k = [(1 - a) ** (n - 1 - i) for i in range(n)]
    s, cols = sum(k), columns(x)
    mu = [sum(p * q for p, q in zip(k, c, strict=True)) / s for c in cols]
    bias = s * s / (s * s - sum(p * p for p in k))
    cov = [bias * sum(p * (b - mb) * (d - md) for p, b, d in zip(k, c, e, strict=True)) / s for c, mb in zip(cols, mu, strict=True) for e, md in zip(cols, mu, strict=True)]
    return vector(mu), A((N, N), cov)


def implied(w):
    o = w.options
    adj = o["volatility_risk_premium_adj"]
    vols = [x / math.sqrt(o["annualized_factor"]) / adj for x in m.rows(w.implied)[-1].data]
    return spread(correlation(w.cov), vols)


def mixture(w):
    return matmul(transpose(w.weights), w.outer)


def distance_correlation(x, y):
    def centred(v):
        n = len(v)
        d = [[abs(p - q) for q in v] for p in v]
        r = [sum(row) / n for row in d]
        g = sum(r) / n
        return [d[i][j] - r[i] - r[j] + g for i in range(n) for j in range(n)]

    a, b = centred(x), centred(y)
    dot = lambda p, q: sum(s * t for s, t in zip(p, q, strict=True))  # noqa: E731
    return math.sqrt(max(0.0, dot(a, b))) / math.sqrt(math.sqrt(dot(a, a)) * math.sqrt(dot(b, b)))


def distance_correlations(w):
    cols = columns(w.X)
    return A((N, N), [1.0 if i == j else distance_correlation(cols[i], cols[j]) for i in range(N) for j in range(N)])


def mean_set(w):
    s = scale(1 / w.returns.shape[0], w.cov)
    return diag(diag(s)) if w.options["diagonal"] else s


def covariance_set(w):
    """The diagonal of the covariance of the sampling errors of a covariance."""
    v, n, out = w.cov.data, w.returns.shape[0], []
    c = (lambda i, j: v[i * N + j] if i == j or not w.options["diagonal"] else 0.0)
    for i in range(N):
        for j in range(N):
            out.append((c(i, i) * c(j, j) + c(i, j) ** 2) / n)
    return vector(out)


def data_correlation(w):
    return correlation(m.cov(w.X, 1, False))


def pairs(get):
    return [("codependence_", None, lambda w: distance(get(w), w.options)[0]), ("distance_", None, lambda w: distance(get(w), w.options)[1])]


WAYS = [{"absolute": a, "power": p} for a in (False, True) for p in (1, 2, 3)]
BL = [{"tau": t, "view_confidences": c, "risk_free_rate": r} for t in (0.05, 0.4) for c in (None, vector([0.3, 0.8])) for r in (0.0, 0.02)]
SHRUNK = [{"vol_weighted_target": v, "method": k} for v in (False, True) for k in ("JAMES_STEIN", "BAYES_STEIN")]
FACTORS = [{"_factors": True, "residual_variance": r, "higham": False, "max_iteration": 100} for r in (True, False)]
NEAR = {"nearest": True, "higham": False, "higham_max_iteration": 100}

MODELS = {
    "BlackLitterman": [
        (o, [("prior_model_", "mu", lambda w: black_litterman(w)[0]), ("prior_model_", "covariance", lambda w: black_litterman(w)[1]),
             ("prior_model_", "returns", lambda w: w.returns)]) for o in BL
    ],
    "FactorModel": [
        (o, [("prior_model_", "mu", lambda w: add(matmul(w.loadings, w.fmu), w.intercepts)), ("prior_model_", "covariance", factor_covariance),
             ("prior_model_", "cholesky", factor_covariance, gram), ("prior_model_", "returns", lambda w: add(matmul(w.freturns, transpose(w.loadings)), w.intercepts))]) for o in FACTORS
    ],
    "EmpiricalPrior": [
        ({"is_log_normal": True, "investment_horizon": h}, [("prior_model_", "mu", lambda w: log_normal(w)[0]), ("prior_model_", "covariance", lambda w: log_normal(w)[1]),
             ("prior_model_", "returns", lambda w: w.X)]) for h in (1, 3.5)
    ] + [({"is_log_normal": False, "investment_horizon": None}, [("prior_model_", "mu", lambda w: w.mu), ("prior_model_", "covariance", lambda w: w.cov)])],
    "ShrunkMu": [(o, [("mu_", None, shrunk)]) for o in SHRUNK],
    "EquilibriumMu": [({"risk_aversion": a, "weights": x}, [("mu_", None, equilibrium)]) for a in (1, 2.5) for x in (None, vector([0.4, 0.3, 0.2, 0.1]))],
    "EmpiricalMu": [({"window_size": k}, [("mu_", None, lambda w: average(window(w, w.options["window_size"])))]) for k in (None, 5)],
    "EmpiricalCovariance": [
        ({"window_size": k, "ddof": d, **NEAR}, [("covariance_", None, lambda w: m.cov(window(w, w.options["window_size"]), w.options["ddof"], False))])
        for k in (None, 9) for d in (1, 0)
    ],
    "GerberCovariance": [({"window_size": k, "threshold": h, "psd_variant": v, **NEAR}, [("covariance_", None, gerber)]) for k in (None, 11) for h in (0.5, 0.3) for v in (True, False)],
    "DetoneCovariance": [({"n_markets": k, **NEAR}, [("covariance_", None, detoned)]) for k in (1, 2)],
    "InverseVolatility": [({}, [("weights_", None, inverse_volatility)])],
    "EqualWeighted": [({}, [("weights_", None, lambda w: vector([1 / N] * N))])],
    "PearsonDistance": [(o, pairs(data_correlation)) for o in WAYS],
    "KendallDistance": [(o, pairs(lambda w: m.correlations(w.X, "kendall"))) for o in WAYS],
    "SpearmanDistance": [(o, pairs(lambda w: m.correlations(w.X, "spearman"))) for o in WAYS],
    "DistanceCorrelation": [({"threshold": 0.5}, [("codependence_", None, distance_correlations)])],
    "EWMu": [({"window_size": k, "alpha": a}, [("mu_", None, lambda w: ewm(w)[0])]) for k in (None, 6) for a in (0.2, 0.6)],
    "EWCovariance": [({"window_size": k, "alpha": a, **NEAR}, [("covariance_", None, lambda w: ewm(w)[1])]) for k in (None, 6) for a in (0.2, 0.6)],
    "ImpliedCovariance": [
        ({"volatility_risk_premium_adj": a, "annualized_factor": h, "window_size": 5, **NEAR}, [("covariance_", None, implied)]) for a in (1.3, 0.8) for h in (252.0, 12.0)
    ],
    "DenoiseCovariance": [(NEAR, [("covariance_", None, lambda w: diag(w.cov), diag)])],
    "StackingOptimization": [({"cv": c, "estimators": None}, [("weights_", None, mixture)]) for c in ("ignore", None)],
    "EmpiricalMuUncertaintySet": [
        ({"confidence_level": q, "diagonal": d}, [("uncertainty_set_", "k", lambda w: math.sqrt(m.chi2_ppf(w.options["confidence_level"], N))), ("uncertainty_set_", "sigma", mean_set)])
        for q in (0.95, 0.5) for d in (True, False)
    ],
    "EmpiricalCovarianceUncertaintySet": [
        ({"confidence_level": q, "diagonal": d}, [("uncertainty_set_", "k", lambda w: math.sqrt(m.chi2_ppf(w.options["confidence_level"], N * N))), ("uncertainty_set_", "sigma", covariance_set, diag)])
        for q in (0.95, 0.5) for d in (True, False)
    ],
    "CovarianceDistance": [(o, pairs(lambda w: correlation(w.cov))) for o in WAYS],
}  # fmt: skip

def exchanged(x):
    """The matrix that takes the stacked columns of a square matrix to those of its transpose."""
    n, k = x.shape
    return A((n * k, n * k), [1.0 if (r % n) * k + r // n == c else 0.0 for r in range(n * k) for c in range(n * k)])


FUNCTIONS = {
    "commutation_matrix": [("square", lambda p: {"x": p.matrix(3, 3)}, exchanged)],
    "cov_to_corr": [("any", lambda p: {"cov": p.spd(N)}, lambda cov: (correlation(cov), vector([math.sqrt(v) for v in diag(cov).data])))],
    "corr_to_cov": [("any", lambda p: {"corr": p.spd(N), "std": p.vector(N, 0.1, 2.0)}, lambda corr, std: spread(corr, std.data))],
}
