import joblib as jl
import sklearn as sk
import sklearn.utils.parallel as skp


def _fit(estimator, X):
    estimator.fit(X)
    return estimator


def _checked(estimator, default):
    if estimator is None:
        return default
    return sk.clone(estimator)


def _unchecked(estimator, default):
    if estimator is None:
        return default
    return estimator


def bad_argument(estimator, X):
    return estimator.fit(X)


def bad_shared(estimator, folds):
    model = sk.clone(estimator)
    return skp.Parallel()(skp.delayed(_fit)(model, X) for X in folds)


def bad_shared_loop(estimator, folds):
    model = sk.clone(estimator)
    out = []
    for X in folds:
        model.fit(X)
        out.append(model)
    return out


def bad_list(candidates, X):
    return [c.fit(X) for c in candidates]


def good_per_fold(estimator, folds):
    return skp.Parallel()(skp.delayed(_fit)(sk.clone(estimator), X) for X in folds)


def good_list(candidates, X):
    out = []
    for c in candidates:
        c = sk.clone(c)
        c.fit(X)
        out.append(c)
    return out


class Nested:
    def __init__(self, inner=None):
        self.inner = inner

    def bad_option(self, X):
        self.inner_ = _unchecked(self.inner, default=None)
        self.inner_.fit(X)

    def bad_reconfigured(self, X):
        self.inner.set_params(a=1)

    def bad_attribute(self, X):
        inner = self.inner
        inner.alpha = 2

    def good_option(self, X):
        self.inner_ = _checked(self.inner, default=Nested())
        self.inner_.fit(X)
