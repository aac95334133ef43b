from functools import lru_cache

_SEEN = {}


def bad_global(x):
    _SEEN[x] = 1


def bad_default(x, seen=[]):
    seen.append(x)
    return seen


@lru_cache
def bad_memo(X):
    return X.mean()


def good_local(x):
    seen = {}
    seen[x] = 1
    return seen


def cache_method(name):
    return lambda f: f


class Est:
    shared = {}

    def __init__(self, alpha=1):
        self.alpha = alpha
        self._cache = {}

    @cache_method("_cache")
    def expr(self, X):
        return X.mean()

    def bad_warm(self, X):
        start = self.coef_
        self.coef_ = X.mean() + start

    def bad_partial(self, X):
        if self.alpha > 1:
            self.coef_ = X.mean()
        return self.coef_

    def bad_has(self, X):
        if hasattr(self, "coef_"):
            return self
        self.coef_ = X.mean()

    def bad_cache(self, X):
        self.mu_ = self.expr(X)
        self._cache = {}

    def good_cache(self, X):
        self._cache = {}
        self.mu_ = self.expr(X)

    def good_fit(self, X):
        self.coef_ = X.mean() * self.alpha
        self.twice_ = 2 * self.coef_
