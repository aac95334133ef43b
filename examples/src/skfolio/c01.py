import numpy as np
import sklearn.utils.validation as skv


def bad_direct(X):
    X[0] = 1


def bad_view(X):
    Y = np.asarray(X).T
    Y -= 1
    return Y


def bad_branch(X, flag):
    Y = X if flag else X.copy()
    Y.sort()


def bad_element(items):
    for x in items:
        x.update(a=1)


def _helper(x):
    x[x < 0] = 0
    return x


def bad_callee(weights):
    return _helper(weights)


def bad_frame(X):
    X.dropna(inplace=True)
    return X


def good_callee(weights):
    return _helper(np.array(weights))


def good_copy(X):
    X = X.copy()
    X -= 1
    return X


def good_scalar(x: int):
    x += 1
    return x


def good_mask(X, mask):
    Y = X[X > 0]
    Y *= 2
    return Y


class Estimator:
    def __init__(self, budget=None, sub=None):
        self.budget = budget
        self.sub = sub

    def bad_option(self, X):
        b = np.asarray(self.budget)
        b[b == 0] = 1

    def bad_validated(self, X):
        X = skv.validate_data(self, X)
        X /= 2

    def bad_nested(self, X):
        self.sub_ = self.sub.fit(X)
        mu = self.sub_.mu_
        mu *= 2

    def good_option(self, X):
        b = np.array(self.budget)
        b[b == 0] = 1
        self.mu_ = X.mean()
        self.mu_ *= 2
