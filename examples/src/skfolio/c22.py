"""Examples for C22."""

import numpy as np
import scipy.stats as st
import sklearn.utils as sku


def bad_reseed(n, seed=None):
    np.random.seed(seed)
    return np.random.rand(n)


def bad_shared(n, seed=None):
    rng = np.random.default_rng(seed)
    return rng.random(n) + np.random.rand(n)


def bad_unseeded(n, random_state=None):
    rng = sku.check_random_state(None)
    return rng.rand(n), random_state


def bad_library(n, random_state=None):
    return st.norm.rvs(size=n), sku.check_random_state(random_state)


def good_own(n, seed=None):
    rng = np.random.RandomState(seed)
    return rng.rand(n)


def good_library(n, random_state=None):
    return st.norm.rvs(size=n, random_state=sku.check_random_state(random_state))


def good_unseeded(n):
    return np.random.rand(n)
