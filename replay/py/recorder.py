"""stands in for the extension module: records constructor and fit arguments"""
import numpy as np

LOG = []
COEF = [None]


def _cls(name):
    class W:
        def __init__(self, *args, **kw):
            LOG.append(("new", name, args, dict(kw), id(self)))

        def fit(self, *args, **kw):
            LOG.append(("fit", name, args, dict(kw), id(self)))
            return COEF[0]

        def fit_sparse(self, *args, **kw):
            LOG.append(("fit_sparse", name, args, dict(kw), id(self)))
            return COEF[0]
    W.__name__ = name
    return W


for _n in ("Lasso", "MultiTaskLasso", "ElasticNet", "MultiTaskElasticNet", "MCP", "BlockMCP"):
    globals()[_n + "Wrapper"] = _cls(_n + "Wrapper")
