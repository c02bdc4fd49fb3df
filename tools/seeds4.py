A = "appletree/"
PL, CX = A + "plot.py", A + "context.py"
FIT = """
import json, h5py, emcee
d = tempfile.TemporaryDirectory()
f = os.path.join(d.name, "fit.h5")


def store(chain, lp, names):
    n, w, p = chain.shape
    b = emcee.backends.HDFBackend(f)
    b.reset(w, p)
    b.grow(n, np.zeros(w))
    with h5py.File(f, "a") as g:
        m = g["mcmc"]
        m["chain"][...] = chain
        m["log_prob"][...] = lp
        m["blobs"][...] = lp - 1
        m.attrs["iteration"] = n
        m.attrs["parameter_fit"] = names
        m.attrs["par_config"] = json.dumps({x: dict(prior_type="free") for x in names})


from appletree.plot import Plotter
rng = np.random.default_rng(5)
chain = rng.normal(size=(6, 4, 2))
lp = -rng.random((6, 4))
"""
SEEDS = {
    "c34-firstwalker": dict(property="C34", edits=[(PL, "        mask = np.all(mask, axis=1)\n", "        mask = mask[:, 0]\n")],
        needs="a step in which another walker than the first has an infinite posterior", breaks="unusable samples stay in the chain",
        demo=FIT + """
lp[3, 2] = -np.inf
store(chain, lp, ["a", "b"])
p = Plotter(f)
assert p.chain.shape == (5, 4, 2) and np.isfinite(p.posterior).all(), p.chain.shape
"""),
    "c34-sortednames": dict(property="C34", edits=[(PL, "for i, key in enumerate(self.param_names)}\n\n        self.n_iter", "for i, key in enumerate(sorted(self.param_names))}\n\n        self.n_iter")],
        needs="fitted parameters that are not in alphabetical order", breaks="the best-fit values are reported under the wrong names",
        demo=FIT + """
store(chain, lp, ["b", "a"])
p = Plotter(f)
best = chain.reshape(-1, 2)[lp.ravel().argmax()]
assert np.allclose([p.param_mpe["b"], p.param_mpe["a"]], best, rtol=1e-5), (p.param_mpe, best)
"""),
    "c35-poplog": dict(property="C35", edits=[(PL, "        is_log_axes.pop(axis_idx)\n", "        is_log_axes.pop()\n")],
        needs="a map with linear and logarithmic axes of which not the last one is collapsed", breaks="the remaining axis gets the scale of the collapsed one",
        demo="""
from appletree.plot import _collapse_regbin_map
r = _collapse_regbin_map(np.arange(6.0).reshape(2, 3), ["e", "z"], [1.0, 0.0], [10.0, 2.0], {"e": None}, [True, False])
assert list(r[1]) == ["z"] and list(r[4]) == [False], r
"""),
    "c35-onenode": dict(property="C35", edits=[(PL, "            if not np.any(mask):\n", "            if np.count_nonzero(mask) < 2:\n")],
        needs="a range that holds exactly one node", breaks="the mean is taken over all nodes instead",
        demo="""
from appletree.plot import _collapse_regbin_map
r = _collapse_regbin_map(np.arange(6.0).reshape(2, 3) ** 2, ["e", "z"], [1.0, 0.0], [10.0, 2.0], {"z": (0.5, 1.5)}, False)
assert np.allclose(r[0], [1.0, 16.0]), r
"""),
    "c31-firststep": dict(property="C31", edits=[(CX, "context.sampler.get_chain()[-1, :, :]", "context.sampler.get_chain()[:1, :, :].mean(axis=0)")],
        needs="continuing the fit of another context", breaks="the walkers start at the first step of the other chain",
        demo="""
from appletree.context import Context
chain = np.arange(24.0).reshape(3, 4, 2)


class S:
    def get_chain(self):
        return chain

    def run_mcmc(self, p0, *a, **k):
        self.p0 = p0


class C(Context):
    def __init__(self):
        self.sampler = S()

    def pre_fitting(self, **k):
        pass

    def _dump_meta(self, **k):
        pass


a, b = C(), C()
b.continue_fitting(context=a, iteration=1)
assert np.allclose(np.array(b.sampler.p0), chain[-1]), b.sampler.p0
"""),
    "c31-reset": dict(property="C31", edits=[(CX, "            read_only=False,\n            reset=False,\n            batch_size=batch_size,\n            moves=moves,\n            repeat_times=repeat_times,\n        )\n\n        result = self.sampler.run_mcmc(\n            p0,\n", "            read_only=False,\n            reset=context is not self,\n            batch_size=batch_size,\n            moves=moves,\n            repeat_times=repeat_times,\n        )\n\n        result = self.sampler.run_mcmc(\n            p0,\n")],
        needs="continuing another fit into a backend file that has steps already", breaks="the steps in the backend file are lost",
        demo="""
import emcee
from appletree.context import Context
d = tempfile.TemporaryDirectory()
f = os.path.join(d.name, "fit.h5")


class P:
    parameter_fit = ["a", "b"]
    parameter_fit_array = np.zeros(2)


class C(Context):
    def __init__(self, backend):
        self.par_manager = P()
        self.backend_h5, self.instruct, self.par_config = backend, {}, {}

    def log_posterior(self, parameters, *a, **k):
        return -sum(float(x) ** 2 for x in parameters.values()), 0.0

    def _dump_meta(self, *a, **k):
        pass


p0 = np.random.default_rng(1).normal(size=(6, 2))
a, b = C(None), C(f)
a.pre_fitting(nwalkers=6, read_only=False, reset=True)
a.sampler.run_mcmc(p0, 2)
b.pre_fitting(nwalkers=6, read_only=False, reset=True)
b.sampler.run_mcmc(p0, 3)
b.continue_fitting(context=a, iteration=1)
n = emcee.backends.HDFBackend(f, read_only=True).iteration
assert n == 4, n
"""),
}
