"""C09: no random key is ever used twice."""
import random as pyrandom

import numpy as np

from vc.harness import Unit
from checks.rand_common import VARIANTS, run_sampler, setup
from checks.c08 import S, _assume_params
from checks.plugin_common import SPECS, all_plugins, find, run_plugin
import checks.plugin_specs  # noqa: F401

ASSUMPTIONS = [
    "keys form a free algebra: different derivations of a key (split indices, fold-ins) give different keys, and a key is only derivable from its ancestors",
    "composition over the steps of a simulation: the generated function threads the returned key (C15), the likelihood and the context thread it on (C17, C22)",
    "uniform_key_vectorized takes one key per event and returns none (documented); it is not used by the bundled steps",
]


def _sampler(name, variant):
    kinds, extra, _ = S[name]

    def run(env):
        from vc.keys import check_keys, key_of
        dims, it = setup(env, name)
        if name == "generalized_poisson":
            it.loop_inv = lambda k, v: v >= 0
            _assume_params(env, it, name)
        env.reachable("requires satisfiable")
        r = run_sampler(env, it, dims, name, kinds, variant, extra=extra)
        check_keys(env, ("in", "key"), key_of(r.key), log=r.log)
        env.check("the sampler draws", any(h not in ("split", "fold_in") for _, h, _ in r.log), "no draw")
    return run


def _hybrid(variant):
    def run(env):
        from vc import jx
        from vc.keys import check_keys, key_of
        from vc.util import repo_fn
        F32, I32 = np.float32, np.int32
        dims = jx.Dims(env, ["N", "K", "T"])
        it = jx.Interp(env, dims, label="binomial_hybrid")
        f = repo_fn("appletree.randgen", "binomial_hybrid")
        psh, ssh, osh = VARIANTS[variant]
        sh = psh(0, dims["N"], None)
        cj, _ = jx.trace(lambda k, p, n: f(k, p, n, ssh(dims["N"], None), dims["T"]), [jx.SDS((2,), np.uint32), jx.SDS(sh, F32), jx.SDS(sh, I32)])
        env.reachable("requires satisfiable")
        outs = it.run(cj, [it.key_array("key"), it.sym_array("p", sh, F32), it.sym_array("n", sh, I32)])
        check_keys(env, ("in", "key"), key_of(outs[0]))
    return run


def _plugin(module, cls, kw):
    def run(env):
        from vc.keys import check_keys, key_of
        r = run_plugin(env, module, cls, spec=find(module, cls), **kw)
        env.reachable("requires satisfiable")
        check_keys(env, ("in", "key"), key_of(r.key_out), log=r.log)
    return run


PKW = {"EField": [{"flags": {"efield_position_dependence": False}}, {"flags": {"efield_position_dependence": True}}],
       "MonoEnergiesSpectra": [{"two_d": True}], "MonoEnergiesClipEff": [{"two_d": True}]}


def units():
    p = "appletree/randgen.py:"
    us = []
    for name in S:
        for v in VARIANTS:
            us.append(Unit("%s (%s)" % (name, v), [p + name], _sampler(name, v)))
    for v in ("scalars, shape (N,)", "arrays (N,), no shape"):
        us.append(Unit("binomial_hybrid (%s)" % v, [p + "binomial_hybrid"], _hybrid(v)))
    for module, cls, _ in all_plugins():
        for kw in PKW.get(cls, [{}]):
            us.append(Unit("%s.%s%s" % (module, cls, "" if not kw else " (%s)" % list(kw.values())[0]),
                           ["appletree/plugins/%s.py:%s" % (module, cls)], _plugin(module, cls, kw)))
    return us


# ------------------------------------------------------------------ concrete: keys recorded while the real code runs
class Recorder:
    def __init__(self):
        self.draws, self.parent, self.out = [], {}, []

    def __enter__(self):
        import jax
        self.mod, self.saved = jax.random, {}
        for n in ("uniform", "normal", "poisson", "gamma", "bernoulli", "binomial", "truncated_normal", "exponential", "beta", "choice", "randint",
                  "categorical", "permutation", "laplace", "cauchy", "t", "bits"):
            if hasattr(jax.random, n):
                self.saved[n] = getattr(jax.random, n)
                setattr(jax.random, n, self.wrap(n, self.saved[n]))
        self.saved["split"] = jax.random.split
        self.saved["fold_in"] = jax.random.fold_in
        jax.random.split = self.split(self.saved["split"])
        jax.random.fold_in = self.fold(self.saved["fold_in"])
        self.dj = jax.disable_jit()
        self.dj.__enter__()
        return self

    def __exit__(self, *a):
        self.dj.__exit__(*a)
        for n, f in self.saved.items():
            setattr(self.mod, n, f)

    @staticmethod
    def words(key):
        return tuple(int(x) for x in np.asarray(key).ravel())

    def wrap(self, n, f):
        def g(key, *a, **k):
            self.draws.append((self.words(key), n))
            return f(key, *a, **k)
        return g

    def split(self, f):
        def g(key, num=2):
            r = f(key, num)
            for row in np.asarray(r).reshape(-1, 2):
                self.parent[self.words(row)] = self.words(key)
            return r
        return g

    def fold(self, f):
        def g(key, data):
            r = f(key, data)
            self.parent[self.words(r)] = self.words(key)
            return r
        return g

    def derives(self, a, k):
        n = 0
        while k is not None and n < 10000:
            if k == a:
                return True
            k = self.parent.get(k)
            n += 1
        return False


def judge(rec, key_in, key_out, what):
    ki, ko = rec.words(key_in), rec.words(key_out)
    if not rec.draws:
        return None if ki == ko else "%s draws nothing but returns another key" % what
    seen = {}
    for k, n in rec.draws:
        if k in seen:
            return "%s uses the same key for two draws (%s and %s)" % (what, seen[k], n)
        seen[k] = n
    if ko == ki:
        return "%s draws but returns the key it was given" % what
    for k, n in rec.draws:
        if rec.derives(ko, k):
            return "%s: the key of the %s draw can be derived from the returned key" % (what, n)
        if not rec.derives(ki, k):
            return "%s: the key of the %s draw does not derive from the given key" % (what, n)
    if not rec.derives(ki, ko):
        return "%s: the returned key does not derive from the given key" % what
    return None


NAMES = ["uniform", "normal", "truncate_normal", "skewnormal", "bernoulli", "binomial", "binomial_hybrid", "poisson", "gamma", "negative_binomial",
         "generalized_poisson", "twohalfnorm"]


def cases(rng, tier):
    done = set()
    while True:
        for nm in NAMES:
            yield dict(kind="sampler " + nm, sampler=nm, seed=rng.randrange(1 << 30), variant=rng.choice(["shape", "arrays", "scalar"]))
        for s in SPECS:
            yield dict(kind="step " + s.cls, module=s.module, cls=s.cls, seed=rng.randrange(1 << 30),
                       flags={"efield_position_dependence": 1} if s.cls == "EField" and s.cls in done else {})
            done.add(s.cls)


def run_case(c):
    import jax
    from checks import plugin_concrete as pc
    from checks.c08 import DOM
    from vc.harness import SkipCase
    from vc.util import repo_fn
    rng = pyrandom.Random(c["seed"])
    key = jax.random.PRNGKey(rng.randrange(1 << 30))
    if "sampler" in c:
        nm = c["sampler"]
        x = DOM[nm](rng)
        if nm == "uniform":
            x[1] = x[0] + 1
        if nm == "truncate_normal":
            x[2], x[3] = x[0] - 1, x[0] + 1
        a = [(np.int32 if (nm.startswith("binom") and j == 1) else np.float32)(v) for j, v in enumerate(x)]
        shape = (3,) if c["variant"] == "shape" else ()
        if c["variant"] == "arrays":
            a = [np.full((4,), v) for v in a]
        f = repo_fn("appletree.randgen", nm)
        with Recorder() as rec:
            k2, _ = f(key, *a, shape=shape)
        return judge(rec, key, k2, nm)
    s = find(c["module"], c["cls"])
    p = pc.plugin(c["module"], c["cls"], c["flags"])
    par = pc.gen_par(rng, s, list(p.parameters) + pc.sigma_pars(p), 0)
    if par is None:
        raise SkipCase()
    n0, pc.N = pc.N, 3
    try:
        i = pc.gen_inputs(rng, [d for d in p.depends_on if d != "batch_size"], 2 if s.cls in pc.TWO_D else None)
        args = [3 if d == "batch_size" else i[d] for d in p.depends_on]
    finally:
        pc.N = n0
    with Recorder() as rec:
        res = p.simulate(key, par, *args)
    return judge(rec, key, res[0], s.name)
