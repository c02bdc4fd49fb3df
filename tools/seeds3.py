A = "appletree/"
UT, RG = A + "utils.py", A + "randgen.py"
RAND = """
import jax
from appletree import randgen
key = jax.random.PRNGKey(3)
"""
SEEDS = {
    "c32-gpcap": dict(property="C32", edits=[(RG, "        key, offspring = poisson(args[0], eta * args[1])\n", "        key, offspring = poisson(args[0], eta * jnp.minimum(args[1], 100))\n")],
        needs="a generalized Poisson whose generations have more than 100 members", breaks="the expectation is too small",
        demo=RAND + """
lam = np.full(20000, 400.0, np.float32)
_, r = randgen.generalized_poisson(key, lam, np.full(20000, 0.5, np.float32))
r = np.asarray(r, float)
assert abs(r.mean() - 400) < 3, r.mean()
"""),
    "c32-hybridp": dict(property="C32", edits=[(RG, "    successes = (uniforms < p_flat[:, None]) & mask\n", "    successes = (uniforms < jnp.minimum(p_flat, 0.99)[:, None]) & mask\n")],
        needs="binomial_hybrid with a probability above 0.99 and few trials", breaks="too few successes",
        demo=RAND + """
_, r = randgen.binomial_hybrid(key, np.full(20000, 0.9995, np.float32), np.full(20000, 100, np.int32))
r = np.asarray(r, float)
assert abs(r.mean() - 99.95) < 0.05, r.mean()
"""),
    "c33-rounded": dict(property="C33", edits=[(UT, "args=(errors, 1 - chi2.cdf(1, 1))", "args=(errors, 0.32)")],
        needs="comparing the tail mass beyond the quoted errors", breaks="the mass beyond each error is 0.16 instead of 0.1587",
        demo="""
from scipy.special import erf
from appletree.utils import errors_to_two_half_norm_sigmas
a, b = errors_to_two_half_norm_sigmas([1.0, 0.5])
t = (1 - erf(1 / np.sqrt(2))) / 2
assert abs(a / (a + b) * (1 - erf(1.0 / a / np.sqrt(2))) - t) < 1e-5
assert abs(b / (a + b) * (1 - erf(0.5 / b / np.sqrt(2))) - t) < 1e-5
"""),
}
