H = "appletree/hist.py"
I = "appletree/interpolation.py"
R = "appletree/randgen.py"
P = "appletree/plugins/"
SEEDS = {
    "c01-overflow": dict(property="C01", edits=[(H, "    ind = jnp.searchsorted(bins, sample)\n", "    ind = jnp.clip(jnp.searchsorted(bins, sample), 0, len(bins) - 1)\n")],
        needs="an event above the last edge of a 1D histogram", breaks="overflow events are counted in the last bin",
        demo="""
from appletree.hist import make_hist_irreg_bin_1d
h = make_hist_irreg_bin_1d(np.array([0.5, 1.5, 9.0]), np.array([0.0, 1.0, 2.0, 4.0]), np.array([1.0, 2.0, 7.0]))
assert np.allclose(h, [1, 2, 0]), h
"""),
    "c01-rowwrap": dict(property="C01", edits=[(H, "    bin_ind = jnp.stack((ind_x, ind_y))\n", "    ind_x = jnp.where(ind_x > bins_y.shape[0], bins_y.shape[0], ind_x)\n    bin_ind = jnp.stack((ind_x, ind_y))\n")],
        needs="an event beyond the last x edge whose y lies inside the last row's edges", breaks="events outside the x range are counted in the last x bin",
        demo="""
from appletree.hist import make_hist_irreg_bin_2d
s = np.array([[0.5, 0.5], [5.0, 1.5]])
h = make_hist_irreg_bin_2d(s, np.array([0.0, 1.0, 2.0]), np.array([[0.0, 1.0, 2.0], [0.0, 1.0, 3.0]]), np.array([1.0, 4.0]))
assert np.isclose(np.sum(h), 1), h
"""),
    "c02-extrapolate": dict(property="C02", edits=[(I, "    u = jnp.clip(frac[:, 1] - j0, 0.0, 1.0)\n    w = ", "    u = jnp.maximum(frac[:, 1] - j0, 0.0)\n    w = ")],
        needs="a query above the upper edge of the second axis of a 3D map", breaks="the trilinear map extrapolates above the upper y edge",
        demo="""
from appletree.interpolation import map_interpolator_regular_binning_trilinear_3d as f
v = np.arange(27.0).reshape(3, 3, 3)
lo, up = np.zeros(3), np.ones(3)
a = f(np.array([[0.5, 1.0, 0.5]]), lo, up, v)
b = f(np.array([[0.5, 1.7, 0.5]]), lo, up, v)
assert np.allclose(a, b), (a, b)
"""),
    "c03-firstnode": dict(property="C03", edits=[(I, """    left = jnp.clip(left, 0, len(ref_pos) - 1)

    val_right = ref_val[right]
    val_left = ref_val[left]

    dist_right = jnp.abs(pos - ref_pos[right])
""", """
    val_right = ref_val[right]
    val_left = ref_val[left]

    dist_right = jnp.abs(pos - ref_pos[right])
""")],
        needs="a query below or at the first point of the curve", breaks="below the first point the last point of the curve is taken as left neighbour",
        demo="""
from appletree.interpolation import curve_interpolator as f
v = np.asarray(f(np.array([0.2, 1.5]), np.array([0.5, 1.0, 2.0]), np.array([1.0, 2.0, 50.0])))
assert 0.99 <= v[0] <= 2.01, v
"""),
    "c04-axislen": dict(property="C04", edits=[(I, "    bins2 = jnp.linspace(ref_pos_lowers[2], ref_pos_uppers[2], n2)\n    ind2 = find_nearest_indices(pos[:, 2], bins2)\n",
        "    step2 = (ref_pos_uppers[2] - ref_pos_lowers[2]) / (n1 - 1)\n    ind2 = jnp.round((pos[:, 2] - ref_pos_lowers[2]) / step2).astype(int)\n    ind2 = jnp.clip(ind2, 0, n2 - 1)\n")],
        needs="a grid whose third axis has another number of nodes than its second", breaks="the third axis is scaled with the node count of the second",
        demo="""
from appletree.interpolation import map_interpolator_regular_binning_nearest_neighbor_3d as f
v = np.arange(24.0).reshape(2, 3, 4)
r = f(np.array([[0.0, 0.0, 1.9]]), np.zeros(3), np.array([1.0, 2.0, 3.0]), v)
assert float(r[0]) == v[0, 0, 2], r
"""),
    "c08-lowerlimit": dict(property="C08", edits=[(R, "    rvs = jnp.clip(rvs, vmin, vmax)\n", "    if vmax is not None:\n        rvs = jnp.minimum(rvs, vmax)\n    elif vmin is not None:\n        rvs = jnp.maximum(rvs, vmin)\n")],
        needs="both truncation limits given and the lower one reached", breaks="with two limits the lower truncation limit is ignored",
        demo="""
import jax
from appletree.randgen import truncate_normal
_, r = truncate_normal(jax.random.PRNGKey(0), 0.0, 1.0, -0.1, 5.0, shape=(200,))
assert np.min(np.asarray(r)) >= -0.1001, np.min(np.asarray(r))
"""),
    "c08-gammarate": dict(property="C08", edits=[(R, "    shape = shape or jnp.broadcast_shapes(jnp.shape(a), jnp.shape(loc), jnp.shape(scale))\n", "    shape = shape or jnp.broadcast_shapes(jnp.shape(loc), jnp.shape(scale))\n    if jnp.ndim(a) > len(shape):\n        a = jnp.ravel(a)[0]\n")],
        needs="a skewness array with scalar location and scale", breaks="the skew normal sampler collapses an array of skewnesses to its first element",
        demo="""
import jax
from appletree.randgen import skewnormal
_, r = skewnormal(jax.random.PRNGKey(0), np.array([0.0, 5.0, -5.0], np.float32), 0.0, 1.0)
assert np.shape(r) == (3,), np.shape(r)
"""),
    "c09-positionrecon": dict(property="C09", edits=[(P + "reconstruction.py", "        key, delta_y = randgen.normal(key, mean, std)\n", "        _, delta_y = randgen.normal(key, mean, std)\n")],
        needs="a later draw threaded from the returned key", breaks="the key of the y smearing can be derived again from the returned key, later steps repeat it",
        demo="""
import jax
import appletree as apt
from appletree import randgen
p = apt.plugins.PositionRecon('llh')
x = np.zeros(50, np.float32); n = np.full(50, 30, np.int32)
k, rx, ry, rz, rr = p.simulate(jax.random.PRNGKey(3), {}, x, x, x, n)
_, again = randgen.normal(k, np.zeros(50), np.ones(50))
assert abs(np.corrcoef(np.asarray(ry), np.asarray(again))[0, 1]) < 0.9
"""),
    "c09-truncbinom": dict(property="C09", edits=[(P + "er_nestv2.py", """        key, Nq = randgen.truncate_normal(
            key, Nq_mean, jnp.sqrt(fano_nq * Nq_mean), vmin=0.0, vmax=jnp.inf
        )
        Nq = Nq.round().astype(int)
        key, Ni = randgen.binomial(key, alf, Nq)
""", """        new_key, Nq = randgen.truncate_normal(
            key, Nq_mean, jnp.sqrt(fano_nq * Nq_mean), vmin=0.0, vmax=jnp.inf
        )
        Nq = Nq.round().astype(int)
        key, Ni = randgen.binomial(key, alf, Nq)
""")],
        needs="two draws of one step compared with each other", breaks="the quanta and the ions of TrueExcitonIonER are drawn with the same key",
        demo="""
import jax
import appletree as apt
used = []
import appletree.randgen as rg
orig = jax.random.normal, jax.random.binomial
def rec(f):
    def g(key, *a, **k):
        used.append(tuple(np.asarray(key).ravel().tolist()))
        return f(key, *a, **k)
    return g
for n in ('normal', 'binomial', 'bernoulli', 'uniform', 'poisson'):
    setattr(jax.random, n, rec(getattr(jax.random, n)))
p = apt.plugins.er_nestv2.TrueExcitonIonER('llh')
with jax.disable_jit():
    o = np.full(3, 20.0, np.float32)
    p.simulate(jax.random.PRNGKey(3), {}, o, o, o * 0.01, o * 0.04)
assert len(set(used)) == len(used) and len(used) >= 2, used
"""),
    "c10-clipnq": dict(property="C10", edits=[(P + "er_nestv2.py", "        num_electron = jnp.clip(num_electron.round().astype(int), 0, Ni)  # 16.02.2026 jnp.inf ->Ni\n",
        "        num_electron = jnp.clip(num_electron.round().astype(int), 0, Nq)\n")],
        needs="a recombination fluctuation upwards for an event with small recombination", breaks="electrons exceed the ions",
        demo="""
import jax
import appletree as apt
p = apt.plugins.er_nestv2.TruePhotonElectronER('llh')
n = 400
Ni = np.full(n, 50, np.int32); Nq = np.full(n, 60, np.int32)
_, ph, el = p.simulate(jax.random.PRNGKey(1), {}, np.zeros(n, np.float32), np.full(n, 9.0, np.float32), Ni, Nq)
assert np.all(np.asarray(el) <= Ni) and np.all(np.asarray(ph) + np.asarray(el) == Nq)
"""),
    "c11-s1cutneg": dict(property="C11", edits=[(P + "efficiency.py", "        cut_acc_s1 = jnp.clip(cut_acc_s1, 0.0, 1.0)\n", "        cut_acc_s1 = jnp.minimum(cut_acc_s1, 1.0)\n")],
        needs="different lower and median acceptance maps and a strongly negative scaler", breaks="the acceptance becomes negative",
        demo="""
import json
import appletree as apt
d = tempfile.mkdtemp()
fs = []
for k, s in (('m', 0.5), ('l', 0.1), ('u', 0.9)):
    f = os.path.join(d, k + '.json')
    json.dump(dict(coordinate_type='point', coordinate_name='s1', coordinate_system=[0.0, 100.0], map=[s, s]), open(f, 'w'))
    fs.append(f)
apt.set_global_config({'s1_cut_acc': fs})
p = apt.plugins.S1CutAccept('llh')
_, a = p.simulate(None, {'s1_cut_acc_sigma': -3.0}, np.array([1.0, 50.0], np.float32))
assert np.all(np.asarray(a) >= 0), a
"""),
    "c12-driftsign": dict(property="C12", edits=[(P + "detector.py", "        drift_survive_prob = jnp.exp(-jnp.abs(z) / parameters[\"drift_velocity\"] / lifetime)\n",
        "        drift_survive_prob = jnp.exp(z / parameters[\"drift_velocity\"] / lifetime)\n")],
        needs="a depth coordinate above zero", breaks="the survival probability exceeds one for positive depth coordinates",
        demo="""
import jax
import appletree as apt
p = apt.plugins.DriftLoss('llh')
_, s = p.simulate(jax.random.PRNGKey(1), {'drift_velocity': 0.0677, 'elife_sigma': 0.0}, np.array([-50.0, 20.0], np.float32))
assert np.all(np.asarray(s) <= 1), s
"""),
    "c13-halfturn": dict(property="C13", edits=[(P + "common.py", "        x = r * jnp.cos(theta)\n        y = r * jnp.sin(theta)\n", "        x = r * jnp.cos(theta)\n        y = jnp.sqrt(r2 - x**2)\n")],
        needs="looking at the sign of y over many events", breaks="only the half disc y >= 0 is filled (not uniform in area)",
        demo="""
import jax
import appletree as apt
p = apt.plugins.PositionSpectra('llh')
_, x, y, z = p.simulate(jax.random.PRNGKey(1), {}, 500)
assert np.mean(np.asarray(y) < 0) > 0.3, np.mean(np.asarray(y) < 0)
"""),
}
