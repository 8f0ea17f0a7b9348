"""P05: reproducible randomness (spec: Random).

Every kind of random component is a recipe: how to build a model graph from seeds, and how to call it.
TLC generates histories of calls on two instances and two generators; each is run on a recipe, followed by
the same calls per generator on instances with other seeds, and the same calls per instance without the
calls that were given a generator.  The recorded trace is judged by the specification.
"""

import hashlib
import json
import os
import subprocess
import sys

import numpy as np
import pandas as pd
from astropy.table import Table
from lightcurvelynx.astro_utils.agn_utils import eddington_ratio_dist_fun
from lightcurvelynx.astro_utils.noise_model import apply_noise
from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
from lightcurvelynx.astro_utils.pzflow_node import PZFlowNode
from lightcurvelynx.astro_utils.snia_utils import HostmassX1Func, SNCoordGivenPhysicalSep
from lightcurvelynx.base_models import FunctionNode, ParameterizedNode
from lightcurvelynx.effects.basic_effects import ConstantDimming
from lightcurvelynx.effects.microlensing import Microlensing
from lightcurvelynx.effects.white_noise import WhiteNoise
from lightcurvelynx.example_runs.simulate_snia import draw_single_random_sn
from lightcurvelynx.graph_state import GraphState
from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode
from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler
from lightcurvelynx.math_nodes.given_sampler import BinarySampler, GivenValueSampler, GivenValueSelector, TableSampler
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.math_nodes.ra_dec_sampler import ApproximateMOCSampler, ObsTableRADECSampler, ObsTableUniformRADECSampler, UniformRADEC
from lightcurvelynx.math_nodes.scipy_random import NumericalInversePolynomialFunc, SampleLogPDF, SamplePDF
from lightcurvelynx.models.agn import AGN
from lightcurvelynx.models.basic_models import ConstantSEDModel, SinWaveModel, StepModel
from lightcurvelynx.models.lightcurve_template_model import MultiLightcurveTemplateModel
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel
from lightcurvelynx.models.snia_host import SNIaHost
from lightcurvelynx.models.static_sed_model import StaticBandfluxModel, StaticSEDModel
from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
from lightcurvelynx.obstable.opsim import OpSim, create_random_opsim
from lightcurvelynx.obstable.ztf_obstable import create_random_ztf_obs_data
from lightcurvelynx.simulate import simulate_lightcurves
from mocpy import MOC
from scipy.stats import norm

CONST = {"MCRecipes": {1}, "MCSeeds": {0, 1, 2}, "MCGenSeeds": {1001, 1002}, "MCNums": {1, 2}}
TIMES = np.array([10.0, 11.5, 13.0, 20.0, 21.0, 30.25])
WAVES = np.array([4000.0, 5000.0, 6000.0])
FILTERS = np.array(["g", "r", "g", "r", "r", "g"])


def bands():
    g = Passband(np.array([[4000.0, 4000.0], [5000.0, 10000.0], [6000.0, 6000.0]]), "S", "g", delta_wave=None, trim_quantile=None)
    r = Passband(np.array([[5000.0, 5000.0], [6000.0, 12000.0], [7000.0, 7000.0]]), "S", "r", delta_wave=None, trim_quantile=None)
    return PassbandGroup([g, r])


def survey(kind):
    data = {"ra": np.array([10.0, 10.5, 200.0, 10.0]), "dec": np.array([5.0, 5.2, -40.0, 5.1]), "time": np.array([10.0, 20.0, 30.0, 40.0]),
            "filter": np.array(["g", "r", "g", "r"])}
    if kind == 0:
        return FakeObsTable(dict(data, zp=np.array([1.0, 2.0, 1.5, 1.0])), const_flux_error={"g": 3.0, "r": 5.0}, radius=3.0)
    return OpSim({"fieldRA": data["ra"], "fieldDec": data["dec"], "observationStartMJD": data["time"] + 0.5, "filter": data["filter"],
                  "zp_nJy": np.array([1.0, 2.0, 1.5, 1.0]), "seeingFwhmEff": np.full(4, 1.1), "skyBrightness": np.full(4, 21.0),
                  "visitExposureTime": np.full(4, 30.0), "numExposures": np.full(4, 1), "airmass": np.full(4, 1.2)}, radius=3.0)


# ---------------------------------------------------------------- contents of results
def plain(x):
    """A canonical, process independent form of a result."""
    if isinstance(x, GraphState):
        return ["state", x.num_samples, [[n, p, plain(v)] for n, ps in x.states.items() for p, v in ps.items()]]
    if isinstance(x, (pd.DataFrame, Table)):
        return ["frame", [[str(c), plain(np.array([plain_cell(v) for v in x[c]], dtype=object))] for c in (x.columns if isinstance(x, pd.DataFrame) else x.colnames)]]
    if isinstance(x, dict):
        return ["dict", [[str(k), plain(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return ["list", [plain(v) for v in x]]
    if hasattr(x, "dtype"):
        a = np.asarray(x)
        if a.dtype == object:
            return ["objs", list(a.shape), [plain_cell(v) for v in a.reshape(-1)]]
        if a.dtype.kind == "f":
            return ["floats", list(a.shape), [float(v).hex() for v in a.reshape(-1)]]
        return ["array", list(a.shape), [str(v) for v in a.reshape(-1).tolist()]]
    if isinstance(x, float):
        return ["floats", [], [x.hex()]]
    return [type(x).__name__, str(x)]


def plain_cell(v):
    return json.dumps(plain(v))


def digest(x):
    return hashlib.sha256(json.dumps(plain(x)).encode()).hexdigest()[:24]


def atoms(x, rows=False):
    """The numbers of a continuous draw (or its rows), as text."""
    a = np.asarray(x)
    if rows and a.ndim > 1:
        return [digest(r) for r in a]
    return [float(v).hex() for v in a.reshape(-1)]


# ---------------------------------------------------------------- recipes
class Recipe:
    """name; build(seeds) -> (root, nodes that have generators of their own); ops: list of (function, own).

    A function maps (root, num, rng, state) to (result, its continuous draws); needs an input state if its name begins with "eval".
    """

    def __init__(self, name, build, ops, cost=1):
        self.name, self.build, self.ops, self.cost = name, build, ops, cost
        self.inputs = {}

    def make(self, seed):
        def seeds(j):
            return None if seed == 0 else seed * 100 + j

        root, nodes = self.build(seeds)
        if root is not None:
            root.set_graph_positions()
        return root, nodes

    def state(self, arg, num):
        """The input of evaluations: a fixed sampled state."""
        if (arg, num) not in self.inputs:
            root, _ = self.make(3)
            self.inputs[(arg, num)] = root.sample_parameters(num_samples=num, rng_info=np.random.default_rng(9000 + arg))
        return self.inputs[(arg, num)]


RECIPES = []


def recipe(name, build, *ops, cost=1):
    RECIPES.append(Recipe(name, build, list(ops), cost))


def draw(*cont, rows=False, shaped=True):
    """Sample the parameters; cont: the continuous random parameters of the root."""

    def fn(root, num, rng, state):
        out = root.sample_parameters(num_samples=num, rng_info=rng)
        for c in cont if shaped and not rows else ():
            shape = np.shape(root.get_param(out, c))
            if len(shape) < 2 and shape != (() if num == 1 else (num,)):
                raise AssertionError(f"{c} has shape {shape} for {num} samples")
        return out, [a for c in cont for a in atoms(root.get_param(out, c), rows)]

    return fn


def generated(root, num, rng, state):
    """The output of a function node below the root, obtained by generate."""
    node = root.the_node
    out = node.generate(num_samples=num, rng_info=rng)
    return out, []


def holder(**links):
    root = ParameterizedNode(node_label="root")
    for name, value in links.items():
        root.add_parameter(name, value)
    return root


def single(make, *, out=None, cont=True, rows=False, own=True, name=None, cost=1, gen=True, shaped=True):
    """A recipe with one random node; out: its output names."""

    def build(seeds):
        node = make(seeds(1))
        nodes = [node]
        if isinstance(node, tuple):
            node, nodes = node[0], [node[0], *node[1:]]
        root = holder(**{f"p{k}": getattr(node, o) for k, o in enumerate(out)}) if out else holder(p0=node)
        root.the_node = node
        return root, nodes

    names = [f"p{k}" for k in range(len(out) if out else 1)]
    ops = [(draw(*(names if cont else []), rows=rows, shaped=shaped), own)]
    if gen:
        ops.append((generated, own))
    recipe(name, build, *ops, cost=cost)


class Beta:
    """A distribution with parameters, given as a class."""

    def __init__(self, mid=0.0):
        self.mid = mid

    def pdf(self, x):
        return np.exp(-0.5 * (x - self.mid) ** 2)

    def support(self):
        return (-4.0 + self.mid, 4.0 + self.mid)


class LogBeta(Beta):
    def logpdf(self, x):
        return -0.5 * (x - self.mid) ** 2

    def dlogpdf(self, x):
        return self.mid - x


def scatter(seed, kind):
    if kind == "class":
        mid = NumpyRandomFunc("uniform", low=-1.0, high=1.0, seed=None if seed is None else seed + 50)
        return NumericalInversePolynomialFunc(Beta, mid=mid, seed=seed), mid
    if kind == "object":
        return NumericalInversePolynomialFunc(norm(loc=3.0, scale=2.0), seed=seed)
    if kind == "pdf":
        return SamplePDF(lambda x: np.exp(-0.5 * x * x), seed=seed)
    if kind == "pdfclass":
        return SamplePDF(Beta, mid=0.5, seed=seed)
    if kind == "logpdf":
        return SampleLogPDF(lambda x: -0.5 * x * x, seed=seed)
    if kind == "logclass":
        return SampleLogPDF(LogBeta, mid=0.25, seed=seed)
    return SampleLogPDF(LogBeta(1.0), seed=seed)


_FLOW = {}


def flow(conditional):
    """pzflow compiles for seconds: one flow of each kind is shared (it has no state)."""
    if conditional not in _FLOW:
        from pzflow import Flow
        from pzflow.bijectors import Reverse

        _FLOW[conditional] = Flow(("x", "y"), Reverse(), conditional_columns=("z",)) if conditional else Flow(("x", "y"), Reverse())
    return _FLOW[conditional]


def sampler_recipes():
    single(lambda s: NumpyRandomFunc("uniform", low=1.0, high=2.0, seed=s), name="uniform")
    single(lambda s: NumpyRandomFunc("normal", loc=5.0, scale=0.5, seed=s), name="normal")
    single(lambda s: NumpyRandomFunc("standard_exponential", size=(2, 3), seed=s), name="exponential arrays")
    single(lambda s: NumpyRandomFunc("integers", low=0, high=1000000, seed=s), cont=False, name="integers")
    single(lambda s: NumpyRandomFunc("poisson", lam=1e6, seed=s), cont=False, name="poisson")
    single(lambda s: NumpyRandomFunc("gamma", shape=2.0, scale=3.0, seed=s), name="gamma")
    for kind in ("object", "class", "pdf", "pdfclass", "logobject", "logclass", "logpdf"):
        single(lambda s, kind=kind: scatter(s, kind), name="inverse polynomial " + kind, cost=2)
    single(lambda s: GivenValueSampler(list(range(7, 1000)), seed=s), cont=False, name="given values")
    single(lambda s: GivenValueSampler(["a", "b", "c"], weights=[1, 2, 3], seed=s), cont=False, name="weighted text values")
    single(lambda s: BinarySampler(0.5, seed=s), cont=False, name="binary")
    single(lambda s: TableSampler({"a": np.arange(500), "b": np.arange(500) * 2.0}, seed=s), out=["a", "b"], cont=False, name="table rows")
    single(lambda s: DistributionSampler(np.array([0.0, 1.0, 2.0, 4.0]), np.array([0.0, 1.0, 2.0, 0.5]), seed=s), name="distribution")
    single(lambda s: UniformRADEC(seed=s), out=["ra", "dec"], name="sphere")
    single(lambda s: ObsTableRADECSampler(survey(0), seed=s), out=["ra", "dec"], name="rows of a survey")
    single(lambda s: ObsTableUniformRADECSampler(survey(1), seed=s), out=["ra", "dec"], name="coverage of a survey", cost=4)
    single(lambda s: ApproximateMOCSampler(MOC.from_json({"4": [3, 17, 200]}), depth=5, seed=s), out=["ra", "dec"], name="coverage map")
    single(lambda s: hostmass(s), name="hostmass x1", cost=60)
    single(lambda s: offset(s), out=["ra", "dec"], name="offset position", cost=3, shaped=False)     # arrays even for one sample
    recipe("pzflow", lambda seeds: flow_root(False), (draw("rows", rows=True), None), cost=30)
    recipe("conditional pzflow", lambda seeds: flow_root(True), (draw(), None), cost=30)


def hostmass(s):
    mass = NumpyRandomFunc("uniform", low=8.0, high=12.0, seed=None if s is None else s + 50)
    return HostmassX1Func(mass, seed=s), mass


def offset(s):
    ra = NumpyRandomFunc("uniform", low=8.0, high=12.0, seed=None if s is None else s + 50)
    return SNCoordGivenPhysicalSep(host_ra=ra, host_dec=3.0, physical_sep_kpc=10.0, redshift=0.1, seed=s), ra


def flow_root(conditional):
    kw = {"z": NumpyRandomFunc("uniform", low=0.0, high=1.0)} if conditional else {}
    node = PZFlowNode(flow(conditional), node_label="flow", **kw)
    root = holder(x=node.x, y=node.y)
    root.add_parameter("rows", FunctionNode(lambda x, y: np.stack([np.asarray(x).ravel(), np.asarray(y).ravel()], axis=-1), x=node.x, y=node.y))
    return root, []


# ---------------------------------------------------------------- graphs and models
def chain(seeds):
    a = NumpyRandomFunc("uniform", low=0.0, high=1.0, seed=seeds(1))
    b = NumpyRandomFunc("normal", loc=a, scale=2.0, seed=seeds(2))
    c = NumpyRandomFunc("normal", loc=a, scale=2.0, seed=seeds(3))
    top = holder(a=a, b=b, c=c, again=b)
    top.add_parameter("total", BasicMathNode("x + y", x=top.b, y=top.c))
    sel = GivenValueSampler(5, seed=seeds(4))
    top.add_parameter("sel", sel)
    top.add_parameter("val", GivenValueSelector([1.5, 2.5, 3.5, 4.5, 5.5], sel))
    return top, [a, b, c, sel]


def place(seeds, j):
    """Position and time of an object near the pointings of the surveys."""
    nodes = [NumpyRandomFunc("uniform", low=9.5, high=10.5, seed=seeds(j)), NumpyRandomFunc("uniform", low=4.5, high=5.5, seed=seeds(j + 1)),
             NumpyRandomFunc("normal", loc=15.0, scale=1.0, seed=seeds(j + 2))]
    return {"ra": nodes[0], "dec": nodes[1], "t0": nodes[2]}, nodes


def noisy(seeds, rest=False):
    pars, nodes = place(seeds, 1)
    nodes.append(NumpyRandomFunc("uniform", low=100.0, high=200.0, seed=seeds(4)))
    model = ConstantSEDModel(brightness=nodes[-1], redshift=0.5, node_label="source", **pars)
    model.add_effect(WhiteNoise(2.0, rest_frame=rest))
    return model, nodes


def noisy_band(seeds):
    pars, nodes = place(seeds, 1)
    model = StaticBandfluxModel({"g": 100.0, "r": 200.0}, node_label="source", **pars)
    sigma = NumpyRandomFunc("uniform", low=1.0, high=2.0, seed=seeds(5))
    model.add_effect(WhiteNoise(sigma))
    return model, [*nodes, sigma]


def plain_model(seeds, kind=0):
    pars, nodes = place(seeds, 1)
    b = NumpyRandomFunc("uniform", low=100.0, high=200.0, seed=seeds(4))
    if kind:
        model = SinWaveModel(brightness=b, frequency=0.3, node_label="source", redshift=0.1, **pars)
    else:
        model = StepModel(brightness=b, t1=25.0, node_label="source", redshift=0.0, **pars)
    model.add_effect(ConstantDimming(flux_fraction=NumpyRandomFunc("uniform", low=1.0, high=2.0, seed=seeds(6))))
    return model, [*nodes, b]


def lens(seeds):
    pars, nodes = place(seeds, 1)
    model = ConstantSEDModel(brightness=7.0, node_label="source", **pars)
    u = NumpyRandomFunc("uniform", low=0.1, high=1.0, seed=seeds(4))
    model.add_effect(Microlensing(15.0, u, 20.0, probability=0.5))
    return model, nodes


def composite(seeds, kind):
    kids, nodes = [], []
    for k in range(2):
        pars, own = place(seeds, 10 * k + 1)
        kid = ConstantSEDModel(brightness=NumpyRandomFunc("uniform", low=10.0 + k, high=20.0, seed=seeds(10 * k + 4)), node_label=f"kid{k}", **pars)
        kid.add_effect(WhiteNoise(1.0 + k))
        kids.append(kid)
        nodes += own
    band = StaticBandfluxModel({"g": 1.0, "r": 2.0}, node_label="band")
    band.add_effect(WhiteNoise(0.5))
    pars, own = place(seeds, 31)
    cls = AdditiveMultiObjectModel if kind == "add" else RandomMultiObjectModel
    if kind == "bands":
        model = AdditiveMultiObjectModel([kids[0], band], node_label="top", **pars)
    elif kind == "mixed":
        model = RandomMultiObjectModel([kids[0], band], node_label="top", **pars)
    elif kind == "nested":
        model = AdditiveMultiObjectModel([RandomMultiObjectModel(kids, weights=[0.3, 0.7]), ConstantSEDModel(brightness=3.0, node_label="c")], node_label="top", **pars)
    else:
        model = cls(kids, node_label="top", **pars)
    if kind != "bands":
        model.add_effect(WhiteNoise(0.1))
    return model, nodes + own


def choices(seeds, kind):
    pars, _ = place(seeds, 1)
    if kind == "seds":
        seds = [np.array([WAVES, np.full(3, 10.0 * k + 1)]) for k in range(40)]
        return StaticSEDModel(seds, node_label="source", **pars), []
    if kind == "bands":
        return StaticBandfluxModel([{"g": 10.0 * k + 1, "r": 10.0 * k + 2} for k in range(40)], weights=np.arange(1, 41), node_label="source", **pars), []
    curves = [{f: np.array([TIMES, np.full(6, 10.0 * k + 1)]).T for f in ("g", "r")} for k in range(12)]
    pars.pop("t0")
    from lightcurvelynx.models.lightcurve_template_model import LightcurveData as Data

    return MultiLightcurveTemplateModel([Data(c, 0.0, baseline={"g": 0.0, "r": 0.0}) for c in curves], bands(), t0=0.0, node_label="source", **pars), []


def host(seeds):
    nodes = [NumpyRandomFunc("uniform", low=9.5, high=10.5, seed=seeds(1)), NumpyRandomFunc("uniform", low=7.0, high=12.0, seed=seeds(2)),
             SamplePDF(Beta(5.0), seed=seeds(3))]
    h = SNIaHost(ra=nodes[0], dec=5.0, hostmass=nodes[1], redshift=0.1, node_label="host")
    x1 = NumpyRandomFunc("normal", loc=h.hostmass, scale=0.5, seed=seeds(4))
    ra = NumpyRandomFunc("normal", loc=h.ra, scale=0.01, seed=seeds(5))
    model = ConstantSEDModel(brightness=nodes[2], ra=ra, dec=h.dec, redshift=h.redshift, t0=15.0, node_label="source")
    model.add_parameter("x1", x1)
    return model, [*nodes, x1, ra]


def agn(seeds):
    return AGN(t0=0.0, blackhole_mass=NumpyRandomFunc("uniform", low=1e8, high=1e9), edd_ratio=0.9, redshift=0.1, distance=1e7, ra=10.0, dec=5.0,
               node_label="source", seed=seeds(9)), []


def eval_sed(cont=True):
    def fn(root, num, rng, state):
        out = root.evaluate_sed(TIMES, WAVES, state, rng_info=rng)
        return out, [digest(out)] if cont else []

    return fn


def eval_bands(cont=True):
    def fn(root, num, rng, state):
        out = root.evaluate_bandfluxes(bands(), TIMES, FILTERS, state, rng_info=rng)
        return out, [digest(out)] if cont else []

    return fn


def eval_sampled(root, num, rng, state):
    """evaluate_sed samples one state itself when it is given none."""
    out = root.evaluate_sed(TIMES, WAVES, rng_info=rng)
    return out, [digest(out)]


def simulate(kinds, **kw):
    def fn(root, num, rng, state):
        tabs = [survey(k) for k in kinds]
        out = simulate_lightcurves(root, num, tabs if len(tabs) > 1 else tabs[0], [bands() for _ in tabs] if len(tabs) > 1 else bands(), rng=rng, **kw)
        flux = [v for lc in out["lightcurve"] if lc is not None for v in atoms(lc["flux"])]
        return out, flux

    return fn


def single_sn(root, num, rng, state):
    """The driver of the example run: sampling, evaluation and noise of one object."""
    data = survey(1)
    pb = bands()
    group = PassbandGroup([Passband(p.processed_transmission_table, "LSST", p.filter_name, delta_wave=None, trim_quantile=None) for p in pb.passbands.values()])
    out = draw_single_random_sn(root, data, group, None, rng)
    return out, atoms(out["bandfluxes"])


def noise(root, num, rng, state):
    out = apply_noise(np.full(3 * num, 5.0), np.full(3 * num, 0.5), rng=rng)
    return out, atoms(out)


def ratio(galaxy):
    def fn(root, num, rng, state):
        out = eddington_ratio_dist_fun(0.3, galaxy_type=galaxy, rng=rng, num_samples=num)
        return out, atoms(out)

    return fn


def effect(root, num, rng, state):
    eff = WhiteNoise(1.5)
    flux = eff.apply(np.full((4, 2), 3.0), white_noise_sigma=1.5, rng_info=rng)
    band = eff.apply_bandflux(np.full(4, 3.0), white_noise_sigma=1.5, rng_info=rng)
    return [flux, band], atoms(flux) + atoms(band)


def model_recipes():
    recipe("chain", chain, (draw("a", "b", "c"), True))
    recipe("host and source", host, (draw("ra", "x1", "brightness"), True), cost=3)
    recipe("noisy model", noisy, (draw("ra", "dec", "t0", "brightness"), True), (eval_sed(), False), (eval_bands(), False), (eval_sampled, False),
           (simulate([0]), False), cost=4)
    recipe("noise at rest", lambda s: noisy(s, True), (eval_sed(), False), (eval_bands(), False), (simulate([1, 0], apply_obs_mask=True), False), cost=6)
    recipe("noisy bands", noisy_band, (draw("ra", "dec", "t0"), True), (eval_bands(), False), (simulate([0], param_cols=["source.ra"]), False), cost=5)
    recipe("plain model", plain_model, (draw("ra", "dec", "t0", "brightness"), False), (simulate([0, 1], obstable_save_cols=["zp"], time_window_offset=(20.0, 20.0)), False),
           (single_sn, False), cost=8)
    recipe("wave model", lambda s: plain_model(s, 1), (simulate([1]), False), (single_sn, False), cost=8)
    recipe("lens", lens, (draw("ra", "u_0"), False), (eval_sampled, None), cost=4)
    for kind in ("add", "random", "bands", "mixed", "nested"):
        recipe("composite " + kind, lambda s, kind=kind: composite(s, kind), (draw("ra", "dec"), False), (eval_bands(), False), (simulate([0]), False),
               *([(eval_sed(), False)] if kind not in ("bands", "mixed") else []), cost=8)
    for kind in ("seds", "bands", "curves"):
        recipe("choice of " + kind, lambda s, kind=kind: choices(s, kind), (draw("ra"), False), (eval_bands(False), False), (simulate([0]), False), cost=8)
    recipe("agn", agn, (eval_sed(), True), (draw("blackhole_mass", "inclination_rad"), False), (eval_bands(), True), cost=4)
    recipe("noise", lambda s: (None, []), (noise, False), (effect, False), (ratio("Blue"), False), (ratio("Red"), False))


sampler_recipes()
model_recipes()
NEEDS_STATE = {"eval_sed.<locals>.fn", "eval_bands.<locals>.fn"}


# ---------------------------------------------------------------- running a history
class Runner:
    def __init__(self, recipes):
        self.recipes = recipes  # by number - 1
        self.inst, self.gens, self.ids, self.ev = {}, {}, {}, []

    def id(self, text):
        return self.ids.setdefault(text, len(self.ids) + 1)

    def step(self, op):
        k = op["k"]
        if k == "new":
            self.inst[op["i"]] = (self.recipes[op["recipe"] - 1], *self.recipes[op["recipe"] - 1].make(op["seed"]))
        elif k == "setseed":
            for j, node in enumerate(self.inst[op["i"]][2]):
                node.set_seed(op["seed"] * 100 + 70 + j)
        elif k == "gen":
            self.gens[op["g"]] = np.random.default_rng(op["seed"])
        elif k == "disturb":
            np.random.seed(op["x"])
            np.random.random(op["x"] % 3)
        else:
            op = self.call(op)
        self.ev.append(op)

    def call(self, op):
        rec, root, _ = self.inst[op["i"]]
        fn, own = rec.ops[op["op"] - 1]
        state = rec.state(op["arg"], op["num"]) if op["arg"] else None
        rng = self.gens[op["g"]] if op["g"] else None
        before = [str(x) for x in np.random.get_state()]
        full = np.random.get_state()[1].copy()
        try:
            val, parts = fn(root, op["num"], rng, state)
            r = "ok"
        except Exception as e:  # noqa: BLE001
            val, parts, r = None, [], f"{type(e).__name__}: {e}"[:150]
        glob = before == [str(x) for x in np.random.get_state()] and bool(np.array_equal(full, np.random.get_state()[1]))
        if fn.__qualname__.startswith("draw") and rng is None and own is not True:
            parts = []  # some of the nodes are seeded, others are not
        return {**op, "own": bool(own), "r": r, "val": self.id("v" + digest(val)), "parts": [self.id("p" + p) for p in parts], "glob": glob}


def complete(op, rec, rng, cls):
    """A call of the history with an operation of the recipe."""
    fn, own = rec.ops[cls]
    arg = rng.randint(1, 2) if fn.__qualname__ in NEEDS_STATE else 0
    return {**op, "op": cls + 1, "arg": arg, "own": bool(own)}


def history(ctx, script, recs):
    """The operations of a behaviour of the specification, on the given recipes, with the replays."""
    ops, kind = [], {}
    ops.append({"k": "disturb", "x": ctx.rng.randint(0, 10**6)})
    seedable = {}
    for op in script:
        op = dict(op)
        if op["k"] == "new":
            op["recipe"] = ctx.rng.randint(1, len(recs))
            kind[op["i"]] = op["recipe"]
        elif op["k"] == "disturb":
            op["x"] = ctx.rng.randint(0, 10**6)
        elif op["k"] == "call":
            rec = recs[kind[op["i"]] - 1]
            op = complete(op, rec, ctx.rng, ctx.rng.randrange(len(rec.ops)))
            if op["g"] == 0 and rec.ops[op["op"] - 1][1] is None:
                continue
        elif op["k"] == "setseed":
            rec = recs[kind[op["i"]] - 1]
            if rec not in seedable:
                _, nodes = rec.make(1)
                seedable[rec] = bool(nodes) and all(hasattr(n, "set_seed") for n in nodes) and all(o[1] is True for o in rec.ops)
            if not seedable[rec]:
                continue
        if op["k"] == "setseed":
            op["seed"] += 20  # other numbers than those of a new instance
        ops.append(op)
    # Replays: for every generator the calls that used it, on new instances with other seeds; for every instance
    # its calls without a generator, in between calls with one.
    segs = []
    cur_g, cur_i = {}, {}
    for op in ops:
        if op["k"] == "gen":
            cur_g[op["g"]] = [op]
            segs.append(("g", cur_g[op["g"]]))
        elif op["k"] == "new":
            cur_i[op["i"]] = [op]
            segs.append(("i", cur_i[op["i"]]))
        elif op["k"] == "setseed":
            start = cur_i[op["i"]][0]
            cur_i[op["i"]] = [start, op]
            segs.append(("i", cur_i[op["i"]]))
        elif op["k"] == "call" and op["g"]:
            cur_g[op["g"]].append({**op, "recipe": kind_at(ops, op)})
        elif op["k"] == "call":
            cur_i[op["i"]].append(op)
    again = []
    for what, seg in segs:
        if len(seg) < 2 or (what == "i" and (seg[-1]["k"] == "setseed" or (seg[0]["seed"] == 0 and seg[1]["k"] != "setseed"))):
            continue
        again.append({"k": "disturb", "x": ctx.rng.randint(0, 10**6)})
        if what == "g":
            again.append(seg[0])
            for op in seg[1:]:
                again.append({"k": "new", "i": 3, "recipe": op["recipe"], "seed": ctx.rng.choice([0, 7, 8])})
                again.append({k: v for k, v in {**op, "i": 3}.items() if k != "recipe"})
        else:
            again.append({"k": "gen", "g": 3, "seed": 5000 + len(again) + ctx.rng.randint(0, 1000) * 100})
            again.append({**seg[0], "i": 3, "seed": seg[0]["seed"] if seg[1]["k"] != "setseed" else ctx.rng.choice([0, 9])})
            for op in seg[1:]:
                again.append({**op, "i": 3})
                if ctx.rng.random() < 0.5:
                    again.append({**next((o for o in seg if o["k"] == "call"), op), "i": 3, "g": 3, "num": ctx.rng.randint(1, 3)})
                    if again[-1]["k"] != "call":
                        again.pop()
    return ops + again


def kind_at(ops, call):
    """The recipe of the instance that a call uses."""
    found = 0
    for op in ops:
        if op is call:
            return found
        if op["k"] == "new" and op["i"] == call["i"]:
            found = op["recipe"]
    return found


def record(recs, ops):
    saved = np.random.get_state()
    try:
        run = Runner(recs)
        for op in ops:
            run.step(op)
        return {"cfg": {"x": 0}, "ev": run.ev}
    finally:
        np.random.set_state(saved)


# ---------------------------------------------------------------- other processes
def worker(path):
    """Digests of calls with given generators, in a process with its own hash seed."""
    out = []
    for rec in RECIPES:
        for op, (fn, _) in enumerate(rec.ops):
            for num in (1, 3):
                root, _ = rec.make(4)
                state = rec.state(1, num) if fn.__qualname__ in NEEDS_STATE else None
                try:
                    val, _ = fn(root, num, np.random.default_rng(777 + num), state)
                    out.append([rec.name, op + 1, num, 1 if state is not None else 0, "ok", digest(val)])
                except Exception as e:  # noqa: BLE001
                    out.append([rec.name, op + 1, num, 1 if state is not None else 0, f"{type(e).__name__}: {e}"[:150], "0"])
    with open(path, "w") as f:
        json.dump(out, f)


def processes(ctx):
    paths, procs = [], []
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for h in (0, 1, 12345) if not ctx.quick else (0, 12345):
        path = os.path.join(ctx.work, f"worker_{h}.json")
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        code = f"import sys; sys.path[:0] = {sys.path!r}; import drivers.p05 as p; p.worker({path!r})"
        procs.append(subprocess.Popen([sys.executable, "-c", code], cwd=root, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
        paths.append(path)
    return paths, procs


def join(ctx, paths, procs):
    traces, names = [], []
    for p in procs:
        _, err = p.communicate(timeout=600)
        if p.returncode != 0:
            ctx.violation("random components work in another process", {"error": err.decode()[-600:]})
            return
    results = [json.load(open(p)) for p in paths]
    for rows in zip(*results):
        ids = {}
        ev = []
        for h, (name, op, num, arg, r, val) in enumerate(rows):
            ev += [{"k": "new", "i": 1, "recipe": 1, "seed": 4}, {"k": "gen", "g": 1, "seed": 777 + num},
                   {"k": "call", "i": 1, "op": op, "num": num, "arg": arg, "g": 1, "own": False, "r": r, "val": ids.setdefault(val, len(ids) + 1), "parts": [], "glob": True}]
        traces.append({"cfg": {"x": 0}, "ev": ev})
        names.append([rows[0][0], *ev])
    judge(ctx, traces, names, "in another process: ")


def judge(ctx, traces, names, prefix=""):
    for tr, name, bad in zip(traces, names, ctx.accept("Random", traces, CONST)):
        ctx.steps += len(tr["ev"])
        if bad is not None:
            i = int(bad["i"])
            ctx.violation(prefix + bad["clause"], {"recipes": name, "event": tr["ev"][i] if i < len(tr["ev"]) else None, "events": tr["ev"][: i + 1]})


def tables(ctx):
    """Random survey tables depend on the seed alone."""
    events = []
    run = Runner([])
    for seed in (11, 12, 11, 12, None, None):
        for kind, fn in enumerate((create_random_opsim, create_random_ztf_obs_data)):
            np.random.seed(ctx.rng.randint(0, 10**6))
            before = np.random.get_state()[1].copy()
            out = fn(6, seed=seed)
            table = getattr(out, "_table", out)
            val, parts = run.id("v" + digest(table)), [run.id("p" + a) for c in ("ra", "dec") for a in atoms(table[c].to_numpy())]
            events += [{"k": "new", "i": 1, "recipe": kind + 1, "seed": seed or 0},
                       {"k": "call", "i": 1, "op": 1, "num": 6, "arg": 0, "g": 0, "own": True, "r": "ok", "val": val, "parts": [p * 10 + kind for p in parts],
                        "glob": bool(np.array_equal(before, np.random.get_state()[1]))}]
    return {"cfg": {"x": 0}, "ev": events}


def run(ctx):
    waiting = processes(ctx)
    ctx.explore("Random", 3 if ctx.quick else 4, dict(CONST, MCGenSeeds={1001}, MCSeeds={0, 1}))
    scripts = ctx.simulate("Random", 500 if ctx.quick else 4000, 14, CONST)
    scripts = [[e["op"] for e in log[1:]] for log in scripts]
    scripts = [s for s in scripts if sum(o["k"] == "call" for o in s) >= 3]
    # Every recipe alone and in the company of others; the cheap ones more often.
    jobs = []
    for k, rec in enumerate(RECIPES):
        times = 1 if rec.cost > 30 else max(3, (12 if ctx.quick else 80) // rec.cost)
        for _ in range(times):
            others = [r for r in ctx.rng.sample(RECIPES, 2) if r.cost < 30 or rec.cost >= 30]
            jobs.append([rec, *([] if ctx.rng.random() < 0.5 else others)])
    traces, names = [], []
    for k, recs in enumerate(jobs):
        script = scripts[k % len(scripts)]
        if recs[0].cost > 30:
            script = min(scripts[:50], key=lambda s: (sum(o["k"] == "new" for o in s), sum(o["k"] == "call" and o["g"] > 0 for o in s)))
        traces.append(record(recs, history(ctx, script, recs)))
        names.append([r.name for r in recs])
    traces.append(tables(ctx))
    names.append("random survey tables")
    judge(ctx, traces, names)
    ctx.sample({"recipes": names[0], "events": traces[0]["ev"]})
    join(ctx, *waiting)
