"""C16: weight samples are mean plus scale times independent standard normals."""
from vf.driver import spec
from vf import term as T, core as C
from vf.core import E, SymArray, SymTree, mknum
from vf.term import Unsupported, R
from contracts.c02_dense import tree_op

PF, TR, OPS = "laplax.eval.pushforward.", "laplax.util.tree.", "laplax.util.ops."
FNS = [PF + "set_get_weight_sample", TR + "normal_like", TR + "randn_like", TR + "add", OPS + "precompute_list"]


class Scale:
    """An arbitrary linear operator on trees that remembers what it was applied to."""

    def __init__(self, v, td, name="S"):
        self.op, self.seen, self.v, self.td = tree_op(v, td, name), [], v, td

    def __call__(self, t):
        self.seen.append(t)
        return self.op(t)


def path(K, root):
    """Index expressions [(kind, size, index)] leading from the root key to key K, or None."""
    out = []
    while K.key != root.key:
        a = T.single(K)
        if not isinstance(a, T.App) or a.f not in ("split", "fold_in"):
            return None
        out.append((a.f, a.args[1] if a.f == "split" else T.ZERO, a.args[-1]))
        K = a.args[0]
    return out[::-1]


def draw(v, what, noise, td, key, i):
    """The noise tree of sample i is one standard normal per entry, leaf l drawn with its own key; keys of different
    (sample, leaf) pairs differ (children of a split, or fold-ins, of one key are distinct keys)."""
    v.true(f"{what}: noise has the structure of the mean", isinstance(noise, SymTree) and noise.td == td)
    l = T.ivar("leaf", 0, td.n)
    leaf = C.to_arr(noise.at(l))
    S = v.leafblock(td, l)
    v.true(f"{what}: noise has the shape of the mean", len(leaf.dims) == 1 and C.same_dim(leaf.dims[0], S))
    a = T.single(leaf.el(T.ivar("entry", 0, S.size)))
    if not isinstance(a, T.App) or a.f != "rng_normal":
        v.true(f"{what}: standard normal draws", False, f"entries are {leaf.body.key[:200]}")
        return
    K = a.args[0]
    v.eq(f"{what}: standard normal draws", leaf, SymArray.make((S,), lambda u: T.app("rng_normal", K, S.size, u)))
    p = path(K, key)
    v.true(f"{what}: keys are derived from the given key", p is not None, f"key {K.key[:200]}")
    if p is None:
        return
    v.true(f"{what}: keys depend on the sample and leaf only", all(e.fv <= {T.single(i).name, T.single(l).name} for _, _, e in p))
    for kind, n, e in p:
        if kind == "split":
            v.true(f"{what}: split keys in range", T.cand(T.le(T.ZERO, e), T.lt(e, n)))
    i2, l2 = T.ivar("sample2", 0, R.range[T.single(i).name][1]), T.ivar("leaf2", 0, td.n)
    other = lambda e: e.subst({T.single(i).name: i2, T.single(l).name: l2})
    differ = [T.cnot(T.eq(e, other(e))) for _, _, e in p]
    v.true(f"{what}: different samples and leaves use different keys", T.cor(T.cand(T.eq(i, i2), T.eq(l, l2)), *differ))
    v.true(f"{what}: key sizes do not vary", all(n.key == other(n).key for _, n, _ in p))


def expect(v, td, mean, S, noise):
    """mean + S noise"""
    sn = S.op(noise)
    return SymTree.make(td, lambda l: SymArray.make((v.leafblock(td, l),), lambda u: (mean.at(l).el(u) if mean is not None else T.ZERO) + sn.at(l).el(u)))


@spec("C16", FNS, "sample i = mean + S(noise_i) with one standard normal per entry, a distinct key per (sample, leaf); precomputed, on demand "
      "and swept in batches of any size give the same samples")
def weight_samples(v):
    td = v.treedef()
    mean = v.tree("mean", td)
    n = v.size("N")
    num = mknum(n)
    S = Scale(v, td)
    key = v.jax.random.key(v.int("seed"))
    f = v[PF[7:] + "set_get_weight_sample"]
    i = T.ivar("sample", 0, n)
    on_demand = f(key, mean, S, num, set_get_weight_sample_precompute=False)
    v.true("on demand: nothing is drawn in advance", not S.seen)
    got = on_demand(mknum(i))
    v.true("on demand: the scale is applied once", len(S.seen) == 1)
    draw(v, "on demand", S.seen[0], td, key.body, i)
    want = expect(v, td, mean, S, S.seen[0])
    v.eq("on demand: mean plus scaled noise", got, want)
    cases = {"default": {}, "precomputed": {"set_get_weight_sample_precompute": True}, "precomputed by the general option": {"precompute": True},
             "on demand by the general option": {"precompute": False}, "precomputed in batches": {"precompute_list_batch_size": v.int("bs", 1)},
             "specific option first": {"precompute": True, "set_get_weight_sample_precompute": False}}
    for nm, kw in cases.items():
        v.eq(f"{nm}: the same samples", f(key, mean, S, num, **kw)(mknum(i)), want)
    got = f(None, mean, S, num, set_get_weight_sample_precompute=False)
    S.seen.clear()
    w0 = got(mknum(i))
    draw(v, "no key", S.seen[0], td, v.jax.random.key(0).body, i)
    v.eq("no key: mean plus scaled noise", w0, expect(v, td, mean, S, S.seen[0]))


@spec("C16", [PF + "get_dist_state"] + FNS, "weight samples of the distribution state: the posterior's own scale; centred at the mean, or at zero when linearised; none for zero samples")
def dist_state(v):
    td = v.treedef()
    mean = v.tree("mean", td)
    n = v.size("N")
    S = Scale(v, td)
    key = v.jax.random.key(v.int("seed"))
    Post = v.mod("curv.cov").Posterior
    state = {"scale": v.arr("state", (n,))}
    asked = []
    post = Post(state=state, cov_mv=lambda s: (_ for _ in ()).throw(AssertionError), scale_mv=lambda s: asked.append(s) or S)
    model = lambda input, params: v.fn("F", (v.size("K"),))(input, params)
    f = v[PF[7:] + "get_dist_state"]
    i = T.ivar("sample", 0, n)
    for nm, lin, kw in (("nonlinear", False, {}), ("linearised", True, {"linearized": True})):
        for pre in (True, False):
            asked.clear(), S.seen.clear()
            ds = f(mean, model, post, num_samples=mknum(n), key=key, set_get_weight_sample_precompute=pre, **kw)
            v.true(f"{nm}: the scale of the posterior's own state", len(asked) == 1 and asked[0] is state)
            v.eq(f"{nm}: number of samples", ds["num_samples"], mknum(n))
            v.true(f"{nm}: posterior kept", ds["posterior_state"] is post)
            got = ds["get_weight_samples"](mknum(i))
            if not pre:
                draw(v, nm, S.seen[-1], td, key.body, i)
                first = expect(v, td, None if lin else mean, S, S.seen[-1])
                v.eq(f"{nm}: {'scaled noise' if lin else 'mean plus scaled noise'}", got, first)
                v.eq(f"{nm}: the same samples precomputed", was, first)
            was = got
        ds = f(mean, model, post, **kw)
        v.true(f"{nm}: no samples requested, none made", "get_weight_samples" not in ds and ds["num_samples"] == 0)
