import subprocess
import sys
import os

from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut
from .. import conf, boot

MAKER = """
import sys, json, hashlib
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
from honeycomb_layout import HoneycombLayout
for c in json.loads(sys.stdin.read()):
    lay = HoneycombLayout(data_width=c["w"], data_height=c["h"], sub_rounds=c["n"], style=c["style"], obs=c["obs"], noise=c["noise"])
    print(hashlib.sha256(str(lay.make_circuit()).encode()).hexdigest())
"""


def check_process(case, ctx):
    """The same circuits in other processes with other hash seeds and in another order."""
    import hashlib
    import json
    here = []
    with sut("generating"):
        for c in case["cfgs"]:
            here.append(hashlib.sha256(str(conf.layout(c).make_circuit()).encode()).hexdigest())
    for seed in case["hash_seeds"]:
        order = list(range(len(case["cfgs"])))
        if seed % 2:
            order.reverse()
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        r = subprocess.run([sys.executable, "-B", "-c", MAKER % str(boot.SRC)],
                           input=json.dumps([case["cfgs"][i] for i in order]), capture_output=True, text=True, env=env)
        require(r.returncode == 0, "generation failed in a fresh process: %s", r.stderr[-300:])
        got = r.stdout.split()
        for i, d in zip(order, got):
            require(d == here[i], "the circuit of %r differs in another process (hash seed %d)", case["cfgs"][i], seed)
    ctx.mark()
    ctx.label(*[c["style"] for c in case["cfgs"]])


def check_history(case, ctx):
    """Interleaved generator calls and attribute accesses on shared and fresh layout objects."""
    first = {}
    objs = {}
    for i, what, fresh in case["calls"]:
        c = case["cfgs"][i % len(case["cfgs"])]
        key = i % len(case["cfgs"])
        with sut("generating"):
            lay = conf.layout(c) if fresh or key not in objs else objs[key]
            objs[key] = lay
            if what == "circuit":
                s = str(lay.make_circuit())
            elif what == "scribble":   # the caller owns the circuit it was given
                s = lay.make_circuit()
                if i % 2:
                    s.clear()
                else:
                    s.append("X", [0])
                continue
            elif what == "desc":
                s = lay.as_decoder_problem_desc("pymatching")
            elif what == "maker":
                s = str(lay.as_decoder_problem("pymatching").circuit_maker())
                what = "circuit"
            else:
                s = (lay.round_edges(int(what)), lay.round_hex_centers(int(what)))
        if (key, what) in first:
            require(first[key, what] == s, "%s of %r changed between calls", what, c)
        first.setdefault((key, what), s)
    ctx.mark(len(case["calls"]) > len(first))
    ctx.label("shared objects" if any(not f for _, _, f in case["calls"]) else "fresh objects")


def check_size(case, ctx):
    conf.classes(case, ctx)
    n = case["n"]
    with sut("generating"):
        def make(k):
            return conf.layout(dict(case, n=k)).make_circuit()
        base = case["base"]
        c = make(n)
        short = make(base + (n - base) % 6)
    # Text size bounded independently of n (a long experiment only differs from a short one in repeat counts).
    lines, ref = str(c).count("\n"), str(short).count("\n")
    require(lines <= 3 * ref + 60, "written circuit has %d lines for %d sub-rounds but %d for %d", lines, n, ref,
            base + (n - base) % 6)
    a, b, d = make(n), make(n + 6), make(n + 12)
    for attr in ("num_measurements", "num_detectors", "num_ticks"):
        x, y, z = getattr(a, attr), getattr(b, attr), getattr(d, attr)
        require(y - x == z - y, "%s does not grow linearly: %d, %d, %d", attr, x, y, z)
    per = 6 * case["w"] * case["h"] // 2
    require(b.num_measurements - a.num_measurements == per, "two cycles add %d measurements, expected %d",
            b.num_measurements - a.num_measurements, per)
    require(b.num_detectors - a.num_detectors == per // 3, "two cycles add %d detectors, expected %d",
            b.num_detectors - a.num_detectors, per // 3)
    require(a.num_measurements == case["w"] * case["h"] * (n + 2) // 2, "measurement count")
    ctx.mark(n > base + 6)


@st.composite
def proc(draw):
    cfg = conf.configs(max_vol=1500, max_tw=4, max_th=3, max_n=25, noises=(0, 0.01))
    return dict(cfgs=draw(st.lists(cfg, min_size=3, max_size=10)), hash_seeds=draw(st.lists(st.integers(1, 10**6), min_size=2, max_size=2)))


@st.composite
def hist(draw):
    cfg = conf.configs(max_vol=900, max_tw=3, max_th=2, max_n=25, noises=(0, 0.01))
    cfgs = draw(st.lists(cfg, min_size=1, max_size=4))
    if draw(st.booleans()):   # near twins: differ in one field only
        c = dict(cfgs[0])
        c["obs"] = "H" if c["obs"] == "V" else "V"
        cfgs.append(c)
    call = st.tuples(st.integers(0, 8), st.sampled_from(["circuit", "circuit", "circuit", "scribble", "desc", "maker", "0", "1", "2"]), st.booleans())
    return dict(cfgs=cfgs, calls=draw(st.lists(call.map(list), min_size=2, max_size=14)))


def sizes():
    return st.builds(lambda c, n: dict(c, n=n - n % 3 if c["style"] == "SI1000" else n, base=18),
                     conf.configs(max_vol=10**9, max_tw=4, max_th=3, max_n=2, noises=(0, 0.01)),
                     st.integers(21, 200) | st.integers(21, 2 * 10**6))


def ex_size(tier):
    for c in conf.grid([(2, 6), (4, 6), (2, 12)], (3,), noises=(0, 0.01)):
        for n in (24, 25, 26, 27, 28, 29, 99, 1000, 999999, 10**6 + 1):
            yield dict(c, n=n - n % 3 if c["style"] == "SI1000" else n, base=18)


def ex_proc(tier):
    for h in (1, 2):
        for w, hh in ((2, 6), (4, 6), (4, 12)):
            yield dict(cfgs=list(conf.grid([(w, hh)], (3, 7, 12, 24), noises=(0, 0.01))), hash_seeds=[h, h + 2])
    # Neighbouring large sizes in one process.
    tall = [(2, 6 * k) for k in (8, 9, 10, 16, 17, 33)]
    wide = [(2 * k, 6) for k in (8, 9, 10, 16, 17, 33, 65)]
    for sizes_, style in ((tall, "EM3"), (wide, "EM3"), (tall, "SD6"), (wide, "SI1000"), ([(18, 54), (20, 60), (18, 60)], "EM3")):
        yield dict(cfgs=[dict(w=w, h=hh, n=3, style=style, obs=o, noise=0.01) for w, hh in sizes_ for o in "HV"], hash_seeds=[1, 4])


PROP = Prop(
    id="C30",
    rule="Cases are sets of configurations generated in other processes (other hash seeds, other order), histories of "
         "generator calls on shared objects, and sub-round counts up to two million; non-trivial when something is "
         "regenerated or the experiment is longer than the shortest folded one.",
    subs=[Sub("processes", check_process, proc(), quick=24, thorough=800, explicit=ex_proc),
          Sub("histories", check_history, hist(), quick=240, thorough=8000),
          Sub("size", check_size, sizes(), quick=160, thorough=6000, explicit=ex_size)],
)
