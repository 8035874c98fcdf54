"""C21: brightness temperatures converted to radiances and back with the real converter, for every sensor and channel; monitors hold the round trips, monotonicity, element by
element independence against scalar conversions, and the Planck function evaluated with the published band constants in extended precision."""
import os
import sys

import numpy as np

PROP = "C21"
RULE = ("every sensor and channel; scalars and arrays of one to three dimensions (also masked, integer, strided and empty ones), 150-350 K, some 12-10000 K, with invalid elements in part of them; "
        "several converters in use at once; non-trivial when arrays hold invalid elements")
N = {"quick": 4000, "thorough": 100000}
BUDGET = {"quick": 150, "thorough": 400}
FILES = ["tools/convert_bt_to_radiance.py"]
NEED = ["scalar", "1d", "2d", "3d", "invalid", "masked", "strided", "integer", "missing channel", "unknown sensor", "ch1", "ch2", "ch3", "single precision", "wide range", "whole radiances"]
# band constants (central wavenumber, A, B) of the 3.7, 11 and 12 um channels
COEF = {"m02": ([2685.11, 926.605, 837.805], [1.99126, .448099, .382986], [.996287, .998631, .998879]),
        "n19": ([2678.51, 928.179, 832.010], [1.90192, .406106, .391425], [.999063, .998698, .998849]),
        "n18": ([2675.31, 928.680, 834.073], [2.10086, .348003, .408531], [1.00006, .998861, .998805]),
        "n17": ([2678.19, 927.486, 840.187], [1.93286, .431676, .370802], [.999144, .998637, .998917]),
        "n16": ([2688.43, 919.600, 836.710], [1.85548, .693914, .440396], [.995179, .998170, .998707]),
        "n15": ([2687.15, 926.258, 840.231], [1.40674, .451169, .365465], [.996299, .998636, .998931]),
        "n14": ([2674.39, 930.521, 835.544], [2.39486, .621590, .419563], [1.00004, .998294, .998769]),
        "n12": ([2671.81, 921.925, 838.003], [2.42853, .560212, .398581], [1.00102, .998415, .998832]),
        "n11": ([2682.85, 928.047, 842.869], [1.68218, .393074, .406868], [.997630, .998759, .998803]),
        "n10": ([2679.11, 910.515], [1.93677, .457244], [.998787, .998768]),
        "n09": ([2685.84, 929.574, 846.292], [1.74231, .347473, .493176], [.996351, .998839, .998698]),
        "n08": ([2671.12, 915.281], [2.31640, .497544], [1.00146, .998654]),
        "n07": ([2683.18, 927.508, 841.403], [1.73290, .405709, .392737], [.997424, .998741, .998845]),
        "n06": ([2678.59, 913.461], [1.94528, .505261], [.998976, .998636]),
        "tn": ([2672.50, 913.041], [2.11244, .531096], [1.00119, .998563]),
        "aatsr": ([2681.59, 923.695, 832.715], [1.77887, .454752, .498667], [.998005, .998814, .998525]),
        "atsr1": ([2686.35, 918.255, 841.035], [2.13333, .532039, .432575], [.995620, .998695, .998729]),
        "atsr2": ([2699.00, 917.236, 831.569], [2.04002, .597643, .467731], [.990740, .998578, .998620])}
C1, C2 = np.longdouble("1.191062e-5"), np.longdouble("1.4387863")
Conv = None


def setup():
    global Conv
    sys.path.insert(0, os.path.join(os.environ["VERIF_TREE"], "tools"))
    from convert_bt_to_radiance import convertBT as Conv


def planck(s, ch, T):
    nu, a, b = (np.longdouble(repr(q[ch - 1])) for q in COEF[s])
    return C1 * nu ** 3 / np.expm1(C2 * nu / (a + b * np.asarray(T, np.longdouble)))


def case(m, rng, i):
    names = sorted(COEF)
    s = names[i % len(names)]
    c = Conv(s)
    other = Conv(names[int(rng.integers(len(names)))])       # converters are independent of each other
    ch = int(rng.integers(1, 4))
    what = "%s channel %d: " % (s, ch)
    if i % 40 == 0:
        m.saw("unknown sensor")
        m.raises(lambda: Conv(str(rng.choice(["n20", "N18", "", "metop", "n1"]))), "a sensor without constants is refused")
    if ch > len(COEF[s][0]):
        m.saw("missing channel")
        m.raises(lambda: c.temp2rad(280., ch), what + "a channel the sensor lacks is refused")
        m.raises(lambda: c.rad2temp(80., ch), what + "a channel the sensor lacks is refused")
        return
    m.saw("ch%d" % ch)
    kind = rng.choice(["scalar", "1d", "2d", "3d"])
    m.saw(str(kind))
    m.key(s, ch, kind)
    if kind == "scalar":
        m.trivial = True
        T = float(rng.uniform(150, 350) if rng.random() < .8 else 10 ** rng.uniform(1.1, 4))
        if rng.random() < .1:
            T = int(T)
        if rng.random() < .1:
            T = np.float64(T)
        r = c.temp2rad(T, ch)
        m.close(r, float(planck(s, ch, T)), what + "radiance of %r K" % T, rtol=1e-9)
        m.close(c.rad2temp(r, ch), T, what + "temperature of the radiance", rtol=1e-9)
        R = float(planck(s, ch, rng.uniform(150, 350)))
        m.close(c.temp2rad(c.rad2temp(R, ch), ch), R, what + "radiance of the temperature of %r" % R, rtol=1e-8)
        return
    nd = int(kind[0])
    shape = tuple(int(v) for v in rng.integers(0 if rng.random() < .1 else 1, (40, 9, 5)[nd - 1], nd))
    T = rng.uniform(150, 350, shape)
    if rng.random() < .15:
        T = 10 ** rng.uniform(1.1, 4, shape)
        m.saw("wide range")
    if nd == 1 and rng.random() < .5:
        T = np.sort(T)
    if rng.random() < .1:
        T = np.rint(T).astype(int)
        m.saw("integer")
    elif rng.random() < .15:
        T = np.where((T < 60) | (T > 1500), 290., T).astype("f4")
        m.saw("single precision")
    bad = np.zeros(shape, bool)
    if rng.random() < .5 and T.dtype.kind == "f":
        bad = rng.random(shape) < rng.choice([.1, .5, 1])
        T[bad] = rng.choice([np.nan, np.inf, -np.inf, 0., -1., -1e30], int(bad.sum()))
        m.saw("invalid")
    m.trivial = not bad.any()
    if rng.random() < .2:
        big = np.repeat(T, 2, axis=0)
        T = big[::2]
        m.saw("strided")
    if rng.random() < .1:
        T = np.ma.masked_array(T)
        m.saw("masked")
    held = np.array(T)
    single = T.dtype == np.dtype("f4")
    rt = 3e-5 if single else 1e-9
    with np.errstate(all="ignore"):
        R = c.temp2rad(T, ch)
        m.equal(R.shape, shape, what + "shape of radiances")
        want = np.where(bad, np.nan, planck(s, ch, np.where(bad, 300., np.array(T, float))).astype(float))
        m.close(np.ma.filled(R, np.nan), want, what + "radiances", rtol=rt)
        m.check(np.array_equal(np.array(T), held, equal_nan=True), what + "temperatures given stay as they were")
        back = c.rad2temp(np.array(R), ch)
        m.equal(back.shape, shape, what + "shape of temperatures")
        m.close(back, np.where(bad, np.nan, np.array(T, float)), what + "temperatures of the radiances", rtol=rt)
    if T.dtype.kind == "f" and not single:
        flat, r = np.array(T)[~bad], np.array(R)[~bad]
        for k in rng.permutation(len(flat))[:4]:
            m.close(r[k], c.temp2rad(float(flat[k]), ch), what + "element and scalar", rtol=1e-13)
            m.close(c.rad2temp(r, ch)[k], c.rad2temp(float(r[k]), ch), what + "element and scalar, radiance", rtol=1e-13)
        o = np.argsort(flat)
        a, b = flat[o], r[o]
        m.check(np.all(np.diff(b)[np.diff(a) > 1e-9] > 0), what + "radiance increases with temperature")
        # invalid radiances have no temperature, wherever they are
        q = np.array(R)
        hole = rng.random(shape) < .3
        q[hole] = rng.choice([np.nan, 0., -3., np.inf, -1e30], int(hole.sum()))
        with np.errstate(all="ignore"):
            held = q.copy()
            got = c.rad2temp(q, ch)
        m.close(got, np.where(bad | hole, np.nan, np.array(T, float)), what + "temperatures with invalid radiances", rtol=1e-9)
        m.check(np.array_equal(q, held, equal_nan=True), what + "radiances given stay as they were")
    # radiances that are whole numbers (of whatever type) have temperatures too
    if rng.random() < .2:
        q = rng.integers(1, 200, shape).astype(str(rng.choice(["i4", "i8", "i2"])))
        m.saw("whole radiances")
        nu, a, b = (np.longdouble(repr(v[ch - 1])) for v in COEF[s])
        m.close(c.rad2temp(q, ch), ((C2 * nu / np.log1p(C1 * nu ** 3 / q.astype(np.longdouble)) - a) / b).astype(float), what + "temperatures of whole radiances", rtol=1e-9)
    other.temp2rad(280., 1)
