#!/usr/bin/env python3
"""Writes the engine catalog used by the specifications (spec/catalog.json, spec/mixmax_skip.json)
and the matching list of C++ types for the harnesses (harness/engines.inc).

The parameters are those of the documentation and of the papers it cites, not read from the
headers.  Engines whose name starts with "s_" are small instantiations of the templates whose whole
state space can be explored; "x_" are further instantiations of unusual shape."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def W(n):
    assert 0 <= n < 1 << 75
    return [(n >> (15 * i)) & 32767 for i in range(5)]


B = "boost::random::"
E = []   # (name, C++ type, descriptor, dict(sb=seed bits, real=w or 0, buf=, tags=))


def add(name, cxx, d, sb=32, real=0, buf=1, tags=()):
    E.append(dict(name=name, cxx=cxx, d=d, sb=sb, real=real, buf=buf, tags=list(tags)))
    return d


def lcg(a, c, m, w=32):
    return dict(k="lcg", a=W(a), c=W(c), m=W(m), w=w)


def mt(w, n, m, r, a, u, d, s, b, t, c, l, f):
    return dict(k="mt", w=w, n=n, m=m, r=r, a=W(a), u=u, d=W(d), s=s, b=W(b), t=t, c=W(c), l=l, f=W(f))


def swc(w, s, r): return dict(k="swc", w=w, s=s, r=r)
def lfib(w, p, q): return dict(k="lfib", w=w, p=p, q=q)
def lfsr(w, k, q, s): return dict(k="lfsr", w=w, kk=k, q=q, s=s)
def inv(a, b, p): return dict(k="inv", a=W(a), b=W(b), p=W(p))
def disc(p, r, base): return dict(k="discard", p=p, r=r, base=base)
def shuf(n, base): return dict(k="shuffle", n=n, base=base)
def addc(b1, b2): return dict(k="addc", b1=b1, b2=b2)
def xorc(b1, s1, b2, s2, w=32): return dict(k="xorc", b1=b1, s1=s1, b2=b2, s2=s2, w=w)
def ind(w, base): return dict(k="ind", w=w, base=base)


P = ("prod",)
M31 = 2**31 - 1
# ---- predefined engines -------------------------------------------------
minstd0 = add("minstd_rand0", B + "minstd_rand0", lcg(16807, 0, M31), tags=P)
add("minstd_rand", B + "minstd_rand", lcg(48271, 0, M31), tags=P)
add("rand48", B + "rand48", dict(k="rand48"), tags=P)
mt11 = mt(32, 351, 175, 19, 0xccab8ee7, 11, 0xffffffff, 7, 0x31b6ab00, 15, 0xffe50000, 17, 1812433253)
mt19 = mt(32, 624, 397, 31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253)
mt64 = mt(64, 312, 156, 31, 0xb5026f5aa96619e9, 29, 0x5555555555555555, 17, 0x71d67fffeda60000, 37, 0xfff7eee000000000, 43, 6364136223846793005)
add("mt11213b", B + "mt11213b", mt11, buf=351, tags=P)
add("mt19937", B + "mt19937", mt19, buf=624, tags=P)
add("mt19937_64", B + "mt19937_64", mt64, sb=64, buf=312, tags=P)
taus = xorc(xorc(lfsr(32, 31, 13, 12), 0, lfsr(32, 29, 2, 4), 0), 0, lfsr(32, 28, 3, 17), 0)
add("taus88", B + "taus88", taus, tags=P)
add("hellekalek1995", B + "hellekalek1995", inv(9102, 2147483647 - 36884165, M31), tags=P)
add("ecuyer1988", B + "ecuyer1988", addc(lcg(40014, 0, 2147483563), lcg(40692, 0, 2147483399)), tags=P)
add("kreutzer1986", B + "kreutzer1986", shuf(97, lcg(1366, 150889, 714025)), buf=97, tags=P)
add("knuth_b", B + "knuth_b", shuf(256, minstd0), buf=256, tags=P)
LF = [(607, 273), (1279, 418), (2281, 1252), (3217, 576), (4423, 2098), (9689, 5502), (19937, 9842), (23209, 13470), (44497, 21034)]
for p, q in LF:
    add("lagged_fibonacci%d" % p, B + "lagged_fibonacci%d" % p, lfib(48, p, q), real=48, buf=p, tags=P + (("big",) if p > 3000 else ()))
rb = swc(24, 10, 24)
rb64 = swc(48, 10, 24)
add("ranlux3", B + "ranlux3", disc(223, 24, rb), buf=24, tags=P)
add("ranlux4", B + "ranlux4", disc(389, 24, rb), buf=24, tags=P)
add("ranlux3_01", B + "ranlux3_01", disc(223, 24, rb), real=24, buf=24, tags=P)
add("ranlux4_01", B + "ranlux4_01", disc(389, 24, rb), real=24, buf=24, tags=P)
add("ranlux64_3", B + "ranlux64_3", disc(223, 24, rb64), sb=64, buf=24, tags=P)
add("ranlux64_4", B + "ranlux64_4", disc(389, 24, rb64), sb=64, buf=24, tags=P)
add("ranlux64_3_01", B + "ranlux64_3_01", disc(223, 24, rb64), real=48, buf=24, tags=P)
add("ranlux64_4_01", B + "ranlux64_4_01", disc(389, 24, rb64), real=48, buf=24, tags=P)
add("ranlux24_base", B + "ranlux24_base", rb, buf=24, tags=P)
add("ranlux48_base", B + "ranlux48_base", swc(48, 5, 12), sb=64, buf=12, tags=P)
add("ranlux24", B + "ranlux24", disc(223, 23, rb), buf=23, tags=P)
add("ranlux48", B + "ranlux48", disc(389, 11, swc(48, 5, 12)), sb=64, buf=11, tags=P)
add("splitmix64", B + "splitmix64", dict(k="split"), sb=64, tags=P)
add("mixmax", B + "mixmax", dict(k="mixmax"), sb=64, buf=17, tags=P)

U8, U16, U32, U64 = "std::uint8_t", "std::uint16_t", "std::uint32_t", "std::uint64_t"
BITS = {U8: 8, U16: 16, U32: 32, U64: 64, "std::int32_t": 32, "std::int64_t": 64}


def cx(x, ty):
    return ("%d%s" % (x, "ULL" if ty == U64 else "LL" if ty == "std::int64_t" else "U" if ty == U32 else ""))


# ---- linear congruential ------------------------------------------------
def add_lcg(name, ty, a, c, m, tags, sb=None):
    bits = BITS[ty]
    return add(name, B + "linear_congruential_engine<%s,%s,%s,%s>" % (ty, cx(a, ty), cx(c, ty), cx(m, ty)), lcg(a, c, m, bits),
               sb=sb or bits, tags=tags)


S = ("small",)
X = ("extra",)
for (a, c, m) in [(3, 0, 7), (5, 2, 7), (1, 3, 7), (1, 5, 13), (2, 0, 11), (1, 0, 5), (6, 5, 13), (3, 1, 8), (5, 3, 16), (16, 16, 17), (30, 7, 31), (4, 9, 27), (1, 1, 3), (2, 2, 3)]:
    add_lcg("s_lcg_%d_%d_%d" % (a, c, m), U32, a, c, m, S)
add_lcg("s_lcg8_0", U32, 77, 55, 256, S)
add_lcg("s_lcg8_251", U16, 250, 3, 251, S + ("nowords",))
add_lcg("x_lcg16_0", U16, 25173, 13849, 0, X)
add_lcg("x_lcg16_65521", U16, 17364, 65520, 65521, X + ("nowords",))
add_lcg("x_lcg32_0", U32, 1664525, 1013904223, 0, X)
add_lcg("x_lcg32_0b", U32, 4294967291, 4294967295, 0, X)
add_lcg("x_lcg32_2e31", U32, 1103515245, 12345, 2**31, X)
add_lcg("x_lcg32_big", U32, 1588635695, 0, 4294967291, X)
add_lcg("x_lcg32_big2", U32, 4294967290, 4294967289, 4294967291, X)
add_lcg("x_lcg32_half", U32, 65539, 2147483647, 2**31 + 11, X)
add_lcg("x_lcg64_0", U64, 6364136223846793005, 1442695040888963407, 0, X)
add_lcg("x_lcg64_48", U64, 0x5DEECE66D, 11, 2**48, X)
add_lcg("x_lcg64_59", U64, 13**13, 0, 2**59, X)
add_lcg("x_lcg64_61", U64, 437799614237992725, 0, 2**61 - 1, X)
add_lcg("x_lcg64_61b", U64, 2**61 - 2, 2**61 - 3, 2**61 - 1, X)
add_lcg("x_lcg64_33", U64, 4294967310, 4294967295, 2**32 + 15, X)
add_lcg("x_lcg64_40", U64, 1099511627688, 77, 1099511627689, X)
add_lcg("x_lcg64_64", U64, 18446744073709551556, 18446744073709551555, 18446744073709551557, X)
add_lcg("x_lcg64_64b", U64, 3, 1, 18446744073709551557, X)
add_lcg("x_lcg64_63", U64, 9219741426499971445, 1, 2**63, X)
add_lcg("x_lcgi32", "std::int32_t", 16807, 0, M31, X + ("nowords",))
add_lcg("x_lcgi32b", "std::int32_t", 2147483646, 2147483645, M31, X + ("nowords",))
add_lcg("x_lcgi32c", "std::int32_t", 1366, 150889, 714025, X + ("nowords",))
add_lcg("x_lcgi64", "std::int64_t", 68909602460261, 0, 2**48, X)
add_lcg("x_lcgi64b", "std::int64_t", 2**61 - 2, 5, 2**61 - 1, X)


# ---- mersenne twister ---------------------------------------------------
def add_mt(name, ty, par, tags):
    w, n, m, r, a, u, d, s, b, t, c, l, f = par
    add(name, B + "mersenne_twister_engine<%s,%d,%d,%d,%d,%s,%d,%s,%d,%s,%d,%s,%d,%s>" % (ty, w, n, m, r, cx(a, ty), u, cx(d, ty), s, cx(b, ty), t, cx(c, ty), l, cx(f, ty)),
        mt(*par), sb=BITS[ty], buf=n, tags=tags)


# small twisters: the recurrence has a primitive characteristic polynomial (searched offline)
SMALL_MT = json.load(open(os.path.join(V, "lib", "small_mt.json")))
for q in SMALL_MT:
    w, n, m, r, a = q
    f = 0x6C078965 & ((1 << w) - 1) | 1
    msk = (1 << w) - 1
    par = (w, n, m, r, a, max(1, w // 2), msk, max(1, w // 4), 0x9d2c5680 & msk | 1, max(1, w // 2), 0xefc60005 & msk, max(1, w // 2), f)
    add_mt("s_mt_w%d_n%d_m%d_r%d" % (w, n, m, r), U32 if w < 32 else U32, par, (S if n * w - r <= 12 else X) + ("mtjump",))

# ---- subtract with carry ------------------------------------------------
for (ty, w, s, r) in [(U32, 2, 1, 3), (U32, 2, 2, 3), (U32, 1, 1, 4), (U32, 3, 1, 2), (U32, 1, 3, 7), (U32, 1, 2, 5)]:
    add("s_swc_%d_%d_%d" % (w, s, r), B + "subtract_with_carry_engine<%s,%d,%d,%d>" % (ty, w, s, r), swc(w, s, r), buf=r, tags=S)
for (ty, w, s, r) in [(U32, 31, 7, 20), (U64, 33, 3, 8), (U64, 60, 5, 6), (U64, 32, 4, 9), (U32, 8, 2, 6), (U32, 24, 1, 24), (U32, 24, 23, 24)]:
    add("x_swc_%d_%d_%d" % (w, s, r), B + "subtract_with_carry_engine<%s,%d,%d,%d>" % (ty, w, s, r), swc(w, s, r), sb=BITS[ty], buf=r, tags=X)
for (ty, w, s, r) in [("float", 24, 3, 10), ("double", 48, 2, 7), ("double", 32, 4, 6), ("double", 3, 1, 3), ("long double", 60, 3, 5)]:
    add("x_swc01_%d_%d_%d" % (w, s, r), B + "subtract_with_carry_01_engine<%s,%d,%d,%d>" % (ty, w, s, r), swc(w, s, r), real=w, buf=r, tags=X)

# ---- lagged fibonacci ---------------------------------------------------
for (ty, w, p, q) in [(U32, 2, 3, 1), (U32, 2, 3, 2), (U32, 1, 7, 3), (U32, 3, 2, 1), (U32, 1, 5, 2)]:
    add("s_lf_%d_%d_%d" % (w, p, q), B + "lagged_fibonacci_engine<%s,%d,%d,%d>" % (ty, w, p, q), lfib(w, p, q), sb=BITS[ty], buf=p, tags=S)
for (ty, w, p, q) in [(U32, 32, 55, 24), (U64, 64, 17, 5), (U64, 48, 607, 273), (U64, 33, 9, 8), (U16, 16, 9, 4), (U32, 31, 33, 1)]:
    add("x_lf_%d_%d_%d" % (w, p, q), B + "lagged_fibonacci_engine<%s,%d,%d,%d>" % (ty, w, p, q), lfib(w, p, q), sb=BITS[ty], buf=p, tags=X)
for (ty, w, p, q) in [("double", 48, 20, 7), ("double", 32, 13, 12), ("double", 3, 4, 1), ("float", 23, 55, 24), ("long double", 60, 10, 3)]:
    add("x_lf01_%d_%d_%d" % (w, p, q), B + "lagged_fibonacci_01_engine<%s,%d,%d,%d>" % (ty, w, p, q), lfib(w, p, q), real=w, buf=p, tags=X)

# ---- tausworthe, inversive ----------------------------------------------
for (ty, w, k, q, s) in [(U32, 8, 7, 3, 4), (U32, 8, 5, 2, 2), (U32, 6, 5, 2, 3)]:
    add("s_lfsr_%d_%d_%d_%d" % (w, k, q, s), B + "linear_feedback_shift_engine<%s,%d,%d,%d,%d>" % (ty, w, k, q, s), lfsr(w, k, q, s), sb=BITS[ty], tags=S)
for (ty, w, k, q, s) in [(U32, 32, 31, 13, 12), (U32, 32, 29, 2, 4), (U32, 32, 28, 3, 17), (U64, 64, 63, 1, 10), (U64, 64, 58, 19, 28), (U64, 33, 31, 6, 18)]:
    add("x_lfsr_%d_%d_%d_%d" % (w, k, q, s), B + "linear_feedback_shift_engine<%s,%d,%d,%d,%d>" % (ty, w, k, q, s), lfsr(w, k, q, s), sb=BITS[ty], tags=X)
for (ty, a, b, p) in [(U32, 3, 0, 7), (U32, 2, 3, 7), (U32, 5, 1, 31), (U32, 1, 1, 3)]:
    add("s_inv_%d_%d_%d" % (a, b, p), B + "inversive_congruential_engine<%s,%s,%s,%s>" % (ty, cx(a, ty), cx(b, ty), cx(p, ty)), inv(a, b, p), sb=BITS[ty], tags=S)
for (ty, a, b, p) in [(U32, 9102, 0, M31), (U32, 2147483646, 2147483646, M31), ("std::int32_t", 9102, 36884165, M31), (U64, 77, 5, 1000003)]:
    add("x_inv_%s_%d" % (ty[5:-2], b), B + "inversive_congruential_engine<%s,%s,%s,%s>" % (ty, cx(a, ty), cx(b, ty), cx(p, ty)), inv(a, b, p), sb=BITS[ty], tags=X + (("nowords",) if "::int" in ty else ()))

# ---- adaptors -----------------------------------------------------------
def typ(n): return next(e for e in E if e["name"] == n)


def ad(name, cxx, d, of, tags, **kw):
    b = typ(of)
    nw = ("nowords",) if "nowords" in b["tags"] else ()
    add(name, cxx % b["cxx"], d(b["d"]), sb=b["sb"], tags=tuple(tags) + nw, **kw)


ADP = ("adaptor",)
for (p, r, of, sm) in [(5, 2, "s_lcg_5_2_7", 1), (4, 4, "s_lcg_5_3_16", 1), (3, 1, "s_swc_2_1_3", 1), (7, 3, "s_lf_1_7_3", 1), (10, 9, "mt19937", 0), (13, 5, "x_lcg64_0", 0), (1000, 3, "minstd_rand", 0)]:
    ad("%s_disc_%d_%d_%s" % ("sx"[1 - sm], p, r, of), B + "discard_block_engine<%%s,%d,%d>" % (p, r), lambda b, p=p, r=r: disc(p, r, b), of, (S if sm else X) + ADP, buf=r)
ad("x_disc_4_2_real", B + "discard_block_engine<%s,7,3>", lambda b: disc(7, 3, b), "x_lf01_48_20_7", X + ADP, real=48, buf=3)
for (n, of, sm) in [(1, "s_lcg_5_2_7", 1), (2, "s_lcg_3_0_7", 1), (3, "s_lcg_6_5_13", 1), (4, "s_lcg_5_3_16", 1), (5, "s_lcg8_0", 1), (256, "x_lcg64_0", 0), (3, "x_lcg64_0", 0), (97, "x_lcg32_0", 0), (64, "mt19937_64", 0), (100, "x_lcg64_61", 0),
                    (7, "x_lcg64_64", 0), (255, "x_lcg32_big", 0), (129, "splitmix64", 0), (33, "hellekalek1995", 0)]:
    if of == "splitmix64": continue     # has no iterator seeding, so the adaptor cannot wrap it
    ad("%s_shuf_%d_%s" % ("sx"[1 - sm], n, of), B + "shuffle_order_engine<%%s,%d>" % n, lambda b, n=n: shuf(n, b), of, (S if sm else X) + ADP, buf=n)
for (w, of, ty, sm) in [(3, "s_lcg_3_1_8", U32, 1), (5, "s_lcg_3_1_8", U32, 1), (4, "s_lcg_5_2_7", U32, 1), (2, "s_lcg_3_0_7", U32, 1), (7, "s_lcg_1_5_13", U32, 1), (1, "s_lcg_5_3_16", U32, 1), (9, "s_lcg_30_7_31", U32, 1), (16, "s_lcg_16_16_17", U32, 1), (3, "s_lcg_1_1_3", U32, 1), (2, "s_lcg_2_2_3", U32, 1), (5, "s_lcg_1_1_3", U32, 1), (1, "s_lcg_1_1_3", U32, 1), (20, "s_lcg_1_1_3", U32, 1),
                        (31, "minstd_rand", U32, 0), (32, "minstd_rand0", U32, 0), (64, "minstd_rand", U64, 0), (32, "mt19937", U32, 0), (17, "mt19937", U32, 0), (64, "mt19937", U64, 0), (48, "mt19937", U64, 0),
                        (64, "mt19937_64", U64, 0), (32, "mt19937_64", U32, 0), (33, "mt19937_64", U64, 0), (1, "mt19937_64", U64, 0), (24, "ranlux24_base", U32, 0), (64, "ranlux48_base", U64, 0), (63, "x_lcg64_61", U64, 0), (61, "x_lcg64_61b", U64, 0),
                        (32, "x_lcg32_big", U32, 0), (64, "x_lcg64_0", U64, 0), (40, "x_lcg32_half", U64, 0), (64, "kreutzer1986", U64, 0), (60, "rand48", U64, 0), (30, "x_lcg16_0", U32, 0)]:
    ad("%s_ind_%d_%s" % ("sx"[1 - sm], w, of), B + "independent_bits_engine<%%s,%d,%s>" % (w, ty), lambda b, w=w: ind(w, b), of, (S if sm else X) + ADP)


def ad2(name, fmt, d, o1, o2, tags, **kw):
    b1, b2 = typ(o1), typ(o2)
    add(name, fmt % (b1["cxx"], b2["cxx"]), d(b1["d"], b2["d"]), sb=b1["sb"], tags=tuple(tags), **kw)


add_lcg("s_lcg_2_0_5", U32, 2, 0, 5, S)
for (o1, o2, sm) in [("s_lcg_3_0_7", "s_lcg_2_0_5", 1), ("s_lcg_2_0_11", "s_lcg_3_0_7", 1), ("minstd_rand", "minstd_rand0", 0), ("x_lcg64_61", "x_lcg64_59", 0)]:
    ad2("%s_addc_%s_%s" % ("sx"[1 - sm], o1, o2), B + "additive_combine_engine<%s,%s >", addc, o1, o2, (S if sm else X) + ADP)
for (o1, s1, o2, s2, w, sm) in [("s_lfsr_8_7_3_4", 0, "s_lfsr_6_5_2_3", 0, 32, 1), ("mt19937", 0, "mt11213b", 0, 32, 0), ("mt19937_64", 0, "x_lfsr_64_63_1_10", 0, 64, 0), ("x_lfsr_32_31_13_12", 0, "mt19937", 0, 32, 0)]:
    ad2("%s_xorc_%s_%d_%s_%d" % ("sx"[1 - sm], o1, s1, o2, s2), B + "xor_combine_engine<%%s,%d,%%s,%d>" % (s1, s2), lambda a, b, s1=s1, s2=s2, w=w: xorc(a, s1, b, s2, w), o1, o2, (S if sm else X) + ADP)
# shifted operands: the values are right, the advertised bounds are not claimed (tag "nobounds")
for (o1, s1, o2, s2, w) in [("x_lfsr_32_31_13_12", 3, "mt11213b", 7, 32), ("mt19937_64", 13, "mt19937_64", 31, 64)]:
    ad2("x_xorc_%s_%d_%s_%d" % (o1, s1, o2, s2), B + "xor_combine_engine<%%s,%d,%%s,%d>" % (s1, s2), lambda a, b, s1=s1, s2=s2, w=w: xorc(a, s1, b, s2, w), o1, o2, X + ADP + ("nobounds",))


def mixmax_rows():
    M, N, m = 2**61 - 1, 17, 2**36

    def step(Y):
        s = sum(Y) % M
        out, Pp, v = [s], 0, s
        for i in range(1, N):
            Pn = (Pp + Y[i]) % M
            v = (v + m * Pp + Pn) % M
            out.append(v)
            Pp = Pn
        return out
    K = [[1] + [0] * 16]
    for _ in range(N): K.append(step(K[-1]))
    A = [[K[j][i] for j in range(N)] + [K[N][i]] for i in range(N)]
    for c in range(N):
        p = next(r for r in range(c, N) if A[r][c] % M)
        A[c], A[p] = A[p], A[c]
        iv = pow(A[c][c], M - 2, M)
        A[c] = [x * iv % M for x in A[c]]
        for r in range(N):
            if r != c and A[r][c]:
                f = A[r][c]
                A[r] = [(x - f * y) % M for x, y in zip(A[r], A[c])]
    chi = [A[i][N] for i in range(N)]

    def mul(a, b):
        r = [0] * (2 * N - 1)
        for i, x in enumerate(a):
            for j, y in enumerate(b): r[i + j] = (r[i + j] + x * y) % M
        for k in range(2 * N - 2, N - 1, -1):
            c = r[k]
            for j in range(N): r[k - N + j] = (r[k - N + j] + c * chi[j]) % M
        return r[:N]
    p = [0, 1] + [0] * 15
    for _ in range(512): p = mul(p, p)
    rows = []
    for _ in range(128):
        rows.append([W(x) for x in p])
        p = mul(p, p)
    return rows


def jumps(d):
    """exact closed form in Engines!Jump, and discard is not a loop"""
    k = d["k"]
    if k == "mt": return d["n"] * d["w"] - d["r"] <= 28
    if k in ("addc", "xorc"): return jumps(d["b1"]) and jumps(d["b2"])
    return k in ("lcg", "rand48")


def fast(d):
    """discard takes time logarithmic in its argument"""
    k = d["k"]
    if k == "mt": return True
    if k in ("addc", "xorc"): return fast(d["b1"]) and fast(d["b2"])
    return k in ("lcg", "rand48")


# ---- directed seeds: states at which the arithmetic of a family changes its path --------
def N(l): return sum(x << (15 * i) for i, x in enumerate(l))


def lcg_par(d): return N(d["a"]), N(d["c"]), N(d["m"]) or 1 << d["w"]


def lcg_back(d, t, n):
    """the state from which n steps of the generator lead to t, or None"""
    a, c, m = lcg_par(d)
    try:
        ai = pow(a, -1, m)
    except ValueError:
        return None
    A, C = ai, (-c * ai) % m          # one step back: x -> A x + C; composed by doubling
    RA, RC = 1, 0
    while n:
        if n & 1:
            RA, RC = RA * A % m, (RC * A + C) % m
        A, C = A * A % m, (C * A + C) % m
        n >>= 1
    x = (RA * t + RC) % m
    return None if x == 0 and c == 0 else x


def directed(d):
    k = d["k"]
    if k == "lcg":
        a, c, m = lcg_par(d)
        ts = {0, 1, 2, m - 1, m - 2, c % m, (c - 1) % m, (c + 1) % m, m // 2, m // 2 + 1, (c + m // 2) % m}
        xs = {lcg_back(d, t, 1) for t in ts} | {1, 2, m - 1, m - 2, m // 2}
        if a:
            for q in (m // a, m // a * 2, m // a * (a - 1)):
                xs |= {(q - 1) % m, q % m, (q + 1) % m}
        return sorted(x for x in xs if x is not None and x < m)
    if k == "inv":
        a, b, m = N(d["a"]), N(d["b"]), N(d["p"])
        xs = {0, 1, 2, m - 1, m - 2}
        if b % m: xs.add(-a * pow(b, -1, m) % m)
        for t in (1, m - 1):
            if (t - b) % m: xs.add(a * pow(t - b, -1, m) % m)
        return sorted(xs)
    if k in ("shuffle", "ind", "discard") and d["base"]["k"] == "lcg":
        bd = d["base"]
        a, c, m = lcg_par(bd)
        if k == "ind" and (m < 1000 or a == m - 1): return []      # short cycles: rejection need not end
        lo = 1 if c == 0 else 0
        R = m - lo
        if k == "shuffle":
            n = d["n"]
            ys = {0, R - 1, R - 2, 1}
            for j in {1, 2, n // 2, n - 1} & set(range(1, n)):
                t = -(-j * R // n)
                ys |= {t - 2, t - 1, t, t + 1}
            xs = {lcg_back(bd, (lo + y) % m, n + 1) for y in ys if 0 <= y < R}
        elif k == "ind":
            w = d["w"]
            lg = R.bit_length() - 1
            n = -(-w // lg)
            while True:
                w0 = w // n
                n0 = n - w % n
                y0 = (R >> w0) << w0
                y1 = (R >> (w0 + 1)) << (w0 + 1)
                if R - y0 <= y0 // n: break
                n += 1
            ys = {0, 1, y0 - 1, y0, y1 - 1, y1, R - 1, R - 2}
            xs = {lcg_back(bd, (lo + y) % m, i) for y in ys if 0 <= y < R for i in {1, 2, n0, n0 + 1, n}}
        else:
            return []
        return sorted(x for x in xs if x is not None)
    return []


def directed2(d):
    """pairs of seeds for additive_combine: differences around zero"""
    if d["k"] != "addc" or d["b1"]["k"] != "lcg" or d["b2"]["k"] != "lcg": return []
    (a1, c1, m1), (a2, c2, m2) = lcg_par(d["b1"]), lcg_par(d["b2"])
    res = []
    for t1, t2 in ((5 % m1, 5 % m2), (1, 1), (1, m2 - 1), (m1 - 1, 1), (m2 - 1, m2 - 1), (2, 3), (3, 2), (m2 // 2, m2 // 2), (m2 // 2, m2 // 2 + 1), (m1 - 1, m2 - 1), (0, 0)):
        for n in (1, 2):
            x, y = lcg_back(d["b1"], t1, n), lcg_back(d["b2"], t2, n)
            if x is not None and y is not None: res.append((x, y))
    return res


if __name__ == "__main__":
    names = [e["name"] for e in E]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    json.dump({e["name"]: dict(e["d"], sb=e["sb"], sg=e["cxx"].find("<std::int") > 0) for e in E}, open(os.path.join(V, "spec", "catalog.json"), "w"), separators=(",", ":"))
    json.dump(mixmax_rows(), open(os.path.join(V, "spec", "mixmax_skip.json"), "w"), separators=(",", ":"))
    with open(os.path.join(V, "harness", "engines.inc"), "w") as f:
        f.write("// generated by lib/catalog.py: ENGINE(name, seed bits, real word size, buffer, tags, type)\n")
        for i, e in enumerate(E):
            if jumps(e["d"]): e["tags"].append("jump")
            if fast(e["d"]): e["tags"].append("fast")
            ds = directed(e["d"])
            if ds: e["tags"].append("d:" + ",".join(map(str, ds)))
            ds = directed2(e["d"])
            if ds: e["tags"].append("dd:" + ",".join("%d,%d" % x for x in ds))
            f.write('#if PART(%d)\nENGINE(%s, %d, %d, %d, "%s", %s)\n#endif\n' % (i, e["name"], e["sb"], e["real"], e["buf"], " ".join(e["tags"]), e["cxx"]))
    print(len(E), "engines")
