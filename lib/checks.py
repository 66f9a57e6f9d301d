"""One function per property."""
import json
import os
import re
import vlib
from concurrent.futures import ThreadPoolExecutor

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


@check("C13")
def c13(ctx):
    ctx.build([("seedseq", "h_seedseq.cpp")])
    ctx.traces_of("seedseq", "SeedSeqTrace", weight=lambda f, ls: sum(len(l) ** 1.0 for l in ls))

NP = 16


def scripts(ctx, cfg, num, depth, salt=0, gen="EngineGen"):
    """behaviours of EngineGen / DistGen, as scripts for h_api.cpp / h_dist.cpp"""
    o = ctx.model(gen, cfg, workers=1, extra=["-simulate", "num=%d" % num, "-depth", str(depth + 4), "-seed", str(ctx.seed * 1000 + salt)])
    res = [json.loads(x.encode().decode("unicode_escape")) for x in re.findall(r'"SCRIPT (.*)"', o)]
    if len(res) < num:
        raise vlib.CheckError(gen + " gave %d scripts of %d: %s" % (len(res), num, o[-1500:]))
    path = os.path.join(ctx.out, cfg + ".scripts")
    with open(path, "w") as f:
        for s in res:
            f.write(";".join("%s %s %s" % tuple(x) for x in s) + "\n")
    ctx.notes[cfg + "_scripts"] = len(res)
    return path


def engine_traces(ctx, mode, spec="EngineTrace", src="h_engines.cpp", flags=(), tag="", env=None):
    """the engine catalog is split over NP translation units"""
    env = env or {}
    names = ["%s%s_%d" % (src[2:-4], tag, k) for k in range(NP)]
    ctx.build([(names[k], src, ["-DNPARTS=%d" % NP, "-DTHISPART=%d" % k] + list(flags)) for k in range(NP)])
    owner = {}
    files = []
    with ThreadPoolExecutor(NP) as ex:
        for nm, fs in zip(names, ex.map(lambda n: ctx.record(n, dict(env, VERIF_MODE=mode, VERIF_J="2"), allow_empty=True), names)):
            for f in fs:
                owner[f] = nm
            files += fs

    def rerun(f):
        sec = json.loads(open(f).readline())["sec"]
        return ctx.record(owner[f], dict(env, VERIF_MODE=mode), "_again", [sec])[0]
    ctx.validate(spec, files, rerun=rerun, label=mode + tag)
    return files


@check("C01")
def c01(ctx):
    engine_traces(ctx, "c01")


@check("C05")
def c05(ctx):
    engine_traces(ctx, "c05")


@check("C06")
def c06(ctx):
    engine_traces(ctx, "c06")


@check("C07")
def c07(ctx):
    engine_traces(ctx, "c07")


def api(ctx, mode, cfg, num, variants=(("_api", ()),)):
    ctx.model("EngineGen", "EngineGen_laws")
    sc = scripts(ctx, cfg, num, 24)
    for tag, flags in variants:
        engine_traces(ctx, mode, "EngineApiTrace", "h_api.cpp", env={"VERIF_SCRIPTS": sc}, tag=tag, flags=flags)


@check("C02")
def c02(ctx):
    # the second variant makes the Mersenne twisters jump for every z, not only above ten million
    api(ctx, "c02", "EngineGen_c02", 30 if ctx.thorough else 8,
        (("_api", ()), ("_jump", ("-DALWAYS_JUMP", "-DBOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD=0"))))
    engine_traces(ctx, "c02")
    ctx.model("EngineLaws", "EngineLaws" if ctx.thorough else "EngineLaws_quick", workers=8)


@check("C03")
def c03(ctx):
    api(ctx, "c03", "EngineGen_c03", 30 if ctx.thorough else 6)


@check("C04")
def c04(ctx):
    api(ctx, "c04", "EngineGen_c04", 30 if ctx.thorough else 6)


def parts(ctx, src, spec, defs, env=None, label=None, weight=None):
    """one harness per entry of defs ({tag: flags}); all their sections judged together"""
    names = ["%s_%s" % (src[2:-4], t) for t in defs]
    ctx.build([(n, src, list(f)) for n, f in zip(names, defs.values())])
    owner, files = {}, []
    with ThreadPoolExecutor(4) as ex:
        for nm, fs in zip(names, ex.map(lambda n: ctx.record(n, dict(env or {}, VERIF_J="3"), allow_empty=True), names)):
            for f in fs:
                owner[f] = nm
            files += fs

    def rerun(f):
        sec = json.loads(open(f).readline())["sec"]
        return ctx.record(owner[f], dict(env or {}), "_again", [sec])[0]
    ctx.validate(spec, files, rerun=rerun, label=label or src[2:-4], weight=weight)
    return files


INTS = {"u8": "std::uint8_t", "i8": "std::int8_t", "u16": "std::uint16_t", "i16": "std::int16_t", "u32": "std::uint32_t", "i32": "std::int32_t", "u64": "std::uint64_t", "i64": "std::int64_t"}


@check("C08")
def c08(ctx):
    parts(ctx, "h_uniform.cpp", "DrawTrace", dict({k: ["-DTYPE=" + v] for k, v in INTS.items()}, big=["-DTYPE=int", "-DMULTI"]))
    ctx.model("UniformModel", "UniformModel_full" if ctx.thorough else "UniformModel", workers=8)
    ctx.model("BigLaws", "BigLaws", workers=2)


@check("C09")
def c09(ctx):
    parts(ctx, "h_real.cpp", "UniformReal", {"all": []})


@check("C10")
def c10(ctx):
    parts(ctx, "h_weights.cpp", "DrawTrace", {str(k): ["-DPART=%d" % k] for k in range(4)})


def dist_parts(ctx, mode, sc):
    parts(ctx, "h_dist.cpp", "DistTrace", {str(k): ["-O0", "-DPART=%d" % k] for k in range(14)}, env=dict(VERIF_MODE=mode, VERIF_SCRIPTS=sc), label="h_dist_" + mode)


@check("C11")
def c11(ctx):
    ctx.model("DistGen", "DistGen_laws", workers=8)
    dist_parts(ctx, "c11", scripts(ctx, "DistGen_c11", 48 if ctx.thorough else 12, 30, gen="DistGen"))


@check("C12")
def c12(ctx):
    dist_parts(ctx, "c12", scripts(ctx, "DistGen_c12", 48 if ctx.thorough else 12, 30, salt=1, gen="DistGen"))


@check("C14")
def c14(ctx):
    d = {"lib%d" % k: ["-DNPARTS=4", "-DTHISPART=%d" % k] for k in range(4)}
    d["scripted"] = ["-DSCRIPTED"]
    parts(ctx, "h_generate.cpp", "GenerateTrace", d)
    ctx.model("GenerateModel", "GenerateModel", workers=8)
    if ctx.thorough:
        ctx.model("GenerateModel", "GenerateModel_w2", workers=8)


@check("C15")
def c15(ctx):
    ctx.model("QrngGen", "QrngGen_laws", workers=8)
    ctx.model("QrngModel", workers=8)
    ctx.model("QrngModel", "QrngModel_full", workers=8)
    sc = scripts(ctx, "QrngGen", 24, 26, gen="QrngGen")
    parts(ctx, "h_qrng.cpp", "QrngTrace", {str(k): ["-DPART=%d" % k] for k in range(4)}, env=dict(VERIF_SCRIPTS=sc))


@check("C16")
def c16(ctx):
    ctx.model("LatticeLaws", workers=8)
    parts(ctx, "h_lattice.cpp", "LatticeTrace", {"all": []})


@check("C17")
def c17(ctx):
    # every pattern of answers for two values, and more for three
    res = []
    for cfg, step in (("RandomDeviceGen", 1), ("RandomDeviceGen_3", 1 if ctx.thorough else 9)):
        o = ctx.model("RandomDeviceGen", cfg, workers=8)
        res += sorted(" ".join(json.loads(x.encode().decode("unicode_escape"))) for x in re.findall(r'"SCRIPT (.*)"', o))[ctx.seed % step::step]
    ctx.notes["scripts"] = len(res)
    path = os.path.join(ctx.out, "device.scripts")
    with open(path, "w") as f:
        f.write("\n".join(res) + "\n")
    src = os.path.join(vlib.REPO, "src", "random_device.cpp")
    parts(ctx, "h_device.cpp", "RandomDeviceTrace", {"all": [src, "-Wl,--wrap=open,--wrap=read,--wrap=close", "-pthread"]}, env=dict(VERIF_SCRIPTS=path))


@check("C18")
def c18(ctx):
    ctx.model("WrapGen", "WrapGen_laws5" if ctx.thorough else "WrapGen_laws", workers=8)
    sc = scripts(ctx, "WrapGen", 48 if ctx.thorough else 10, 40, gen="WrapGen")
    parts(ctx, "h_wrap.cpp", "WrapTrace", {str(k): ["-DPART=%d" % k] for k in range(5)}, env=dict(VERIF_SCRIPTS=sc))


@check("C19")
def c19(ctx):
    # every sequence of up to three runs of ten classes of engine values; more runs of the extreme classes
    res = set()
    for cfg, step in (("SupportGen", 1), ("SupportGen_5", 1 if ctx.thorough else 7)) + ((("SupportGen_4", 1),) if ctx.thorough else ()):
        o = ctx.model("SupportGen", cfg, workers=8)
        res |= set(sorted(" ".join(json.loads(x.encode().decode("unicode_escape"))) for x in re.findall(r'"SCRIPT (.*)"', o))[ctx.seed % step::step])
    ctx.notes["sequences"] = len(res)
    path = os.path.join(ctx.out, "support.scripts")
    with open(path, "w") as f:
        f.write("\n".join(sorted(res)) + "\n")
    parts(ctx, "h_support.cpp", "SupportTrace", {str(k): ["-DPART=%d" % k] for k in range(15)}, env=dict(VERIF_SCRIPTS=path))


@check("C20")
def c20(ctx):
    # known values, monotonicity, limits and identities of the distribution functions, then counts
    ctx.model("LawModel", workers=4)
    parts(ctx, "h_law.cpp", "LawTrace", {str(k): ["-O2", "-DPART=%d" % k] for k in range(7)}, label="h_law", weight=lambda f, lines: 20000 + 1)
    ctx.assumptions.append("the draws are made with fixed seeds: a difference below six standard deviations of the count is not seen")


META = {
    "C13": dict(note="exhaustive over output lengths 0..72 for 17 stored lengths plus the 622..624 threshold, 32- and 64-bit elements; words sampled"),
}
