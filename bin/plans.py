"""What each property's check runs: its design models, its case sources, its trace specification."""
import random
from check import SEED, THOROUGH, kf_cases, CheckError

PLANS = {}
TECH = {}


def plan(prop):
    def deco(f):
        PLANS[prop] = f
        return f
    return deco


def run(prop, ctx):
    if prop not in PLANS:
        raise CheckError("no plan for " + prop)
    return PLANS[prop](ctx)


def q(quick, thorough):
    return thorough if THOROUGH else quick


# ---------------------------------------------------------------- squash
SQUASH_CFG = """SPECIFICATION Spec
CONSTANTS
 MaxOps = %d
 KeepHist = %s
 EmitHist = %s
 Targets <- %s
INVARIANT %s
CHECK_DEADLOCK FALSE
"""


def squash_cases(ctx, vdrv):
    rng = random.Random(SEED)
    def wrap(h):
        return {"hist": h, "mix": rng.randrange(1 << 20)}
    cases = kf_cases("squash")
    cases += ctx.tlc_cases("SquashDesign", SQUASH_CFG % (2, "TRUE", "TRUE", "MoreTargets", "Emit"), wrap)
    cases += ctx.tlc_cases("SquashDesign", SQUASH_CFG % (4, "TRUE", "TRUE", "MoreTargets", "Emit"), wrap, simulate=(q(1500, 15000), 6))
    cases += ctx.tlc_cases("SquashDesign", SQUASH_CFG % (9, "TRUE", "TRUE", "MoreTargets", "Emit"), wrap, simulate=(q(1000, 10000), 12))
    cases += ctx.gen(vdrv, "squash", q(4000, 60000))
    return cases


def squash_design(ctx):
    ctx.design("SquashDesign", SQUASH_CFG % (q(3, 4), "FALSE", "FALSE", q("RelTargets", "MoreTargets"), "Equivalent"),
               what="every history of %d steps over 6 paths, 3 bases: the tree written out is equivalent to the layers one by one" % q(3, 4))


@plan("C01")
@plan("C02")
def squash(ctx):
    vdrv = ctx.build()
    squash_design(ctx)
    ctx.conform(vdrv, "squash", "TSquash", squash_cases(ctx, vdrv), what="real Squash judged by Layers.Unpack on 4 bases per stack")
    return ctx.finish("model_checking",
        "stacks of 1-5 layers: every 2-step history of the design model, random longer ones, and seeded random stacks with rich headers; "
        "non-trivial: distinct stack", ["archive/tar reads and writes headers faithfully", "base symlinks are not traversed by the layers"])


# ---------------------------------------------------------------- loaded file systems
VFS_LAYER = [
    {"name": ".", "type": "dir", "mode": 0o755, "mtime": 5}, {"name": "d", "type": "dir", "mode": 0o711, "mtime": 6},
    {"name": "d/x", "type": "reg", "mode": 0o600, "mtime": 7, "data": ""}, {"name": "d/y", "type": "reg", "mode": 0o4755, "mtime": 8, "data": "q"},
    {"name": "d/z", "type": "sym", "link": "x", "mode": 0o777, "mtime": 9}, {"name": "f", "type": "reg", "mode": 0o644, "mtime": 10, "data": "abc"},
    {"name": "s", "type": "sym", "link": "d", "mode": 0o777, "mtime": 11}, {"name": ".wh.nope", "type": "reg", "mode": 0o644, "mtime": 12}]
VFS_CFG = """SPECIFICATION Spec
CONSTANTS
 MaxOps = %d
 EmitHist = %s
%s
CHECK_DEADLOCK FALSE
"""


@plan("C03")
def vfs(ctx):
    vdrv, racy = ctx.build(race=True)
    ctx.design("VfsDesign", VFS_CFG % (q(4, 5), "FALSE", "INVARIANT ExactlyOnce\nPROPERTY Isolated"),
               what="all histories of %d calls on two handles: exactly-once delivery, handles are independent" % q(4, 5))
    def wrap(h):
        return {"layers": [VFS_LAYER], "ops": h}
    cases = kf_cases("vfs")
    cases += ctx.tlc_cases("VfsDesign", VFS_CFG % (3, "TRUE", "INVARIANT Emit"), wrap)
    cases += ctx.tlc_cases("VfsDesign", VFS_CFG % (12, "TRUE", "INVARIANT Emit"), wrap, simulate=(q(1000, 8000), 14))
    cases += ctx.gen(vdrv, "vfs", q(8000, 100000))
    ctx.conform(vdrv, "vfs", "TVfs", cases, what="sessions of calls on a loaded stack")
    ctx.conform(racy, "vfspar", "TVfs", ctx.gen(vdrv, "vfspar", q(1500, 30000)), what="four sessions at once on a loaded stack, watched by the race detector")
    return ctx.finish("model_checking",
        "every 3-call history of the handle model, random longer ones, and seeded random stacks with sessions of 10-35 calls; non-trivial: distinct session",
        ["link targets with '..' after a name are resolved lexically by the code and are not judged here"])


LOOK_CFG = """SPECIFICATION Spec
CONSTANTS
 Names = {"a", "b", "c"}
 Targets <- TargetSet
 Wanted <- WantedSet
 Bounded = TRUE
 Limit = %d
INVARIANTS HopsBounded InsideRoot
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""


@plan("C04")
def adversarial(ctx):
    vdrv = ctx.build()
    ctx.design("LookDesign", LOOK_CFG % q(5, 12), what="every lookup over every symlink graph on 3 names ends (liveness)")
    cases = kf_cases("adv") + ctx.gen(vdrv, "adv", q(6000, 100000))
    ctx.conform(vdrv, "adv", "TVfs", cases, what="adversarial symlink graphs: Squash, Load, Open, ReadDir", timeout="10s")
    return ctx.finish("model_checking",
        "seeded random symlink graphs over 5 names (chains, self-reference, mutual recursion, doubling families, escapes), squashed, loaded and looked up; non-trivial: distinct stack",
        ["a call that takes more than 30 s in a process of its own counts as a hang"])


# ---------------------------------------------------------------- versions
PEP_CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "%s"
 MaxTok = %d
 Big = %s
 EmitCases = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def group(strs, n):
    return [strs[i:i + n] for i in range(0, len(strs), n)]


def universe():
    out = []
    for rel in ("0", "1", "1.0", "1.1", "1.0.1"):
        for pre in ("", "a0", "a1", "b0", "rc10"):
            for post in ("", ".post0", ".post2"):
                for dev in ("", ".dev0", ".dev1"):
                    out.append(rel + pre + post + dev)
    for e in ("", "1!"):
        for rel in ("1", "1.1"):
            for post in ("", ".post0"):
                for loc in ("+1", "+a", "+1.a", "+10"):
                    out.append(e + rel + post + loc)
    return out


@plan("C10")
def versions(ctx):
    vdrv = ctx.build()
    ctx.design("PepDesign", PEP_CFG % ("spell", q(3, 4), "FALSE", "FALSE", "Canonical"), what="every string of %d tokens: the canonical spelling is a fixed point" % q(3, 4))
    ctx.design("PepDesign", PEP_CFG % ("order", 0, q("FALSE", "TRUE"), "FALSE", "Total Chain"), what="every triple of versions of a universe: total order, equal iff equal up to zero padding")
    rng = random.Random(SEED)
    spelled = ctx.tlc_cases("PepDesign", PEP_CFG % ("spell", q(3, 4), "FALSE", "TRUE", "Emit"), lambda h: h["s"])
    rng.shuffle(spelled)
    cases = kf_cases("ver") + [{"vers": g} for g in group(spelled, 8)]
    uni = universe()
    for _ in range(q(300, 6000)):
        cases.append({"vers": rng.sample(uni, 10)})
    cases += ctx.gen(vdrv, "ver", q(6000, 120000))
    ctx.conform(vdrv, "ver", "TPep", cases, what="ParseVersion, String, Normalize, Cmp against the grammar and order of Pep440.tla")
    return ctx.finish("model_checking",
        "every string of %d tokens over a 21-token alphabet, samples of a 300-version universe compared pairwise, random spellings and mutations; non-trivial: distinct group of strings" % q(3, 4),
        ["ASCII strings; numbers of more than 18 digits outside the local label may be rejected"])


def spec_cases(ctx, vdrv, suite, n):
    rng = random.Random(SEED)
    uni = universe()
    clauses = ctx.tlc_cases("PepDesign", PEP_CFG % ("spec", 0, "FALSE", "TRUE", "EmitSpec"), lambda h: h["s"])
    cases = kf_cases(suite) + [{"spec": c, "vers": rng.sample(uni, 12)} for c in clauses]
    for _ in range(q(500, 10000)):
        cases.append({"spec": ",".join(rng.sample(clauses, 2)), "vers": rng.sample(uni, 12)})
    return cases + ctx.gen(vdrv, suite, n)


@plan("C11")
def specifiers(ctx):
    vdrv = ctx.build()
    ctx.design("PepDesign", PEP_CFG % ("spec", 0, q("FALSE", "TRUE"), "FALSE", "Laws"), what="every clause over a universe against every version: laws relating the operators, printing and reading")
    ctx.conform(vdrv, "spec", "TPep", spec_cases(ctx, vdrv, "spec", q(9000, 200000)), what="ParseSpecifier, String, Match against Pep440.tla")
    return ctx.finish("model_checking",
        "every operator applied to every version of the universe, random specifiers of 1-4 clauses with mutations, each against 7-12 versions; non-trivial: distinct (specifier, versions)",
        ["ASCII strings", "'<V' compares by order only: the repository's own tests require 1.7a1 to match '<1.7'"])


@plan("C13")
def requires_python(ctx):
    vdrv = ctx.build()
    ctx.design("PepDesign", PEP_CFG % ("spec", 0, q("FALSE", "TRUE"), "FALSE", "Laws345"), what="every PEP 345 comparison over the universe: laws relating the operators")
    cases = spec_cases(ctx, vdrv, "req", q(9000, 200000))
    ctx.conform(vdrv, "req", "TPep", cases, what="ParseVersionSpecifier, Match, HaveRequiredPython against Pep440.tla")
    return ctx.finish("model_checking",
        "every operator applied to every version of the universe, random requirements of 1-4 comparisons with mutations, each against 7-12 versions; non-trivial: distinct (requirement, versions)",
        ["ASCII strings"])


# ---------------------------------------------------------------- tags, file names, modes
TAGS_CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "%s"
 MaxLen = %d
 EmitCases = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


@plan("C20")
def tags(ctx):
    vdrv = ctx.build()
    ctx.design("TagsDesign", TAGS_CFG % ("tags", q(2, 3), "FALSE", "Agree"), what="every installer list of %d entries and every tag: acceptance, preference and expansion agree" % q(2, 3))
    cases = [{"inst": h["inst"], "tags": [h["tag"]]} for h in
             ctx.tlc_cases("TagsDesign", TAGS_CFG % ("tags", 2, "TRUE", "Emit"), lambda h: h)]
    cases += ctx.gen(vdrv, "tags", q(3000, 60000))
    ctx.conform(vdrv, "tags", "TTags", cases, what="ParseTag, String, Decompress, Intersect, Supports, Preference")
    return ctx.finish("model_checking",
        "every installer list of up to 2 entries over 18 compressed tags with every tag, and random lists of up to 6 with 4 tags; non-trivial: distinct (list, tags)", ["ASCII tags"])


@plan("C21")
def names(ctx):
    vdrv = ctx.build()
    ctx.design("TagsDesign", TAGS_CFG % ("name", q(5, 6), "FALSE", "OneReading"), what="every file name of up to %d components over 9 pieces: one reading, stable generated name" % q(5, 6))
    rng = random.Random(SEED)
    strs = ctx.tlc_cases("TagsDesign", TAGS_CFG % ("name", 5, "TRUE", "Emit"), lambda h: h["s"])
    rng.shuffle(strs)
    cases = [{"names": g} for g in group(strs, 5)]
    if not THOROUGH:
        cases = cases[:5000]
    cases += ctx.gen(vdrv, "names", q(4000, 80000))
    ctx.conform(vdrv, "names", "TTags", cases, what="ParseFilename, GenerateFilename, BuildTag.Cmp")
    return ctx.finish("model_checking",
        "file names of up to 5 components over 9 pieces (a seeded sample of 25000 of 66430 in the quick tier), and random names with mutations; non-trivial: distinct group of names",
        ["ASCII names; a version or build number of more than 18 digits may be rejected"])


@plan("C24")
def modes(ctx):
    vdrv = ctx.build()
    ctx.design("ModesDesign", "SPECIFICATION Spec\nINVARIANTS Lossless Determines\nCHECK_DEADLOCK FALSE\n", what="all 65536 mode values")
    ctx.conform(vdrv, "modes", "TModes", ctx.gen(vdrv, "modes", q(256, 512)), what="StatMode.ToGo/ModeFromGo/String/IsDir/IsRegular for all 65536 values, ZIPExternalAttributes, file attribute bits")
    return ctx.finish("exhaustive", "all 65536 mode values in 256 blocks; every single external attribute bit and random 32-bit values; non-trivial: distinct block", [])


# ---------------------------------------------------------------- layers from files
DIR_CFG = """SPECIFICATION Spec
CONSTANTS
 MaxNodes = %d
 Prefix <- UsrPrefix
 EmitCases = %s
INVARIANT %s
CHECK_DEADLOCK FALSE
"""
OUT_CFG = """SPECIFICATION Spec
CONSTANTS
 MaxOps = %d
 Contents = {"A", "B"}
 EmitCases = %s
%s
CHECK_DEADLOCK FALSE
"""


def dir_cases(ctx, vdrv, n):
    return ctx.tlc_cases("DirDesign", DIR_CFG % (3, "TRUE", "Emit"), lambda h: h) + ctx.gen(vdrv, "dir", n)


@plan("C15")
def reproducible(ctx):
    vdrv = ctx.build()
    ctx.design("DirDesign", DIR_CFG % (q(4, 5), "FALSE", "Mirror"), what="every tree of %d nodes: the walk gives the one sequence of entries the specification orders" % q(4, 5))
    ctx.conform(vdrv, "refs", "TFiles", kf_cases("refs") + ctx.gen(vdrv, "refs", q(4000, 60000)), what="LayerFromFileReferences in 4 orders, with files that cannot be read")
    ctx.conform(vdrv, "now", "TFiles", ctx.gen(vdrv, "now", q(60, 600)), what="reproducible.Now under values of SOURCE_DATE_EPOCH")
    ctx.conform(vdrv, "dir", "TFiles", dir_cases(ctx, vdrv, q(1500, 20000)), what="layers of the same directory made twice in different orders")
    for suite in ("wheel", "wheelnames", "wheelep"):
        wheel_conform(ctx, vdrv, suite, ctx.gen(vdrv, suite, q(500, 10000)), "layers of the same wheel made several times")
    wheel_conform(ctx, vdrv, "wheelcli", ctx.gen(vdrv, "wheelcli", q(100, 2000)), "layers of the same wheel made by the command several times, at another time and with another umask")
    return ctx.finish("model_checking", "random file sets of up to 14 files with names around the '/' ordering pitfalls, 4 orders each; every tree of 3 nodes and random trees built twice; non-trivial: distinct file set",
        ["ASCII names", "the files of a set have distinct names", "layers keep whole seconds"])


@plan("C16")
def dir_layer(ctx):
    vdrv = ctx.build()
    ctx.design("DirDesign", DIR_CFG % (q(4, 5), "FALSE", "Mirror"), what="every tree of %d nodes with hard links: the layer unpacks to the tree" % q(4, 5))
    ctx.conform(vdrv, "dir", "TFiles", kf_cases("dir") + dir_cases(ctx, vdrv, q(3000, 40000)), what="LayerFromDir and 'ocibuild layer dir'")
    return ctx.finish("model_checking", "every tree of 3 nodes over 9 paths with every type and hard link, and random trees of up to 12 nodes with prefixes, owners, clamp times, through the API and the command; non-trivial: distinct case",
        ["ASCII names", "the directory does not change during the walk", "layers keep whole seconds", "no sockets or devices"])


@plan("C17")
def output(ctx):
    vdrv = ctx.build()
    ctx.design("OutDesign", OUT_CFG % (q(3, 4), "FALSE", "INVARIANT Allowed\nPROPERTIES Untouched Ends"), what="every history of %d builds, failures, crashes and outside changes" % q(3, 4))
    ctx.conform(vdrv, "diff", "TFiles", kf_cases("diff") + ctx.gen(vdrv, "diff", q(6000, 100000)), what="LayersEqualExceptTimestamps on pairs of layers, some of them damaged or unreadable")
    rng = random.Random(SEED)
    hists = ctx.tlc_cases("OutDesign", OUT_CFG % (3, "TRUE", "INVARIANT Emit"), lambda h: h)
    rng.shuffle(hists)
    cases = []
    for h in hists[:q(400, 4000)]:
        steps = [dict(s) for s in h]
        for s in steps:
            if s["k"] == "kill":
                s["call"] = rng.choice(["write", "renameat,rename", "openat", "close"])
                s["when"] = 1 if s["call"].startswith("rename") else rng.randrange(1, 13)
        cases.append({"steps": steps, "seed": rng.randrange(1 << 30)})
    cases += ctx.gen(vdrv, "gobuild", q(250, 4000))
    ctx.conform(vdrv, "gobuild", "TFiles", cases, what="'ocibuild layer gobuild -o' with a stand-in compiler, full disks, failing and killing system calls", timeout="60s")
    return ctx.finish("model_checking", "random pairs of layers differing in times, one attribute, one byte, order or length; a seeded sample of the 3-step histories of the output model and random longer ones with injected faults; non-trivial: distinct case",
        ["fault injection by strace and a file size limit", "the stand-in for the Go compiler writes what a compiler would"])


# ---------------------------------------------------------------- images
IMG_CFG = "SPECIFICATION Spec\nCONSTANTS\n MaxBuilds = %d\n EmitCases = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
PIPE_CFG = "SPECIFICATION Spec\nCONSTANTS\n Total = %d\n Handles = {1, 2}\n MaxOps = %d\n EmitCases = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
DOCKER_CFG = "SPECIFICATION Spec\nCONSTANT EmitCases = %s\nINVARIANTS %s\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
INS_CFG = "SPECIFICATION Spec\nCONSTANTS\n MaxFiles = %d\n EmitCases = %s\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n"


@plan("C18")
def image(ctx):
    vdrv = ctx.build()
    ctx.design("ImageDesign", IMG_CFG % (q(2, 3), "FALSE", "Composes Idem"), what="every sequence of %d builds with every combination of flags" % q(2, 3))
    rng = random.Random(SEED)
    def wrap(h):
        return {"steps": [dict(s, long=rng.random() < .5, base=rng.choice(["file", "pipe"]), form=[rng.choice(["tar", "gz", "pipe"]) for _ in s["adds"]]) for s in h],
                "base": rng.choice([[], ["z"], ["x", "y"]]), "gz": rng.random() < .5, "cfg": {"config": {"Env": ["P=q"], "Entrypoint": ["/b"], "Cmd": ["d"], "User": "u"}, "os": "linux", "architecture": "arm"}, "order": rng.randrange(1 << 20)}
    chains = ctx.tlc_cases("ImageDesign", IMG_CFG % (2, "TRUE", "Emit"), wrap)
    rng.shuffle(chains)
    cases = ctx.tlc_cases("ImageDesign", IMG_CFG % (1, "TRUE", "Emit"), wrap) + chains[:q(300, 5000)]
    cases += ctx.gen(vdrv, "image", q(1000, 20000))
    ctx.conform(vdrv, "image", "TImage", cases, what="'ocibuild image build', chained, with damaged inputs; the tarball is read independently", timeout="60s")
    return ctx.finish("model_checking", "every single build of the design model, a seeded sample of its chains of two, random chains of up to three with rich base configurations, compressed, plain and piped inputs and ten kinds of damage; non-trivial: distinct chain",
        ["configuration fields that the image specification does not define are not judged", "a plain layer file is taken as it is, whatever its bytes"])


@plan("C26")
def pipes(ctx):
    vdrv = ctx.build()
    ctx.design("PipeDesign", PIPE_CFG % (q(4, 5), q(5, 6), "FALSE", "WholeFirst Independent"), what="every chunking and every interleaving of %d operations on two readers" % q(5, 6))
    rng = random.Random(SEED)
    def wrap(h):
        return {"len": 4, "form": rng.choice(["file", "gzfile", "pipe", "gzpipe", "pipe"]), "chunks": h["chunks"], "ops": h["ops"]}
    cases = ctx.tlc_cases("PipeDesign", PIPE_CFG % (4, q(3, 4), "TRUE", "Emit"), wrap)
    rng.shuffle(cases)
    cases = cases[:q(2500, 20000)] + ctx.gen(vdrv, "pipe", q(2500, 40000))
    ctx.conform(vdrv, "pipe", "TImage", cases, what="OpenLayer and OpenImage on pipes and files, compressed and plain, read by several handles")
    return ctx.finish("model_checking", "behaviours of the pipe model (a seeded sample), random artifacts of up to 200000 bytes with chunkings and up to 14 operations on 4 handles, truncated compressed artifacts, whole images; non-trivial: distinct case", [])


@plan("C19")
def docker(ctx):
    vdrv = ctx.build()
    ctx.design("DockerDesign", DOCKER_CFG % ("FALSE", "Gone OnceWhileLoaded Reported"), what="every combination of faults, to completion")
    ctx.design("EngineDesign", "SPECIFICATION Spec\nCONSTANTS\n N = %d\n Unique = TRUE\nINVARIANTS OwnImage NothingLeft\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % q(3, 4), what="every interleaving of %d sessions on one engine" % q(3, 4))
    rng = random.Random(SEED)
    faults = ctx.tlc_cases("DockerDesign", DOCKER_CFG % ("TRUE", "Emit"), lambda h: h)
    cases = []
    for _ in range(q(3, 20)):
        cases += [{"fault": f, "big": rng.random() < .3, "seed": rng.randrange(1 << 20)} for f in faults]
    some = ["ok", "fail", "panic"]
    for acts in [[a, b] for a in some for b in some] + [[a, b, c] for a in some for b in some for c in some] + [["ok"] * q(6, 12)]:
        cases.append({"fault": {"engine": "ok", "cancel": "never", "load": "ok", "act": "ok", "rm": "ok", "img": "ok"}, "seed": rng.randrange(1 << 20), "acts": acts})
    ctx.conform(vdrv, "docker", "TImage", cases, what="WithImage with a stand-in engine: every combination of faults of the model, several times", timeout="60s")
    return ctx.finish("model_checking", "all 288 combinations of a missing engine, cancellation, failing load, unreadable image, failing or panicking action and failing removal, with small and big images; two, three or more images loaded at the same time; non-trivial: distinct (faults, image)",
        ["the engine is a stand-in that records its calls", "when the load fails, a removal may be attempted at most once"])


@plan("C22")
def inspect(ctx):
    vdrv = ctx.build()
    ctx.design("InspectDesign", INS_CFG % (q(2, 3), "FALSE", "Sound"), what="every image of %d files over 7 places, every PATH and name" % q(2, 3))
    rng = random.Random(SEED)
    def wrap(h):
        ents = []
        for e in h["files"]:
            ents.append({"name": "/".join(e["c"]), "type": e["t"], "link": ("/" if e["lab"] else "") + "/".join(e["to"]), "mode": int(e["m"], 8)})
        return {"layers": [ents], "env": h["env"], "wd": "/w", "looks": [h["want"]], "stats": ["/b", "/c/python3", "b", "/b/pythonw3"]}
    cases = ctx.tlc_cases("InspectDesign", INS_CFG % (2, "TRUE", "Emit"), wrap)
    rng.shuffle(cases)
    cases = cases[:q(6000, 40000)] + ctx.gen(vdrv, "inspect", q(8000, 100000))
    ctx.conform(vdrv, "inspect", "TImage", cases, what="ImageFS.LookPath, ImageFS.Stat and Shebangs on images")
    return ctx.finish("model_checking", "a seeded sample of the images of the design model and random images of up to 3 layers with 6 lookups and 5 stats each; non-trivial: distinct case",
        ["targets with '..' after a name are resolved lexically by the layer file system and are not judged here", "when PATH is set more than once the first setting is used, as the code documents"])


# ---------------------------------------------------------------- wheels
TAMPER_CFG = "SPECIFICATION Spec\nCONSTANTS\n MaxOps = %d\n EmitCases = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
PLACE_CFG = "SPECIFICATION Spec\nCONSTANTS\n MaxParts = %d\n MaxMembers = %d\n EmitCases = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
CONFIG_CFG = "SPECIFICATION Spec\nCONSTANTS\n MaxLines = %d\n Alphabet = \"%s\"\n Strict = %s\n Empties = %s\n EmitCases = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"

WHEEL_PLATS = [
    dict(pure="/l", plat="/l", head="/h", scr="/b", data="/"),
    dict(pure="/s/l", plat="/s/m", head="/s/h", scr="/s/l/p", data="/s"),
    dict(pure="/s", plat="/s", head="/s", scr="/s", data="/s"),
]


def wheel_case(rng, members, muts, plat, hooks, pure=True):
    pl = dict(WHEEL_PLATS[plat], con="/usr/bin/python3", gui="/usr/bin/pythonw3", uid=0, gid=7, un="root", gn="g")
    return {"name": "foo-1.0", "m": members, "wheel": "Wheel-Version: 1.0\nRoot-Is-Purelib: %s\n" % ("true" if pure else "false"), "algo": rng.choice(["sha256", "sha256", "sha512"]),
            "pos": rng.randrange(6), "muts": muts, "flips": [], "cut": 0, "plat": pl, "min": rng.choice([0, 0, 1500000000]), "max": rng.choice([0, 1600000000]), "hooks": hooks, "cli": False, "rets": rng.randrange(99)}


def wheel_hooks(rng, names=None):
    hs = []
    if names is None:
        names = ["scripts", "req", "record"]
    if "scripts" in names:
        hs.append({"k": "scripts", "s": ""})
    if "req" in names:
        hs.append({"k": "req", "s": rng.choice(["", "by hand"])})
    if "record" in names:
        hs.append({"k": "record", "s": "pip", "hash": rng.choice(["sha256", "sha384", "md5"])})
    return hs


def tamper_cases(ctx, n):
    rng = random.Random(SEED)
    def wrap(h):
        ms = [{"n": "p/a.py", "d": "AA = 1\n", "t": 1500000000, "c": 3, "u": 33188}, {"n": "p/b", "d": "B", "t": 1700000000, "c": 3, "u": 33261, "z": True}]
        return wheel_case(rng, ms, h, rng.randrange(3), wheel_hooks(rng))
    cases = ctx.tlc_cases("TamperDesign", TAMPER_CFG % (2, "TRUE", "Emit"), wrap)
    one, two = [c for c in cases if len(c["muts"]) == 1], [c for c in cases if len(c["muts"]) > 1]
    rng.shuffle(two)
    return one + two[:n]


def place_cases(ctx, n):
    rng = random.Random(SEED)
    def wrap(h):
        ms = [{"n": "/".join(c), "d": "" if c[-1] == "" else rng.choice(["x", "#!python -x\ny", "#!/bin/sh\n", "#!pythonw\n", ""]), "t": rng.choice([1400000000, 1700000001]), "c": 3,
               "u": 16877 if c[-1] == "" else rng.choice([33188, 33261]), "a": 16 if c[-1] == "" else 0, "z": rng.random() < .5} for c in h["names"]]
        if "scripts" in h["hooks"]:
            ms.append({"n": "foo-1.0.dist-info/entry_points.txt", "d": "[console_scripts]\nrun = m:f\n", "t": 1500000000, "c": 3, "u": 33188})
        return wheel_case(rng, ms, [], h["plat"] - 1, wheel_hooks(rng, h["hooks"]), pure=rng.random() < .7)
    one = ctx.tlc_cases("PlaceDesign", PLACE_CFG % (3, 1, "TRUE", "Emit"), wrap)
    rng.shuffle(one)
    # pairs of names: joined from single ones
    out = one[:n]
    for _ in range(n // 2):
        a, b = rng.choice(one), rng.choice(one)
        out.append(dict(a, m=a["m"][:1] + b["m"][:1] + a["m"][1:]))
    return out


WHEEL_ASSUME = ["member names without newlines", "directory members have no content", "Root-Is-Purelib is true, false or absent",
                "the compiler is a stand-in in the library runs and the real python3 in the runs of the command"]


def wheel_conform(ctx, vdrv, suite, cases, what):
    ctx.conform(vdrv, suite, "TWheel", cases, what=what, timeout="60s")


@plan("C05")
def wheel_integrity(ctx):
    vdrv = ctx.build()
    ctx.design("TamperDesign", TAMPER_CFG % (q(2, 3), "FALSE", "Genuine Vouched Noticed Harmless Single"), what="every sequence of %d changes of members and RECORD" % q(2, 3))
    wheel_conform(ctx, vdrv, "wheelbad", kf_cases("wheelbad") + tamper_cases(ctx, q(2000, 20000)), "InstallWheel on the tampered wheels of the model")
    wheel_conform(ctx, vdrv, "wheelbad", ctx.gen(vdrv, "wheelbad", q(3000, 60000)), "InstallWheel on damaged wheels: members, RECORD, WHEEL, bits, truncation")
    wheel_conform(ctx, vdrv, "wheel", ctx.gen(vdrv, "wheel", q(500, 10000)), "InstallWheel on genuine wheels")
    wheel_conform(ctx, vdrv, "wheelcli", ctx.gen(vdrv, "wheelcli", q(200, 4000)), "'ocibuild layer wheel' as an unprivileged user")
    return ctx.finish("model_checking", "every single change and a seeded sample of the pairs of changes of the tampering model, random wheels with 1-3 changes out of 28 kinds, flipped bits and truncation, genuine wheels; non-trivial: distinct case",
        WHEEL_ASSUME + ["a row of RECORD that names a directory is not judged"])


@plan("C06")
def wheel_placement(ctx):
    vdrv = ctx.build()
    ctx.design("PlaceDesign", PLACE_CFG % (3, 1, "FALSE", "Sound NoEscape"), what="every name of 3 parts on three platforms with every combination of hooks")
    if THOROUGH:
        ctx.design("PlaceDesign", PLACE_CFG % (2, 2, "FALSE", "Sound NoEscape"), what="every pair of names of 2 parts")
    wheel_conform(ctx, vdrv, "wheel", kf_cases("wheel") + ctx.gen(vdrv, "wheel", q(2500, 60000)), "InstallWheel on genuine wheels")
    wheel_conform(ctx, vdrv, "wheelnames", place_cases(ctx, q(1200, 20000)) + ctx.gen(vdrv, "wheelnames", q(1500, 30000)), "InstallWheel on wheels with unusual names: of the model and random")
    wheel_conform(ctx, vdrv, "wheelcli", ctx.gen(vdrv, "wheelcli", q(200, 4000)), "'ocibuild layer wheel' as an unprivileged user")
    return ctx.finish("model_checking", "a seeded sample of the archives of the placement model and of pairs of them, random wheels of up to 10 members with modes, times, shebangs, data keys, on 7 platforms; non-trivial: distinct case", WHEEL_ASSUME)


@plan("C07")
def wheel_containment(ctx):
    vdrv = ctx.build()
    ctx.design("PlaceDesign", PLACE_CFG % (3, 1, "FALSE", "Sound NoEscape"), what="every name of 3 parts on three platforms with every combination of hooks")
    if THOROUGH:
        ctx.design("PlaceDesign", PLACE_CFG % (4, 1, "FALSE", "NoEscape"), what="every name of 4 parts")
    wheel_conform(ctx, vdrv, "wheelnames", kf_cases("wheelnames") + place_cases(ctx, q(1800, 30000)) + ctx.gen(vdrv, "wheelnames", q(2500, 60000)), "InstallWheel on wheels with hostile names: of the model and random")
    wheel_conform(ctx, vdrv, "wheelep", ctx.gen(vdrv, "wheelep", q(600, 10000)), "entry points with hostile names")
    wheel_conform(ctx, vdrv, "wheelcli", ctx.gen(vdrv, "wheelcli", q(300, 4000)), "'ocibuild layer wheel' as an unprivileged user in a scratch directory")
    return ctx.finish("model_checking", "a seeded sample of the archives of the placement model and of pairs of them, random wheels with 1-3 of 50 hostile names and hostile entry points; non-trivial: distinct case", WHEEL_ASSUME)


@plan("C08")
def wheel_record(ctx):
    vdrv = ctx.build()
    ctx.design("PlaceDesign", PLACE_CFG % (3, 1, "FALSE", "Sound"), what="every name of 3 parts on three platforms with every combination of hooks: RECORD leads back to every file")
    if THOROUGH:
        ctx.design("PlaceDesign", PLACE_CFG % (2, 2, "FALSE", "Sound"), what="every pair of names of 2 parts")
    wheel_conform(ctx, vdrv, "wheel", kf_cases("wheel8") + ctx.gen(vdrv, "wheel", q(2000, 50000), seed=SEED + 1000), "InstallWheel on genuine wheels")
    wheel_conform(ctx, vdrv, "wheelnames", place_cases(ctx, q(1200, 20000)) + ctx.gen(vdrv, "wheelnames", q(1000, 20000)), "InstallWheel on wheels with unusual names")
    wheel_conform(ctx, vdrv, "wheelep", ctx.gen(vdrv, "wheelep", q(500, 10000)), "wheels with generated scripts")
    wheel_conform(ctx, vdrv, "wheelcli", ctx.gen(vdrv, "wheelcli", q(200, 4000)), "'ocibuild layer wheel' as an unprivileged user")
    return ctx.finish("model_checking", "a seeded sample of the archives of the placement model, random wheels on 7 platforms with hook combinations, digests and direct_url records; non-trivial: distinct case",
        WHEEL_ASSUME + ["the digest listed for a script whose first line was rewritten is not judged"])


@plan("C09")
def entry_points(ctx):
    vdrv = ctx.build()
    rng = random.Random(SEED)
    inis = []
    for strict in ("TRUE", "FALSE"):
        for empties in ("TRUE", "FALSE"):
            ctx.design("ConfigDesign", CONFIG_CFG % (q(3, 5), "small", strict, empties, "FALSE", "Accounted Unique NamesClean SameAsRead"), what="every file of %d lines over 10 kinds" % q(3, 5))
    for strict in ("TRUE", "FALSE"):
        inis += ctx.tlc_cases("ConfigDesign", CONFIG_CFG % (3, "large", strict, rng.choice(["TRUE", "FALSE"]), "TRUE", "Emit"), lambda h: h)
    rng.shuffle(inis)
    ctx.conform(vdrv, "ini", "TWheel", kf_cases("ini") + inis[:q(4000, 30000)] + ctx.gen(vdrv, "ini", q(3000, 60000)), what="ConfigParser on the files of the model and on random ones")
    wheel_conform(ctx, vdrv, "wheelep", kf_cases("wheelep") + ctx.gen(vdrv, "wheelep", q(2000, 40000)), "generated scripts, run with stand-in modules")
    wheel_conform(ctx, vdrv, "wheelcli", ctx.gen(vdrv, "wheelcli", q(150, 4000)), "'ocibuild layer wheel' as an unprivileged user")
    return ctx.finish("model_checking", "files of up to 3 lines over 23 kinds (a seeded sample) and random ones, wheels with random and mutated declarations whose scripts are run; non-trivial: distinct case",
        WHEEL_ASSUME + ["ASCII declarations", "lines '[a] junk' and '[]', the DEFAULT section, spaces around ':' and identifiers that begin with a digit are not judged", "of a console and a graphical script of one name either may win"])


# ---------------------------------------------------------------- package indexes
INDEX_CFG = "SPECIFICATION Spec\nCONSTANTS\n MaxFiles = %d\n EmitCases = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
FETCH_CFG = "SPECIFICATION Spec\nCONSTANTS\n MaxChunks = %d\n EmitCases = %s\nCONSTRAINT Canon\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"


@plan("C12")
def select(ctx):
    vdrv = ctx.build()
    rng = random.Random(SEED)
    ctx.design("IndexDesign", INDEX_CFG % (q(2, 3), "FALSE", "OrderFree Sound Monotone"), what="every index of %d files" % q(2, 3))
    def wrap(h):
        return {"files": h["files"], "py": ["3.9"], "inst": ["cp39-cp39-linux", "py3-none-any"], "spec": h["want"], "seed": rng.randrange(1 << 30)}
    cases = ctx.tlc_cases("IndexDesign", INDEX_CFG % (2, "TRUE", "Emit"), wrap)
    rng.shuffle(cases)
    ctx.conform(vdrv, "select", "TNet", kf_cases("select") + cases[:q(5000, 15771)] + ctx.gen(vdrv, "select", q(5000, 80000)), what="SelectWheel against a local index, each in four orders")
    ctx.conform(vdrv, "pick", "TNet", ctx.gen(vdrv, "pick", q(5000, 80000)), what="Specifier.Select with exclusions")
    return ctx.finish("model_checking", "indexes of up to 2 files of the model (a seeded sample) and random indexes of up to 8 files, each listed in four orders; choices among up to 7 versions; non-trivial: distinct case",
        ["of files that tie in version, yank, tag and build number any may be selected"])


def fetch_cases(ctx):
    import hashlib
    rng = random.Random(SEED)
    algos = {"sha256": hashlib.sha256, "md5": hashlib.md5, "sha512": hashlib.sha512}
    urls = {"a": "http://h0/x/a", "b": "http://h0/b", "c": "http://h0/y/z/c"}
    spell = {"a": "http://h0/x/./q/../a", "b": "//h0/b", "c": "/y/z/c"}
    def real(body):
        return body.replace("A", "right half\n").replace("B", "wrong half\n")
    def frag(f):
        for a, h in algos.items():
            for b in ("AA", "BB"):
                f = f.replace(a + "=" + b, a + "=" + h(real(b).encode()).hexdigest())
        return f
    def wrap(h):
        page = {"u": "http://h0/simple/proj/", "st": 200, "loc": "", "fault": "", "body": "", "meta": [], "page": True, "style": rng.randrange(1 << 20),
                "as": [{"href": [urls["a"] + frag(h["frag"])], "text": "proj-1.0-py3-none-any.whl", "at": []}]}
        routes = [page]
        for n, p in h["srv"].items():
            short = p["sent"] < len(p["body"])
            routes.append({"u": urls[n], "st": p["st"], "loc": spell[p["to"]] if p["st"] == 302 else "", "page": False, "style": 0, "meta": [], "as": [],
                           "fault": rng.choice(["cut", "chunkcut"]) if short else rng.choice(["", "chunks", "gzip"]), "body": real(p["body"][:p["sent"]] if short else p["body"])})
        return {"routes": routes, "base": "http://h0/simple/", "name": "proj", "py": [], "file": "proj-1.0-py3-none-any.whl"}
    return ctx.tlc_cases("FetchDesign", FETCH_CFG % (2, "TRUE", "Emit"), wrap)


@plan("C14")
def downloads(ctx):
    vdrv = ctx.build()
    rng = random.Random(SEED)
    ctx.design("FetchDesign", FETCH_CFG % (2, "FALSE", "Delivered Agrees") + "PROPERTY Ends\n", what="a client against every configuration of three places that redirect, fail, lie or stop")
    cases = fetch_cases(ctx)
    rng.shuffle(cases)
    ctx.conform(vdrv, "net", "TNet", kf_cases("net") + cases[:q(1500, 5000)] + ctx.gen(vdrv, "net", q(5000, 80000)), what="clients against local servers")
    ctx.conform(vdrv, "getwheel", "TNet", cases[:q(200, 2000)] + ctx.gen(vdrv, "getwheel", q(500, 10000)), what="'ocibuild python getwheel'")
    return ctx.finish("model_checking", "server configurations of the model (a seeded sample) and random ones: pages in many spellings, redirects, statuses, truncation at every layer, digests of six algorithms; non-trivial: distinct case",
        ["http on the loopback interface", "other statuses of the 2xx class than 200, digests in upper case and API versions that do not parse are not judged"])


# ---------------------------------------------------------------- the commands
CLI_CFG = "SPECIFICATION Spec\nCONSTANTS\n MaxBad = %d\n EmitCases = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
PLAT_CFG = "SPECIFICATION Spec\nCONSTANTS\n MaxDirs = %d\n EmitCases = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"


@plan("C25")
def commands(ctx):
    vdrv = ctx.build()
    ctx.design("CliDesign", CLI_CFG % (q(1, 2), "FALSE", "EndsRight Honest") + "PROPERTY Ends\n", what="every command, misuse, combination of up to %d bad inputs and bad output" % q(1, 2))
    rng = random.Random(SEED)
    def wrap(h):
        h = dict(h)
        h.pop("inj", None)
        h["seed"] = rng.randrange(1 << 30)
        return h
    one = ctx.tlc_cases("CliDesign", CLI_CFG % (1, "TRUE", "Emit"), wrap)
    two = ctx.tlc_cases("CliDesign", CLI_CFG % (2, "TRUE", "Emit"), wrap)
    rng.shuffle(two)
    faulty = [dict(c, seed=rng.randrange(1 << 30)) for c in one if c["out"] == "faulty" or "eio" in c["ins"] for _ in range(q(3, 30))]
    cases = kf_cases("cli") + one + faulty + two[:q(600, 20000)]
    ctx.conform(vdrv, "cli", "TCmd", cases, what="the real command: every misuse, every single bad input, injected read and write errors", timeout="60s")
    return ctx.finish("model_checking", "every misuse and every single bad input of the model, three injected faults for each place one can happen, a seeded sample of the pairs of bad inputs; non-trivial: distinct case",
        ["the go command, interpreters, the container engine and the index server are stand-ins", "an injected fault is an error of a system call on one file", "a malformed name of an image or wheel may be reported as a usage or as a run-time error"])


@plan("C23")
def platform(ctx):
    vdrv, racy = ctx.build(race=True)
    ctx.design("PlatDesign", PLAT_CFG % (q(2, 3), "FALSE", "Agrees SameMagic") + "PROPERTY Ends\n", what="every combination of interpreters of host and image and of directories")
    ctx.design("AskDesign", "SPECIFICATION Spec\nCONSTANTS\n MaxWords = %d\n Users = %d\n Private = TRUE\nINVARIANTS Own Kept\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % (q(5, 6), q(2, 3)), what="every interleaving of users whose command lines are the first words of one array")
    ctx.conform(racy, "ask", "TCmd", kf_cases("ask") + ctx.gen(vdrv, "ask", q(600, 10000)), what="several descriptions by command lines of one array, one after the other and at once", timeout="30s")
    rng = random.Random(SEED)
    base = ctx.gen(vdrv, "plat", q(1500, 20000))
    def wrap(h):
        b = rng.choice(base)
        reps = [dict(b["reps"][0], magic="610d0d0a", ver=["3", "9", "1", "final", "0"]), dict(b["reps"][0], magic="6f0d0d0a", ver=["3", "10", "0", "alpha", "2"])]
        return dict(h, reps=reps, owners=b["owners"], dup=b["dup"], seed=b["seed"])
    cases = ctx.tlc_cases("PlatDesign", PLAT_CFG % (2, "TRUE", "Emit"), wrap)
    rng.shuffle(cases)
    ctx.conform(vdrv, "plat", "TCmd", kf_cases("plat") + cases[:q(1500, 10000)] + base, what="'ocibuild python inspect', and 'ocibuild layer wheel' with what it printed", timeout="60s")
    return ctx.finish("model_checking", "a seeded sample of the configurations of the model and random ones with odd paths, owners and versions; non-trivial: distinct case",
        ["interpreters and the container engine are stand-ins", "host owners have names"])


# ---------------------------------------------------------------- compilers
PYC_CFG = "SPECIFICATION Spec\nCONSTANTS\n MaxTime = %d\n MaxOps = %d\n ClampFirst = TRUE\nINVARIANTS Faithful Fresh\nCHECK_DEADLOCK FALSE\n"
GO_CFG = "SPECIFICATION Spec\nCONSTANTS\n Builds = %s\n Bins = %s\n Own = TRUE\nINVARIANTS Exact NothingLeft\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"


@plan("C27")
def compiled(ctx):
    vdrv, racy = ctx.build(race=True)
    ctx.design("PycDesign", PYC_CFG % (q(3, 5), q(4, 6)), what="every source, clamp time, way of telling whether a compiled file is current, and %d replacements and runs" % q(4, 6))
    ctx.conform(racy, "pyc", "TPyc", kf_cases("pyc") + ctx.gen(vdrv, "pyc", q(400, 8000)), what="ExternalCompiler on sets of sources, alone and concurrently, with failing, missing and cancelled interpreters", timeout="60s")
    wheel_conform(ctx, vdrv, "wheelpyc", ctx.gen(vdrv, "wheelpyc", q(200, 5000)), "InstallWheel with the real interpreter as compiler")
    wheel_conform(ctx, vdrv, "wheelcli", ctx.gen(vdrv, "wheelcli", q(100, 2000)), "'ocibuild layer wheel' with the real interpreter as compiler")
    return ctx.finish("model_checking", "random sets of sources with times on both sides of the clamp time, syntax errors, odd names and four ways of calling compileall, up to 4 at once with one compiler; random wheels with compiled sources; non-trivial: distinct case",
        ["the interpreter is the python3 of this machine", "sources inside __pycache__ are left to the interpreter, which does not compile them"])


@plan("C28")
def golayers(ctx):
    vdrv = ctx.build()
    ctx.design("GoDesign", GO_CFG % q(("{1, 2}", '{"x", "y"}'), ("{1, 2}", '{"x", "y", "z"}')), what="every interleaving of two builds with failures at every point")
    ctx.conform(vdrv, "golayer", "TFiles", kf_cases("golayer") + ctx.gen(vdrv, "golayer", q(700, 10000)), what="LayerFromGo and 'ocibuild layer gobuild' with a recording stand-in and with the real compiler", timeout="300s")
    return ctx.finish("model_checking", "random sets of binaries and packages under random compiler environments, failures, cancellation, through the library and the command; a real program built in two directories; non-trivial: distinct case",
        ["the stand-in for the Go compiler writes what a compiler would"])


# ---------------------------------------------------------------- help
WRAP_CFG = """SPECIFICATION Spec
CONSTANTS
 NL = "n"
 SP = "s"
 TAB = "t"
 MinCols = 3
 BlockPad = 1
 Slop = 1
 MaxLen = %d
 MaxW = %d
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""


@plan("C29")
def helptext(ctx):
    vdrv = ctx.build()
    ctx.design("WrapDesign", WRAP_CFG % q((7, 6), (9, 8)), what="every text of %d characters over a letter and white space, every width and indentation" % q(7, 9))
    ctx.conform(vdrv, "wrap", "TWrap", kf_cases("wrap") + ctx.gen(vdrv, "wrap", q(3000, 60000)), what="Wrap and WrapIndent on random texts")
    ctx.conform(vdrv, "help", "TWrap", ctx.gen(vdrv, "help", q(300, 3000)), what="the help of every command at many widths")
    return ctx.finish("model_checking", "random texts of up to 40 words with line breaks, indentation and long words at widths from 0 to 110; every command's help at random widths, asked for in three ways; non-trivial: distinct case",
        ["ASCII texts", "layout of the flags is the flag library's"])
