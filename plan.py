"""What each check runs."""
import os
import run as R
from run import SEED, THOROUGH

ASSUMPTIONS = {
    "all": [
        "TLC and the TLA+ modules it runs evaluate correctly (the specification is the oracle)",
        "the harness logs what the code returned; every validation also contains corrupted traces, all of which were rejected",
    ],
}

# family -> trace specification
SPEC = {f: "TraceCodec" for f in "scalar nested layout big dict arr proto ereplay oreplay shared reencode foreign convert fuzz macro".split()}
SPEC.update({f: "TraceScopes" for f in "scopes sreplay".split()})
SPEC.update({f: "TraceLives" for f in "lives lreplay".split()})
SPEC.update({f: "TraceMutable" for f in "mutable mreplay".split()})
SPEC["conc"] = "TraceConc"
SPEC.update({f: "TraceShared" for f in "skeys skstate skreplay".split()})
SPEC.update({f: "TraceSerde" for f in "serde refused sdreplay tdreplay mismatch broken".split()})
SPEC.update({f: "TraceGiant" for f in "giant ramp".split()})
SPEC.update({f: "TraceTwice" for f in "again agains".split()})

FOREIGN = {"mutable", "reencode", "foreign", "fuzz", "mismatch", "broken"}

# property -> [(family, scale quick, scale thorough)]
def core(**own):
    """Every family of the codec; some of them larger (quick, thorough)."""
    base = dict(scalar=(1, 4), nested=(2, 8), layout=(1, 4), big=(1, 4), dict=(2, 6), arr=(1, 4), proto=(2, 8), shared=(2, 6))
    base.update(own)
    return [(f, q, t) for f, (q, t) in base.items()]


CALLS = [("ereplay", 1, 1), ("oreplay", 1, 1)]
FAMILIES = {
    "C01": core(scalar=(3, 12), nested=(5, 20)),
    "C02": core(layout=(3, 6), nested=(5, 20), reencode=(1, 4)),
    "C03": core(proto=(8, 40)) + CALLS + [("giant", 2, 12)],
    "C04": core(proto=(8, 40)) + CALLS + [("giant", 1, 6)],
    "C05": core(dict=(6, 24), shared=(4, 12), foreign=(1, 4)) + [("ramp", 1, 12)],
    "C06": core(arr=(3, 16), nested=(4, 16), foreign=(1, 4)) + [("ramp", 1, 12)],
    "C12": core(shared=(6, 30), dict=(3, 12), skeys=(1, 4)),
    "C07": [("fuzz", 3, 20)],
    "C08": [("foreign", 2, 4)],
    "C09": [("convert", 4, 24)],
    "C10": [("skeys", 2, 12), ("skreplay", 1, 1)],
    "C11": [("skstate", 3, 12), ("skeys", 2, 8)],
    "C13": [("scopes", 2, 12), ("sreplay", 1, 1)],
    "C14": [("lives", 3, 20), ("lreplay", 1, 1)],
    "C15": [("conc", 8, 60)],
    "C16": [("mutable", 3, 24), ("mreplay", 1, 1)],
    "C17": [("mutable", 3, 24), ("mreplay", 1, 1)],
    "C18": [("serde", 6, 40), ("sdreplay", 1, 1)],
    "C19": [("refused", 12, 80), ("sdreplay", 1, 1)],
    "C20": [("mismatch", 2, 16), ("broken", 2, 16), ("tdreplay", 1, 1)],
    "C21": [("reencode", 4, 16)],
    "C22": [("macro", 4, 20)],
    "C23": [("again", 4, 24), ("agains", 3, 16)],
    "C24": [("lives", 4, 24), ("lreplay", 1, 1)],
}


# property -> families which are also executed in a release build
RELEASE = {
    "C01": ["scalar", "big"], "C02": ["layout", "nested"], "C04": ["proto", "nested", "ereplay"], "C05": ["dict"], "C06": ["arr"],
    "C07": ["fuzz"], "C08": ["foreign"], "C09": ["convert"], "C10": ["skeys"], "C14": ["lives"], "C15": ["conc"],
    "C16": ["mutable"], "C17": ["mutable"], "C18": ["serde"], "C20": ["mismatch", "broken"], "C21": ["reencode"], "C22": ["macro"], "C23": ["again"], "C24": ["lives"],
}


def tasks_for(ctx, fams):
    tasks, gens = [], {}
    for fam, q, t in fams:
        scale = t if THOROUGH else q
        env = {"FV_COMPARE": "1"} if ctx.pid == "C24" else {}
        if fam in FOREIGN:
            if "foreign" not in gens:
                gens["foreign"] = R.generate(ctx, "foreign", "ForeignWriter", "ForeignSim", simulate=3000 if THOROUGH else 400, depth=100, workers=1)
            env["FV_FOREIGN"] = gens["foreign"]
        if fam == "ereplay":
            env["FV_CALLS"] = R.generate(ctx, "ecalls", "EncoderMC", "EncoderAll6" if THOROUGH else "EncoderAll", keep=60000 if THOROUGH else 10000)
        if fam == "oreplay":
            env["FV_CALLS"] = R.generate(ctx, "ocalls", "EncoderMC", "EncoderOne8" if THOROUGH else "EncoderOne", keep=80000 if THOROUGH else 10000)
        if fam == "skreplay":
            if "skcalls" not in gens:
                gens["skcalls"] = R.generate(ctx, "skcalls", "SharedKeysMC", "SharedKeysGen", keep=11016 if THOROUGH else 400)
            env["FV_CALLS"] = gens["skcalls"]
        if fam == "sreplay":
            env["FV_CALLS"] = R.generate(ctx, "scalls", "ScopesMC", "ScopesGen", keep=99246 if THOROUGH else 5000)
        if fam == "lreplay":
            env["FV_CALLS"] = R.generate(ctx, "lcalls", "LifetimesMC", "LifetimesGen", keep=28937 if THOROUGH else 3000)
        if fam == "mreplay":
            env["FV_CALLS"] = R.generate(ctx, "mcalls", "MutableMC", "MutableGen", keep=60000 if THOROUGH else 3000)
        if fam == "macro":
            env["FV_CALLS"] = R.generate(ctx, "literals", "MacroMC", "MacroGen12" if THOROUGH else "MacroGen10", keep=4000 if THOROUGH else 700)
        if fam == "sdreplay":
            env["FV_CALLS"] = R.generate(ctx, "sdvalues", "SerdeMC", "SerdeValues2" if THOROUGH else "SerdeValues")
        if fam == "tdreplay":
            env["FV_CALLS"] = R.generate(ctx, "sdtrees", "SerdeMC", "SerdeTrees2" if THOROUGH else "SerdeTrees", keep=120000 if THOROUGH else 8000)
        tasks.append(lambda fam=fam, scale=scale, env=env: R.conform(ctx, fam, SPEC[fam], scale, env=env))
        if fam in RELEASE.get(ctx.pid, ()):
            # arithmetic wraps and assertions are gone in a release build, and finish_value is another function
            tasks.append(lambda fam=fam, scale=scale, env=env: R.conform(ctx, fam, SPEC[fam], scale, env=env, seed=ctx.seed + 1000, release=True))
    return tasks


def run(ctx):
    tasks = tasks_for(ctx, FAMILIES[ctx.pid])
    for module, quick, thorough in MODELS.get(ctx.pid, []):
        cfg = thorough if THOROUGH else quick
        if cfg:
            tasks.append(lambda module=module, cfg=cfg: R.model_check(ctx, module, cfg))
    for module, cfg in WRONG.get(ctx.pid, []):
        tasks.append(lambda module=module, cfg=cfg: R.refute(ctx, module, cfg))
    for finding, what in KNOWN.get(ctx.pid, []):
        tasks.append(lambda finding=finding, what=what: R.known(ctx, finding, what))
    return R.run_tasks(tasks, 4)


# property -> [(module, quick configuration, thorough configuration)]
MODELS = {
    "C02": [("Layout", "Layout", "LayoutDeep")],
    "C05": [("Lookup", "Lookup", "LookupDeep")],
    "C07": [("Validator", "Validator", "ValidatorWide"), ("Validator", None, "ValidatorDeep"), ("Validator", None, "ValidatorLong")],
    "C09": [("NumbersMC", "NumbersMC", "NumbersMCDeep")],
    "C14": [("LifetimesRC", "LifetimesRC", "LifetimesRCDeep")],
    "C08": [("ForeignWriter", "ForeignTiny", "ForeignSmall")],
    "C10": [("SharedKeysMC", "SharedKeysMC", "SharedKeysMC")],
    "C13": [("ScopesMC", "ScopesQuick", "ScopesMC")],
    "C15": [("Registry", "RegistryQuick", "Registry")],
    "C22": [("MacroMC", "MacroMC10", "MacroMC12")],
}
MODELS["C16"] = MODELS["C17"] = [("MutableKeys", "MutableKeys", "MutableKeys")]
# property -> [(module, configuration with a wrong design)]
WRONG = {
    "C07": [("Validator", "Validator_" + v) for v in ("count", "required", "elem", "external", "start", "end", "zero")],
    "C14": [("LifetimesRC", "LifetimesRC_" + v) for v in ("root", "convert", "weak", "entry", "clone", "unmap", "rm")],
    "C02": [("Layout", "Layout_" + v) for v in ("header", "start", "unsorted", "root", "odd")],
    "C05": [("Lookup", "Lookup_" + v) for v in ("nofallback", "inline", "bytes", "first")],
    "C15": [("Registry", "Registry_" + v) for v in ("erase", "early", "into", "nested")],
}
WRONG["C16"] = WRONG["C17"] = [("MutableKeys", "MutableKeys_" + v) for v in ("grow", "swap")]
# property -> [(finding, what fails)]
KNOWN = R.known_findings()

CODEC = "TLA+ specification of format, encoder and reads; TLC validates recorded executions against it"
NOTES = {p: (CODEC, "every recorded call result, document and read is a step of the specification; sampled inputs") for p in FAMILIES}
NA = {}
