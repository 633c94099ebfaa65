"""What each check runs."""
import os
import shutil
import runner

LEVEL = {}

def trace_plan(binname, quick, thorough, module="TraceRustFst", models=(), limit_ms=4000):
    def plan(ctx):
        runner.build_java()
        (b,) = runner.build_harness([binname])
        for m, cfgs, deep in models:
            for c in cfgs + (deep if ctx.tier != "quick" else []):
                ctx.model(m, c + ".cfg", timeout=600 if ctx.tier == "quick" else 3600)
        n = quick if ctx.tier == "quick" else thorough
        files = ctx.drive(b, n, binname, limit_ms=limit_ms)
        ctx.judge(files, module, timeout=850 if ctx.tier == "quick" else 6000)
    return plan

def props_plan(bins, quick, thorough):
    def plan(ctx):
        runner.build_java()
        paths = runner.build_harness(bins)
        n = quick if ctx.tier == "quick" else thorough
        for b, path in zip(bins, paths):
            ctx.judge(ctx.drive(path, n, b, limit_ms=4000), "TraceProps", timeout=850 if ctx.tier == "quick" else 6000)
    return plan

def py_plan(quick, thorough):
    """The Python package, on the C library built from the same tree."""
    def plan(ctx):
        runner.build_java()
        so = runner.build_dylib()
        pkg = os.path.join(ctx.wd, "pkg")
        shutil.copytree("/repo/rustfst-python/rustfst", os.path.join(pkg, "rustfst"),
                        ignore=shutil.ignore_patterns("dylib", "__pycache__"))
        os.mkdir(os.path.join(pkg, "rustfst", "dylib"))
        shutil.copy(so, os.path.join(pkg, "rustfst", "dylib", "librustfst.so"))
        n = quick if ctx.tier == "quick" else thorough
        files = ctx.drive(os.path.join(runner.VERIF, "harness-py", "c37"), n, "c37", limit_ms=4000, extra=["--pkg", pkg])
        ctx.judge(files, "TraceRustFst", timeout=850 if ctx.tier == "quick" else 6000)
    return plan

PLANS = {
    "C37": py_plan(30000, 300000),
    "C22": trace_plan("c22", 30000, 400000),
    "C23": trace_plan("c23", 16000, 200000),
    "C24": trace_plan("c24", 24000, 300000),
    "C25": trace_plan("c25", 40000, 600000, models=[("MC_Queue", ["MC_Queue"], [])]),
    "C26": trace_plan("c26", 30000, 400000),
    "C02": trace_plan("c02", 60000, 300000),
    "C03": trace_plan("c03", 20000, 300000),
    "C27": trace_plan("c27", 12000, 200000),
    "C28": trace_plan("c28", 6000, 120000),
    "C29": trace_plan("c29", 3000, 60000),
    "C21": trace_plan("c21", 30000, 400000),
    "C20": trace_plan("c20", 40000, 500000),
    "C19": trace_plan("c19", 40000, 400000),
    "C18": trace_plan("c18", 25000, 150000, models=[("MC_Lazy", ["MC_Lazy"], ["MC_Lazy_deep"])]),
    "C15": props_plan(["c17"], 12000, 200000),
    "C17": trace_plan("c17", 12000, 200000),
    "C16": props_plan(["c01", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c12", "c13", "c14", "c02", "c03", "c24", "c26", "c27"], 2000, 30000),
    "C05": trace_plan("c05", 8000, 100000),
    "C14": trace_plan("c14", 12000, 150000),
    "C30": trace_plan("c30", 8000, 100000),
    "C31": trace_plan("c31", 24000, 200000),
    "C32": trace_plan("c32", 12000, 120000),
    "C33": trace_plan("c33", 12000, 120000),
    "C34": trace_plan("c34", 24000, 120000),
    "C35": trace_plan("c35", 60000, 300000),
    "C36": trace_plan("c36", 60000, 240000),
    "C09": trace_plan("c09", 14000, 150000),
    "C08": trace_plan("c08", 14000, 100000, models=[("MC_Algo", ["MC_Algo_det"], ["MC_Algo_det_deep"])]),
    "C12": trace_plan("c12", 12000, 150000),
    "C07": trace_plan("c07", 12000, 150000, models=[("MC_Algo", ["MC_Algo_int"], ["MC_Algo_trop_deep"])]),
    "C10": trace_plan("c10", 12000, 150000, models=[("MC_Algo", ["MC_Algo_trop"], ["MC_Algo_trop_deep"])]),
    "C11": trace_plan("c11", 12000, 150000, models=[("MC_Dist", ["MC_Dist_trop", "MC_Dist_int"], ["MC_Dist_trop_deep"])]),
    "C06": trace_plan("c06", 20000, 200000, models=[("MC_Rel", ["MC_Rel_trop", "MC_Rel_bool"], ["MC_Rel_trop_deep"])]),
    "C13": trace_plan("c13", 20000, 200000),
    "C01": trace_plan("c01", 16000, 200000, models=[("MC_Filter", ["MC_Filter"], ["MC_Filter_deep"]), ("MC_Rel", [], ["MC_Rel_int_deep"])]),
    "C04": trace_plan("c04", 20000, 200000, models=[("MC_Rel", ["MC_Rel_int", "MC_Rel_real"], ["MC_Rel_int_deep", "MC_Rel_trop_deep"])]),
}

DROPPED = set()
TECH = {}
NOTE = {}
NA = {}
HOOKS = None
DEFNOTE = ("Every recorded call of the real code is judged by TLC against the TLA+ contract on the generated histories (seeded, bounded machines "
           "and label lengths); trusts the driver's projection of results and the TLC/Java toolchain. No claim beyond the explored bounds.")
