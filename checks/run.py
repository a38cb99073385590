#!/usr/bin/env python3
"""checks/run.py PROPERTY: decides one property for /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

# property -> suites of the driver and the specification their traces are validated against
TRACES = {
    "C01": [("moves", "TracePos"), ("orbitmoves", "TracePos")],
    "C02": [("moves", "TracePos"), ("orbitmoves", "TracePos")],
    "C03": [("turn", "TracePos"), ("orbitturns", "TracePos")],
    "C04": [("moves", "TracePos"), ("orbitmoves", "TracePos")],
    "C05": [("views", "TracePos"), ("orbitedits", "TracePos")],
    "C06": [("history", "TracePos"), ("orbithistory", "TracePos"), ("longgames", "TracePos")],
    "C07": [("hands", "TraceHand"), ("orbitcounts", "TraceHand")],
    "C08": [("bbset", "TraceBB"), ("orbitalgebra", "TraceBB")],
    "C09": [("bbshift", "TraceBB"), ("orbitshifts", "TraceBB")],
    "C10": [("bbpop", "TraceBB"), ("orbittaking", "TraceBB")],
    "C11": [("squares", "TraceValues")],
    "C12": [("pieces", "TraceValues")],
    "C13": [("packed", "TraceValues")],
    "C14": [("sfen", "TraceText"), ("orbitsfen", "TraceText")],
    "C15": [("usi", "TraceText"), ("orbithands", "TraceText")],
    "C16": [("sink", "TraceSink"), ("orbitsink", "TraceSink")],
    "C17": [("ords", "TraceOrd")],
    "C18": [("game", "TraceGame")],
    "C19": [("legal", "TracePos"), ("orbitlegal", "TracePos")],
    "C21": [("csfen", "TraceText")],
}


LAWS = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"}

# PositionImpl: the broken variants (and what they break) and a larger window, per property.
IMPL = {
    "C01": [("captures", "Effect|Rejected"), ("keepspro", "Effect")],
    "C02": [("handfirst", "Effect|Rejected"), ("captures", "Effect|Rejected"), ("turnfirst", "Effect|Rejected")],
    "C04": [("handfirst", "Effect|Rejected|Conserved"), ("captures", "Effect|Rejected|Conserved")],
    "C05": [("staleking", "ViewKings"), ("onecolor", "ViewPlayers"), ("kindleak", "ViewKinds|ViewPieces")],
}
IMPL_DEEP = {
    "C01": {"Window": "{1, 81}", "Ks": "{6, 14}", "Most": 2},
    "C02": {"Window": "{1, 64, 81}", "Ks": "{5, 8}", "Most": 1},
    "C04": {"Window": "{63, 64}", "Ks": "{1, 3, 8, 9, 11}", "Most": 2},
    "C05": {"Window": "{9, 63, 64, 81}", "Ks": "{1, 8}", "Most": 0},
}

# BitWords: the broken variants, per property.
WORDS = {
    "C08": [("notall", "Canonical"), ("filecut", "Reads")],
    "C09": [("leftmask", "Canonical"), ("rightmask", "Canonical"), ("midfile", "Canonical"), ("carry", "Effect"),
            ("wordflip", "Effect"), ("low", "Canonical")],
    "C10": [("poppos", "Effect")],
}

# WriterImpl: the broken variants, per property.
WRITER = {
    "C14": [(v, "Prefix|Complete|ReadsBack") for v in ("norestart", "noend", "dash", "inner", "one", "mirror")],
    "C16": [(v, "Prefix|Stopped|Reported") for v in ("runlost", "digitlost", "sidelost")],
}


def plan(ctx):
    if ctx.prop in LAWS:
        model_stage(ctx, "Laws", workers=4, consts={"Swaps": "1..80"} if ctx.thorough else None)
    if ctx.prop in WORDS:
        model_stage(ctx, "BitWords", consts=None if ctx.thorough else {"Elements": "{1, 10, 41, 62, 63, 64, 73, 81}"})
        if ctx.thorough:
            for v, broken in WORDS[ctx.prop]:
                model_stage(ctx, "BitWords", consts={"Variant": f'"{v}"'}, expect=broken)
            model_stage(ctx, "BitWords", consts={"Elements": "Squares"})
    if ctx.prop in IMPL:
        model_stage(ctx, "PositionImpl", consts=None if ctx.thorough else {"Window": "{63, 64}"})
        if ctx.thorough:
            for v, broken in IMPL[ctx.prop]:
                model_stage(ctx, "PositionImpl", consts={"Variant": f'"{v}"'}, expect=broken)
            model_stage(ctx, "PositionImpl", consts=IMPL_DEEP[ctx.prop])
    if ctx.prop in ("C01", "C03", "C06"):
        replay_stage(ctx, ctx.prop == "C06")
    if ctx.prop in ("C14", "C16"):
        model_stage(ctx, "WriterImpl", consts={"Masks": "0..511", "Counts": "0..255"} if ctx.thorough else None)
        if ctx.thorough:
            for v, broken in WRITER[ctx.prop]:
                model_stage(ctx, "WriterImpl", consts={"Variant": f'"{v}"'}, expect=broken)
    if ctx.prop == "C07":
        walk_stage(ctx, "WalkHand", "hands", 200 if ctx.thorough else 10)
    if ctx.prop in ("C08", "C09"):
        walk_stage(ctx, "WalkSet", "sets", 200 if ctx.thorough else 10)
    if ctx.prop == "C18":
        walk_stage(ctx, "WalkGame", "games", consts={"Length": 6 if ctx.thorough else 4})
    if ctx.prop == "C19":
        walk_stage(ctx, "WalkLegal", "legal", 200 if ctx.thorough else 10)
    for suite, module in TRACES.get(ctx.prop, []):
        trace_stage(ctx, suite, module)
    if ctx.prop == "C20":
        c_interface_stage(ctx)
        c_stage(ctx, "values", "TraceValues")
        c_stage(ctx, "bb", "TraceBB")
        c_stage(ctx, "hands", "TraceHand")
        c_stage(ctx, "pos", "TracePos", prop="ALL")
        trace_stage(ctx, "orbitcalls", "TracePos", prop="ALL")
    if ctx.prop == "C22":
        model_stage(ctx, "AllocImpl")
        if ctx.thorough:
            for v, inv in (("store", "InvDisjoint"), ("early", "InvNothingLost"), ("mask", "InvAligned|InvNothingLost"),
                           ("wrap", "InvInside"), ("retry", "InvDisjoint")):
                model_stage(ctx, "AllocImpl", consts={"Variant": f'"{v}"'}, expect=inv)
            model_stage(ctx, "AllocImpl", consts={"Base": 2}, expect="InvAligned")
            model_stage(ctx, "AllocImpl", consts={"Calls": 6, "Sizes": "{1, 3, 9}", "Aligns": "{1, 4, 8}"})
        alloc_stage(ctx)
    if ctx.prop == "C23":
        c_features_stage(ctx)
        features_stage(ctx)
    if ctx.prop == "C21":
        c_stage(ctx, "sfen", "TraceText")


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    try:
        plan(ctx)
        write_evidence(ctx, 0)
        print(f"OK property={prop} states={ctx.cov['states']} "
              f"traces={ctx.cov['traces_validated_against_impl']} in {time.time() - ctx.t0:.1f}s")
        rc = 0
    except Violation as v:
        report_violation(ctx, v)
        write_evidence(ctx, 1)
        rc = 1
    except ToolError as e:
        print("TOOL ERROR:", e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.cleanup()
    sys.exit(rc)


if __name__ == "__main__":
    main()
