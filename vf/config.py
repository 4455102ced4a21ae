"""What each check runs."""
CHECKS = {
    "C03": dict(trace="T_Rect", models=["MC_Rect"], models_thorough=["MC_Rect@big"], clauses=["tightest", "width", "center", "crosses x", "encloses point"]),
    "C04": dict(trace="T_Rect", models=["MC_Rect"], models_thorough=["MC_Rect@big"], clauses=["union is least", "unions associate", "no intersection", "intersection", "encloses", "relation", "unchanged"]),
}
CHECKS.update({
    "C01": dict(trace="T_Transform", models=["MC_Rat", "MC_Transform"], models_thorough=["MC_Transform@big"],
                clauses=["point", "segment", "contour", "contours", "matrix is the product", "row times matrix", "product of matrices", "arguments unchanged"]),
    "C02": dict(trace="T_Transform", models=["MC_Trig", "MC_Transform"], models_thorough=["MC_Transform@big"],
                clauses=["translate", "scale", "shear", "mirror", "mirrorAround", "rotation", "rotationAbout", "moveAndRotate", "rotateAndMove",
                         "perspective", "perspectiveFrom", "helper", "sine", "cosine"]),
})

CHECKS.update({
    "C05": dict(trace="T_Line", models=["MC_Trig", "MC_Line"], models_thorough=["MC_Line@big"],
                clauses=["end points", "deltas", "midpoint", "kind", "length", "slope", "angle from vertical", "direction", "minMax", "toMicros"]),
    "C06": dict(trace="T_Line", models=["MC_Line"], models_thorough=["MC_Line@big"],
                clauses=["intersection", "none if parallel", "none if apart", "point on line"]),
})

CURVE = dict(trace="T_Curve", models=["MC_Curve"], models_thorough=["MC_Curve@big"])
CHECKS.update({
    "C07": dict(CURVE, clauses=["start", "end", "point", "midpoint", "ends", "table size", "table ends", "table points"]),
    "C08": dict(CURVE, clauses=["split left", "split right", "split joined", "split part", "hull"]),
    "C09": dict(CURVE, clauses=["raised", "A", "B", "hull", "C on the baseline", "C on AB", "ratio"]),
    "C10": dict(CURVE, clauses=["bbox", "bounds", "extrema in [0, 1]", "no turn between extrema", "overlaps", "outline bounds", "skeleton bounds"]),
    "C11": dict(CURVE, clauses=["align", "tight box"]),
    "C12": dict(CURVE, clauses=["normal", "offset", "derivatives"]),
    "C15": dict(CURVE, clauses=["length", "length of a straight line", "precision", "length of a curve of polynomial speed", "lengths add up", "length both ways"]),
})

CONTOUR = dict(trace="T_Contour", models=["MC_Curve"], models_thorough=["MC_Curve@big"])
CHECKS.update({
    "C14": dict(CONTOUR, gens=[dict(module="G_Contour", cfg="G_Contour", thorough="G_Contour@big")],
                clauses=["curves kept", "item", "ends", "bounds", "as new", "table", "path data"]),
    "C20": dict(CONTOUR, models=["MC_Closest"], clauses=["on the contour", "distance", "no sample is closer", "refined", "same answer again"]),
    "C21": dict(CONTOUR, models=["MC_SvgPath"], models_thorough=["MC_SvgPath@big"], clauses=["path data"]),
    "C29": dict(CONTOUR, models=["MC_SvgPath"], clauses=["curves kept", "contours kept", "ends", "control points kept", "direction", "unzip", "flatten", "rebuilt", "xy"]),
})

CROSS = dict(trace="T_Cross", models=["MC_Intersect"], models_thorough=["MC_Intersect@big", "MC_Curve@big"])
CHECKS.update({
    "C16": dict(CROSS, clauses=["parameters", "on the segment", "every crossing", "on the line", "every root", "none only if not crossed",
                                "point on the line", "point on the curve", "none if apart"]),
    "C17": dict(CROSS, clauses=["pairs of parameters", "pairs are close", "every crossing", "loop found"]),
})

REDUCE = dict(trace="T_Reduce", models=["MC_Reduce"], models_thorough=["MC_Reduce@big", "MC_Curve@big"])
CHECKS.update({
    "C18": dict(REDUCE, clauses=["can be reduced", "partition", "starts and ends", "joined", "parts of the curve", "no extremum inside", "simple", "not simple"]),
    "C19": dict(REDUCE, clauses=["line moved", "start", "end", "joined", "ends of parts", "middles of parts", "start moved", "end moved",
                                 "inner points of parts", "inner points", "start direction", "end direction", "start moved by f(0)", "end moved by f(1)", "inner points moved by f", "cannot be scaled"]),
})

CHECKS["C13"] = dict(trace="T_History", models=["MC_Cache"], budget=90,
                     gens=[dict(module="G_History", cfg="G_History"), dict(module="G_History", cfg="G_History@long", num=60, depth=8)],
                     clauses=["as asked of a new object", "as answered before", "earlier answer unchanged", "precision", "control points unchanged"])

CHECKS.update({
    "C22": dict(trace="T_Pen", gens=[dict(module="G_Pen", cfg="G_Pen", thorough="G_Pen@big")], clauses=["contours recorded", "recorded contours stay"],
                note="The generator model checks the pen's own invariants (contours closed and connected, recorded contours never change) over all its behaviours."),
    "C23": dict(trace="T_Pen", models=["MC_Transform"],
                gens=[dict(module="G_Components", cfg="G_Components", thorough="G_Components@big"), dict(module="G_Components", cfg="G_Components@long", num=25, depth=13)],
                note="The generator model checks over all its behaviours that nested components agree with the product of the transformations along every path, that every contour is closed and connected, and that a component leaves the contour being drawn alone.",
                clauses=["number of contours", "components placed", "recorded contours stay"]),
})

CHECKS.update({
    "C24": dict(trace="T_Fit", models=["MC_Basis"], models_thorough=["MC_Basis@big"], gens=[dict(module="G_Fit", cfg="G_Fit", thorough="G_Fit@big")],
                clauses=["binomial", "basis matrix", "time values", "points", "basis matrix of the fit", "time values of the fit", "through the points"]),
    "C25": dict(trace="T_Fit", models=["MC_Matrix"], models_thorough=["MC_Matrix@big"],
                clauses=["not square", "singular", "exact inverse", "inverse", "product", "product of floats", "transpose", "row", "column", "column of points"]),
})

PLOT = dict(trace="T_Plot")
CHECKS.update({
    "C27": dict(PLOT, gens=[dict(module="G_Plot", cfg="G_Plot", thorough="G_Plot@big"), dict(module="G_Plot", cfg="G_Plot@long", num=40, depth=14)],
                clauses=["settings", "painted"],
                note="The generator model checks the discipline of the two stacks over all its behaviours. The base class of the plotter is not installed: a stand-in (stubs/) keeps the settings and records the elements."),
    "C28": dict(PLOT, models=["MC_SvgPath"], models_thorough=["MC_SvgPath@big"],
                clauses=["covers its bounds", "margins", "labels", "label font", "outline drawn", "curve drawn", "paths drawn", "lines drawn", "circles drawn", "control polygon drawn", "construction lines drawn", "arrow drawn", "text drawn"],
                note="The base class of the plotter is not installed: a stand-in (stubs/) keeps the settings and records the elements."),
})

CHECKS["C26"] = dict(trace="T_Color", models=["MC_Hue"], models_thorough=["MC_Hue@big"], clauses=["keyword", "no word", "no keyword", "next hue", "components"],
                     note="The base class of Color is not installed: a stand-in (stubs/) keeps the components.")

CHECKS["C30"] = dict(trace="T_Helpers", models=["MC_Helpers"], models_thorough=["MC_Helpers@big"],
                     clauses=["roots are roots", "number of roots", "all roots", "lines meet", "none if parallel", "lerp", "map", "angle", "cube root", "square root",
                              "no square root", "approximately", "between", "distinct", "ratio"])

CHECKS["C31"] = dict(trace="T_Fit", models=["MC_Basis", "MC_Matrix"], models_thorough=["MC_Basis@big", "MC_Matrix@big"],
                     clauses=["control point columns", "least squares", "powers", "transposed powers"])

CHECKS["C32"] = dict(trace="T_Pipeline", gens=[dict(module="G_Pipeline", cfg="G_Pipeline", thorough="G_Pipeline@big")],
                     note="The generator model checks over all its behaviours that curves stay parts of the curves they come from, moved as the transformations say, that contours stay closed, that path data describes them, and that bounds of control points contain them. The base class of the plotter is not installed: a stand-in (stubs/) records the elements.",
                     clauses=["outline of the pen", "outline after move", "outline after turn", "outline after split", "outline after raise", "outline after put",
                              "points of the curves drawn", "bounds", "path data", "picture", "lengths"])

# properties this technique cannot decide: property -> reason
NOT_APPLICABLE = {}


def level_note(prop):
    c = CHECKS[prop]
    models = ", ".join(c.get("models", []) + c.get("models_thorough", []))
    text = ("Every recorded call of the real code is judged by TLC against the TLA+ specification "
            f"({c['trace']}.tla) in exact rational arithmetic; inputs are enumerated, TLC-generated or seeded random, so this is bounded exploration of the code, "
            f"not a proof. Design models checked exhaustively within their bounds: {models or 'none'}. "
            "Trusted: TLC, the Java evaluator of module Rat (checked by MC_Rat), the recorder.")
    return text + (" " + c["note"] if c.get("note") else "")
