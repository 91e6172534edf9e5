#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in step) from the table below."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/tlapack/"
P = []


def p(id, title, statement, over_text, why, files, mech, observe, note, over=("inputs", "configurations"), thorough=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=over_text, why=why, files=files, mech=mech, observe=observe, note=note))


STD_WHY = "the tests draw a handful of random matrices of one or two sizes and compare norms with a tolerance; they sample single values, so a wrong branch, flag combination, edge size or element the residual norm hides is not seen. "

p("B01", "Level-1 BLAS and plane rotations compute their exact definition",
  "In exact arithmetic asum, axpy, copy, dot, dotu, iamax, nrm2, lassq, rot, rotm, scal and swap produce exactly the value the BLAS defines for them, for every element type, length (zero included) and storage stride or direction of each vector, and change no storage outside their output vectors. rotg, lartg and rotmg return a rotation that satisfies their documented identities (annihilated second component, preserved weighted norm, c^2+|s|^2=1) in every scaling branch, from tiny to huge operands.",
  "all entries of vectors of bounded length, all strides/directions in the bound, all operand magnitudes of the rotations within the stated classes",
  STD_WHY + "Level-1 routines have no tests of their own and the rescaling loops of rotg and rotmg only run for operands near underflow or overflow, which the tests never use.",
  [I + "blas/asum.hpp", I + "blas/axpy.hpp", I + "blas/iamax.hpp", I + "blas/nrm2.hpp", I + "lapack/lassq.hpp", I + "blas/rotg.hpp", I + "blas/rotmg.hpp", I + "blas/rotm.hpp", I + "LegacyVector.hpp"],
  [("scaled sums of squares", I + "lapack/lassq.hpp"), ("rescaling loops", I + "blas/rotmg.hpp"), ("strided access", I + "LegacyVector.hpp")],
  ["return values and output vectors"], "lengths 0..4 (thorough 0..7); rotations over magnitude classes; exact real arithmetic instead of rounding")
p("B02", "Level-2 BLAS compute their exact definition",
  "In exact arithmetic gemv, ger, geru, hemv, symv, her, her2, syr, syr2, trmv and trsv produce exactly the documented result for every uplo, op, diag, layout, stride, real or complex element type, any dimension (zero included) and any alpha and beta, an omitted beta meaning the output is overwritten. They neither read nor write the triangle (or unit diagonal) the caller says is not referenced, nor any storage outside the operands, and treat Hermitian diagonals as real.",
  "all matrix and vector entries and scalars, every flag combination, for dimensions within the bound",
  STD_WHY + "testBLAS is not run and the LAPACK tests reach only the flag combinations their algorithms use.",
  [I + "blas/gemv.hpp", I + "blas/ger.hpp", I + "blas/hemv.hpp", I + "blas/her2.hpp", I + "blas/symv.hpp", I + "blas/syr2.hpp", I + "blas/trmv.hpp", I + "blas/trsv.hpp"],
  [("branch per uplo/op/diag", I + "blas/trsv.hpp"), ("beta scaling", I + "blas/gemv.hpp")], ["output vector or matrix"], "dimensions 0..3 (thorough 0..4); exact real arithmetic")
p("B03", "Level-3 BLAS compute their exact definition",
  "In exact arithmetic gemm, hemm, symm, herk, syrk, her2k, syr2k, trmm and trsm produce exactly the documented result for every side, uplo, op, diag, mixture of layouts, real or complex element type, any dimensions (zero included) and any alpha and beta, an omitted beta meaning the output is overwritten. They neither read nor write the triangle (or unit diagonal) the caller says is not referenced, nor any storage outside the operands, and Hermitian diagonals are treated as real.",
  "all matrix entries and scalars, every flag combination, for dimensions within the bound",
  STD_WHY + "testBLAS is not run and the LAPACK tests reach only the flag combinations their algorithms use.",
  [I + "blas/gemm.hpp", I + "blas/hemm.hpp", I + "blas/symm.hpp", I + "blas/herk.hpp", I + "blas/syrk.hpp", I + "blas/her2k.hpp", I + "blas/syr2k.hpp", I + "blas/trmm.hpp", I + "blas/trsm.hpp"],
  [("branch per side/uplo/op/diag", I + "blas/trsm.hpp")], ["output matrix"], "dimensions 0..3 (thorough 0..4); exact real arithmetic")

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

NA = globals().get("NA", {})
NOTCLAIMED = globals().get("NOTCLAIMED", {})
TECH = globals().get("TECH", {})
T0 = "symbolic execution of the real template code over a symbolic scalar type; z3 (QF_LRA/QF_NRA) decides every obligation on every path; counterexamples replayed in exact rational/1024-bit arithmetic"
lines, checks, na = [], [], []
for q in P:
    lines.append(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                             "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                             "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]], "observe_at": q["observe"], "hook_needed": None}}))
    have = glob.glob(os.path.join(V, "harness", q["id"] + "*"))
    if q["id"] in NA:
        na.append({"property": q["id"], "reason": NA[q["id"]]})
    elif have:
        checks.append({"property": q["id"], "quick_cmd": "python3 check.py %s quick" % q["id"], "thorough_cmd": "python3 check.py %s thorough" % q["id"],
                       "technique": TECH.get(q["id"], T0), "level": "model_checking", "level_note": q["note"]})
    else:
        na.append({"property": q["id"], "reason": "no check built yet"})
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": na}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    for l in lines:
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(lines), len(checks))
except ImportError:
    pass
