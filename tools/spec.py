"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
P = []
SPA = "surface_potential_analysis/"


def prop(id, title, statement, text, why, files, mech, over=("inputs",), note="", technique=None,
         hook=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files,
                  mech=mech, over=list(over), note=note, technique=technique, hook=hook))


prop(
    "C01", "Changing the basis of a vector is the projection onto the new basis",
    "Converting a vector, or any stack of vectors along any axis, from one basis to another returns the overlaps of the original state with the states of the new basis; truncated, transformed, evenly spaced, explicit and stacked bases included. "
    "Converting between two bases that span the same space, and back, returns the original vector, and conversion to the position or momentum representation and back preserves norms and inner products. "
    "The dual vector of a converted vector is the conversion of the dual vector, and the input is left unchanged.",
    "For every pair of bases over the same fundamental grid (any kind, truncation, step, offset, nesting, dimension 1-3), every vector and axis.",
    "The tests sample a few truncated/transformed pairs at fixed sizes; they never convert stacked, evenly spaced or explicit bases along arbitrary axes, nor real-valued data.",
    [SPA + "basis/basis.py", SPA + "basis/basis_like.py", SPA + "basis/evenly_spaced_basis.py", SPA + "basis/explicit_basis.py", SPA + "basis/stacked_basis.py", SPA + "util/interpolation.py"],
    [("__convert_vector__ / __into_fundamental__ / __from_fundamental__ overrides", SPA + "basis/"), ("pad_ft_points", SPA + "util/interpolation.py")],
)
prop(
    "C02", "Conversion of states, operators and probabilities is basis independent",
    "Converting a state, a list of states, a dual state, an operator, a list of operators, a diagonal operator or a probability distribution to another basis describes the same object: matrix elements, expectation values, inner products and traces computed from the converted object equal those of the original on the space both bases span. "
    "Changing the sampling of a state on the same cell keeps its values at the shared grid points.",
    "For every operator, state (single or list), dual, diagonal operator and probability list in any pair of bases with the same fundamental grid.",
    "The stable tests contain no operator or state conversion with truncation, rectangular bases or lists.",
    [SPA + "state_vector/conversion.py", SPA + "operator/conversion.py", SPA + "probability_vector/conversion.py"],
    [("convert_state_vector_to_basis, convert_operator_to_basis, ...", SPA + "state_vector/conversion.py, " + SPA + "operator/conversion.py")],
)
prop(
    "G01", "Grid, reciprocal grid and axis labels describe one consistent lattice",
    "The points of a stacked position basis are the integer combinations of its lattice vectors over the grid size, the momentum points are the matching combinations of the reciprocal vectors (a_i·b_j = 2π if i = j, else 0), and both orderings agree with the storage order of the data, for any handedness, skewness or dimension. "
    "Volumes, reciprocal volumes, spacings, time labels and Bloch-fraction labels follow the same lattice. "
    "Building or re-deriving a basis (changing its length, its resolution, its representation) keeps the lattice vectors and changes only what was asked for.",
    "For every non-degenerate lattice of dimension 1-3, every grid shape, truncation, step and offset.",
    "The tests check the ordinates of a handful of shapes in one orthogonal cell.",
    [SPA + "basis/util.py", SPA + "basis/stacked_basis.py", SPA + "basis/time_basis_like.py", SPA + "basis/block_fraction_basis.py", SPA + "basis/conversion.py", SPA + "stacked_basis/build.py", SPA + "stacked_basis/conversion.py"],
    [("BasisUtil: x_points, k_points, dk, fundamental_*", SPA + "basis/util.py"), ("stacked_basis_as_*", SPA + "stacked_basis/conversion.py")],
)
prop(
    "G02", "Index arithmetic on a periodic grid is exact and minimal",
    "Flat and per-axis indices are inverse to each other; wrapping an index or a point around an origin returns the equivalent one closest to that origin; distances along a path and differences of positions use the periodic image that was asked for. "
    "Slices, projections and coordinates of points along chosen axes are those of the same points of the full grid, and the located maxima, minima and twice-average points satisfy their definitions.",
    "For every grid shape, lattice, index (inside or far outside the cell), origin, axis subset and order.",
    "The tests evaluate wrapping and distances at a few hand-picked 3-dimensional cases.",
    [SPA + "basis/util.py", SPA + "stacked_basis/util.py", SPA + "util/util.py"],
    [("wrap_index_around_origin, get_k/x_coordinates_in_axes", SPA + "stacked_basis/util.py"), ("BasisUtil.get_flat_index", SPA + "basis/util.py")],
)
prop(
    "G03", "Brillouin zone folding returns the equivalent point nearest to the origin",
    "Folding a momentum point returns one which differs from it by a reciprocal lattice vector and which is at least as close to the origin as every other equivalent point; folding is idempotent and the listed Bragg points are the reciprocal lattice points around the origin.",
    "For every lattice of dimension 1-3 (skew, hexagonal, either handedness), every point and band.",
    "The tests check a few points in one 3-dimensional cell.",
    [SPA + "stacked_basis/brillouin_zone.py"],
    [("decrement/increment_brillouin_zone, get_bragg_plane_*", SPA + "stacked_basis/brillouin_zone.py")],
)
from spec_more import more  # noqa: E402
more(prop, SPA)

LEVEL_NOTE = (
    "Runs the real library in-process on seeded random and hostile inputs; monitors compare every "
    "observed result with an oracle computed independently from the definitions (dense matrices, "
    "explicit loops). Assurance is limited to the explored cases; numpy/scipy/qutip are trusted."
)
ok = {p.stem for p in (HERE / "props").glob("*.py")}
with (HERE / "properties.jsonl").open("w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": ["return values and side effects of the public functions of the listed files"],
                        "hook_needed": p["hook"]},
        }) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
checks = []
for p in P:
    if p["id"] not in ok:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} --tier quick",
        "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"] or "runtime monitoring: oracle monitors over randomised workloads on the real code",
        "level": "fault_enumeration" if p["id"] == "K02" else "exploration",
        "level_note": p["note"] or LEVEL_NOTE,
    })
na = [{"property": p["id"], "reason": "no check built yet"} for p in P if p["id"] not in ok]
(HERE / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
    "notes": "No hooks are compiled into /repo: all instrumentation wraps the library from outside at import time.",
}, indent=1) + "\n")
print(len(P), "properties,", len(checks), "checks,", len(na), "not claimed")
