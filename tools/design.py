"""Writes DESIGN.md: tools/design_head.md + one section per property + planted bugs."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
T = {
 "C01": ("Overlap fractions of two interval grids, computed with the plain definition max(0, min(hi)-max(lo))/width (mc/ref_grid.py), and tensor products of them in 2D and 3D. Every basis vector is remapped, so a case decides the whole linear map of that pair of grids, not one field.",
         "The relative placement of two grids has many cases (edges that coincide, cells finer than the other's, partly or wholly outside); unit tests use one."),
 "C02": ("The same reference, plus relations: identity on equal grids, nesting, conservation of the integral when the output covers the input, exchange of axes. All argument forms and storage layouts are enumerated as a product.",
         "The forms of five arguments multiply; a slip in one combination is invisible to single tests."),
 "C03": ("The environment's answers are the state: what fresh memory holds and what ran before. The whole case list runs in processes whose malloc fills memory with an enumerated pattern (MALLOC_PERTURB_), and every ordered pair of calls is run one after the other; every result must equal the reference. Thorough builds the Fortran sources with bounds checking.",
         "Uninitialised memory and state left by an earlier call show only under some histories."),
 "C04": ("Fraction of each old bin inside the new one times weight; mean or NaN. Every ordered pair of positions relative to the old edges is a new bin, so all relative orders of two edges and n+1 edges are covered.",
         "The code branches on how many old edges lie in the new bin and whether they are the first or last."),
 "C05": ("The same space with the error formula (weights by overlap fractions, lengths, normalised by the weights) and the public single-bin weights.", "as C04, and the branches are separate code."),
 "C06": ("healpy's pixel numbering (an independent implementation) and bijectivity of ring/position and diamond indices; exhaustive over pixels of an nside.", "Tests look at one nside; caps, belt, seams and large nside differ."),
 "C07": ("healpy pixel centres through a reference HEALPix plane; outlines: every outline point must be on the pixel's border (the points nudged inwards belong to the pixel by healpy), in order, closed.", "as C06."),
 "C08": ("healpy.get_all_neighbours for every pixel.", "Seams between facets; 8 kinds of special places."),
 "C09": ("Reference projection in both directions, round trips, Jacobian through cell areas.", "Facet borders, poles, belt/cap changes."),
 "C10": ("Definitions evaluated pointwise with math functions; round trips; all quadrants, axes, origin; scalars and arrays of every dimension.", "Branches on sign, zero, scalar or array."),
 "C11": ("Rotation matrix of the shortest rotation (mc/rot.py), compared as unit vectors; the same matrix must move every point of a 70-point set.", "Poles, labels of one point, nearly equal end points."),
 "C12": ("Rodrigues rotation about the centre by the angle; composition of two spins is the spin by the sum.", "Three chained rotations with their own special cases."),
 "C13": ("Every array reachable from the caller is copied before and compared bit by bit after, over every function, storage and every sequence of 3 uses of each object.", "Aliasing appears only in branches that work in place."),
 "C14": ("The random source is replaced by a scripted bit generator (mc/rng.py) behind NumPy's global functions: all K^d combinations of equally likely answers are injected at once, and the image must hit every equal-measure cell exactly once at the transformed centres.", "A wrong density passes any test of ranges; exhaustive enumeration of the answers decides the distribution without sampling."),
 "C15": ("All KxK answers per pixel: every point in the pixel by healpy, and equally many in each of 16 sub-pixels.", "Pixels at caps, seams and belt have different shapes."),
 "C16": ("Trapezium/interpolation definitions; the inversion must reproduce knots and the enumerated answers.", "Zero bins, non-uniform densities, interpolation kinds."),
 "C17": ("All n! orders of the answers: result must be a permutation/subset, each ordered draw from exactly the same number of orders.", "Fairness is a statement about all random answers."),
 "C18": ("All answers: values are the two integer neighbours, with exact frequency equal to the fraction.", "Mean over the random answers, negative weights, integers."),
 "C19": ("Closed formulas of edges, mid-points, meshes and equal areas over every combination of argument forms.", "Mixed scalar/list forms and omitted minima."),
 "C20": ("Every outline point on the shape's border, all corners present, order and closure; visible box edges by a ray test for every viewpoint of a lattice.", "The nearest-edge option depends on the octant of the viewpoint."),
 "C21": ("Definitions of ring areas, weighted means and errors, cumulative sums, over all small fields and weight patterns.", "Zero weights, one cell, uneven bins."),
 "C22": ("A reference list of sub-cell centres with areas gives the remap matrix as intervals (borderline points may count on either side, mc/ref_maps.py); every basis field is remapped.", "Axis exchange, sub-division factors and borders hide on symmetric grids and smooth fields."),
 "C23": ("The scripted random source presents all KxK answers in each polar cell, so the points are known and the remap matrix is exact.", "Monte Carlo results cannot be compared by a test without controlling the source."),
 "C24": ("As C22 in 3D, sub-cells from healpy; periodic images by index arithmetic.", "Periodic images and axes."),
 "C25": ("As C23 in 3D.", "as C23."),
 "C26": ("As C22 and C23 with points rotated by mc/rot.py and healpy pixels.", "Poles, seams, rotations."),
 "C27": ("As C26 for patches.", "as C26."),
 "C28": ("As C26 for the orthographic disc; transform against the rotation.", "Limb, centres, radius."),
 "C29": ("Linear interpolation of the rolled field, every basis field; remaps on shifted rings.", "Shifts of zero, whole, part, last cell; partial grids."),
 "C30": ("Covered fraction from the matrices of C22/C23; radial means over the cells that are inside with every weight pattern.", "Cells crossing the box, caller's weights."),
 "C31": ("Explicit-state model: an object is (last source, last target, order, weights fresh/stale/none); every operation sequence up to the depth is executed on the real object and its answers must equal those of a new object in the same model state. Every interleaving of two objects' uses.", "Stale caches need two set-ups; shared state needs two objects."),
 "C32": ("Rotation to the view and perspective formulas; reverse undoes transform; every sequence of three set-ups out of 16.", "Directions along axes, distances, spins."),
 "C33": ("Every history of calls before a seed: results equal those after the seed in a fresh process order; deterministic calls leave the generator's state.", "Needs histories."),
 "C34": ("The parsed bar for every step of every loop length; results with output on and off.", "Rounding at some lengths."),
 "C36": ("The same call in a fresh process (forked from a worker that never runs the library itself). For every call A the history A, B1, A, B2, A, ... is executed for all B that are near A (one argument nudged, reversed, exchanged) or another function, with new arrays, with A's own arrays overwritten and on A's object; every answer must equal the one given alone, A's first result must keep its values, and settings are compared before and after each call.", "A cache under too small a key needs two related calls."),
 "C37": ("The same calls run alone. Two real threads run under a scheduler (sys.settrace, one semaphore per thread) that can hand over at every executed line of the library; all schedules with one preemption, and with two for short calls, are run.", "The wrong schedule is one of hundreds and never happens in a sequential test."),
 "C38": ("Each element, cell or shell alone (self-consistency), vectorised overlap matrices for large grids and the map at the point of each cell for large patches.", "Blocks, limits and single precision show only beyond some size."),
 "C39": ("Fields of 1e5 cells along an axis or HEALPix nside 1024: the reference looks every sub-cell or random point up at the exact parameters (points within 3e-9 of a border give an interval); the changed result must lie in the interval of the changed parameters, which is disjoint from that of the base (counted as changes seen).", "Thresholds and tolerances are invisible with round numbers."),
 "C40": ("The same scene in its own units: the result must carry the factor to the power its dimension says (powers of two change no rounding, so 1e-12; other factors and translations 1e-9).", "An absolute tolerance or limit is invisible at order one."),
 "C41": ("A decision table written from the documentation: every class of every argument with a verdict, plus conditions between arguments. An object that was set up keeps being refused (the refusals accumulate) and must answer as a new one after each.", "Needs the argument just outside its domain with all others inside, and a use after the refusal."),
 "C42": ("The same data at two resolutions: source cells, bins, pixels and density cells are split into equal parts with the same value along every set of axes and every factor of the alphabet (Monte Carlo remaps with the same random answers); results must agree to rounding, masks exactly. Target cells are split and averaged with their areas.", "A branch on the number of cells, or axes exchanged only in a rare shape, is invisible at one resolution."),
 "C43": ("Everything drawn on real matplotlib axes (Agg) is read back and unprojected with mc/rot.py: lines must be meridians and parallels, texts and ticks must name their place; expected lines, labels and crossings are computed independently and must all be there. All sequences of drawings of two views on two axes, one set up again between.", "No test draws anything."),
 "C44": ("Self-consistency: every call is made with plain doubles and Python integers first; then each argument alone, every pair and all together take every other type that holds the values exactly (tolerance 1e-9, or 1e-4 where single precision or 16 bits are involved).", "A wrong branch needs one type at one argument."),
 "C35": ("Self-consistency: the object's own basis results tell which target cells a source cell reaches; then each cell in turn becomes NaN or infinite, arrays are scaled and stored in all forms.", "Tests use finite doubles of order one."),
}


def main():
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    for p in props:
        i = p["id"]
        m = importlib.import_module("mc.checks." + i.lower())
        ev = os.path.join(HERE, "evidence", i + ".json")
        out += ["### %s %s" % (i, p["title"]), "", "* Oracle: %s" % T[i][0],
                "* Bounds, quick: %s." % m.BOUNDS["quick"], "* Bounds, thorough: %s." % m.BOUNDS["thorough"],
                "* Assumptions: %s." % "; ".join(m.ASSUMPTIONS), "* Beyond tests: %s" % T[i][1], ""]
    out += ["## Planted bugs", "", "Each lies in seeded/ID/ with its demonstration; `tools/seeded.json` holds the last results "
            "(own check on the patched tree).", "", "| bug | property | needs | breaks | result |", "|---|---|---|---|---|"]
    res = json.load(open(os.path.join(HERE, "tools", "seeded.json")))
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        b = os.path.basename(os.path.dirname(d))
        q = json.load(open(d))
        out.append("| %s | %s | %s | %s | %s |" % (b, q["property"], q["needs"], q["what_it_breaks"],
                                                   res.get(b, "?")))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
