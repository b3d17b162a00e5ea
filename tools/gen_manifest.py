"""Writes MANIFEST.json: every property that has tasks in check.py is claimed, the rest is listed as not applicable yet."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
sys.dont_write_bytecode = True
import check
NOTE = {
 "P01": ("model-based property-based testing (reference routing model, edit histories)", "Random edit histories of real trees against an independent map-based tree model; every row, draw, offset and tree range compared. Trusts the 140-line model in harness/ref.h."),
 "P02": ("stateful model-based property-based testing", "Every accessor of the tree compared with the model after each generated edit; ASan/UBSan catch aliasing and stale indices."),
 "P03": ("stateful model-based property-based testing", "All per-row and per-node views of the trackers recomputed from the routing rules after each generated split/prune/reset."),
 "P05": ("stateful property-based testing over sampling histories", "Every retained draw is deep-read when stored and compared bit for bit after each later GFR/MCMC step, copy or re-initialisation attempt."),
 "P06": ("stateful property-based testing with a conservation oracle", "Outcome = residual + forests + random effects, with every forest re-evaluated by the reference trees after each generated step, basis refresh and forest swap; histories run in C++, through the Python classes and through the R classes (residual read back through variance draws and random probes)."),
 "P07": ("stateful property-based testing of structural invariants", "Every sampled tree is re-routed over the data after each GFR/MCMC step; also generates data where no move is possible."),
 "P08": ("property-based testing against an exact law (two-stage statistical decision)", "Posterior moments recomputed by dense linear algebra; draws are whitened and tested for mean, variance, shape and correlation. Alarms need p<1e-3 and then p<1e-8 on fresh draws; biases far below the sampling error of 40000 draws are out of reach."),
 "P09": ("differential property-based testing (dense Gaussian marginal likelihood)", "Scores of proposed, existing and all enumerated splits against log densities recomputed from the raw rows."),
 "P10": ("model-based property-based testing", "Bins recomputed from the node's rows; tie, thinning and tiling rules on every feature type."),
 "P11": ("property-based testing against an exact law (exhaustive enumeration of trees, two-stage statistical decision)", "All trees reachable on generated data of up to five rows are enumerated with exact probabilities and compared with draw frequencies."),
 "P12": ("property-based testing against an exact law (enumerated posterior, joint-law simulation, two-stage statistical decision)", "Trees drawn from the enumerated posterior must be in balance after real MCMC steps; whole forests with leaf and variance updates must preserve the prior when data are simulated from it."),
 "P13": ("property-based testing against an exact law (two-stage statistical decision)", "Inverse-gamma transforms of the draws tested for uniformity."),
 "P14": ("property-based testing against an exact law (dense conditionals, joint-law simulation, two-stage statistical decision)", "Each Gibbs step compared with a dense conditional and the whole sweep with the prior it must preserve."),
 "P15": ("model-based property-based testing over histories", "Group bookkeeping recomputed from the labels; every retained draw re-predicted from recorded parameters after store/sample/reload histories."),
 "P16": ("model-based property-based testing", "Every element read back bit for bit after generated add/update/replace histories with the caller's buffers overwritten; through Python and R, predictions of known trees and draws from inputs of every accepted layout and storage mode."),
 "P17": ("metamorphic property-based testing (same seed after generated histories, in fresh processes, and under generated interleavings)", "Bitwise comparison of all traces, fits and stored forests of the same call repeated after other models were built, sampled or discarded, in a fresh process with perturbed heap contents, of samplers advanced step by step in generated interleavings, and of generated call sequences issued both through Python and through R; R bart() and bcf() repeated around other models."),
 "P18": ("property-based testing against a reference model, metamorphic relations and exact laws of the traces", "predict() and cached fits against an independent evaluation of the archived forests, schedule and invariance relations, and the variance traces against their full conditionals (two-stage statistical decision)."),
 "P19": ("property-based testing against a reference model, metamorphic relations and exact laws of the traces", "Fits, effects and predictions against an independent evaluation of the archived forests and coding traces; the residual observed before every forest step; variance and coding traces against their full conditionals (two-stage statistical decision). Multi-column treatments without given propensities and multi-column propensities are not generated."),
 "P20": ("property-based testing against a reference model, metamorphic relations and exact laws of the traces", "R bart() called for real through a worker process: cached fits and predict() against an independent evaluation of the archived forests and random-effect parameters, schedules and keep flags, and the variance traces against their full conditionals (two-stage statistical decision)."),
 "P21": ("property-based testing against a reference model, metamorphic relations and exact laws of the traces", "R bcf() called for real: every fit and prediction against an independent evaluation of the archived forests, coding and random effects, archives of several forests, and the variance and coding traces against their full conditionals (two-stage statistical decision)."),
 "P22": ("model-based property-based testing", "Independent encoder compared column by column for generated arrays and frames, subsets of rows and categories, and fit/transform histories."),
 "P23": ("model-based property-based testing", "Independent encoder compared column by column for generated R frames and matrices, role lists, row and level subsets and train/predict histories."),
 "P24": ("model-based property-based testing", "Leaf indices and kernels against leaf membership recomputed row by row from forests written by an independent generator, from forests sampled by R bart(), and (C++ interface, under ASan) from trees after edit histories."),
 "P25": ("model-based property-based testing", "A dictionary model of the Python and R archives over generated store/overwrite/save/load histories, and forests and random effects written by an independent generator whose predictions are recomputed."),
 "P26": ("round-trip property-based testing of generated files", "Generated files (line ends, headers, missing final newline, line ends placed around the 16 MB chunk boundary, wide rows) read back exactly under ASan. fast_double_parser is an empty submodule here; a strtod shim stands in."),
 "P27": ("mutation-based property-based testing of API calls", "A valid generated call is run, then the same call with exactly one contradicting argument must raise; predictions of the fitted model are compared before and after. Extra columns of prediction data frames (ignored by design) and a superfluous basis are not claimed."),
 "P28": ("model-based and distributional property-based testing", "Archived forests of generated BART and BCF fits (Python and R) are inspected for tree counts, leaf sizes, depth, cutpoints; leaf parameters are tested against the Gaussian conditional in force (two stages); tree frequencies with uninformative data against the split prior and variable weights; omitted arguments against their documented defaults, bitwise. Defaults whose documentation contradicts the signature are listed in DESIGN.md and not claimed."),
 "P04": ("round-trip and resume-equivalence property-based testing", "Bitwise predictions, structure, identical later edits, and identical continued sampling after a reload."),
}
def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in check.TASKS:
            t, n = NOTE.get(i, ("property-based testing", ""))
            checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "technique": t, "level": "exploration", "level_note": n})
        else:
            na.append({"property": i, "reason": "no check built yet (work in progress)"})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "Replay any reported violation with: python3 check.py replay <path>. Known and fixed findings: known-findings.txt."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
main()
