#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the list of properties)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("P01", "Forest prediction equals routing every row through every tree",
 "For any trees (numeric and categorical splits, scalar or vector leaves, grown and pruned in any order, missing and extreme feature values) the prediction of a forest for a row is the sum over its trees of the leaf reached by following the split rules from the root (x <= threshold goes left, category in the set goes left, missing goes left), dotted with the row's basis when the leaves are regression leaves. "
 "Raw predictions give the same sums per leaf dimension, container predictions stack one such block per retained draw, and a sub-range of trees or an offset only selects trees or shifts where the block is written. "
 "Leaf indices give, for every row and tree, the position of the reached leaf in that tree's leaf list plus the leaf counts of the preceding trees.",
 ["inputs", "histories"], "all forests reachable by expand/collapse/set-leaf sequences, all real covariate matrices incl. NaN, infinities, values equal to a threshold, negative and out-of-range categories",
 "test_predict/test_tree hold two hand-written trees and are not even built here; no test has categorical splits, missing values, several draws, offsets or vector leaves after pruning.",
 ["include/stochtree/tree.h", "src/tree.cpp", "include/stochtree/ensemble.h", "src/container.cpp"],
 [("row routing", "EvaluateTree / SplitTrueNumeric / SplitTrueCategorical in include/stochtree/tree.h"), ("ensemble prediction loops", "TreeEnsemble::PredictInplace, PredictRawInplace, PredictLeafIndicesInplace"), ("container blocks", "ForestContainer::Predict / PredictRaw")],
 ["TreeEnsemble::PredictInplace", "ForestContainer::Predict", "ForestContainer::PredictRaw"])

prop("P02", "Trees stay consistent binary trees under any edit history",
 "After any sequence of expanding leaves, collapsing subtrees, changing leaf values, resetting, cloning and reloading, the tree is a rooted binary tree whose node count, leaf list, internal-node list, leaf-parent list, depths and leaf values are exactly those implied by the sequence of edits, with node ids recycled without ever aliasing a live node. "
 "A split rule, leaf value or leaf vector set on a node stays what it was until that node itself is edited, whatever happens to other nodes.",
 ["histories"], "all sequences of edit operations on trees of any output dimension, including reuse of deleted node ids",
 "The existing tree tests apply fewer than ten fixed edits; bookkeeping errors need particular grow/prune orders and id recycling to show.",
 ["include/stochtree/tree.h", "src/tree.cpp"],
 [("node allocation and recycling", "Tree::AllocNode / DeleteNode"), ("list maintenance", "Tree::ExpandNode / ChangeToLeaf / CollapseToLeaf"), ("copies", "Tree::CloneFromTree, TreeEnsemble copy constructor")],
 ["Tree::GetLeaves", "Tree::GetLeafParents", "Tree::GetInternalNodes", "Tree::NumValidNodes", "Tree::GetDepth"])

prop("P03", "Partition trackers agree with tree routing after any history",
 "After any history of splits, prunes and resets of any trees in a tracked forest, each training row is assigned to exactly the leaf its covariates route to, and the row sets reported for the leaves of a tree partition the training rows with matching sizes. "
 "While a tree is grown from its root with the sorted tracker, each node's rows are listed for every feature in ascending order of that feature, contiguously and without loss or duplication.",
 ["histories", "inputs"], "all covariate matrices incl. ties and categorical columns, all interleavings of grow/prune/reset over several trees",
 "Tracker tests check two or three fixed splits on one tree; partition drift needs prunes followed by regrowth with recycled node ids, ties, or empty children.",
 ["include/stochtree/partition_tracker.h", "src/partition_tracker.cpp"],
 [("row to node map", "SampleNodeMapper::AddSplit, UnsortedNodeSampleTracker::UpdateObservationMapping"), ("unsorted partition", "FeatureUnsortedPartition::PartitionNode / PruneNodeToLeaf"), ("presorted partition", "FeaturePresortPartition::SplitFeature")],
 ["ForestTracker::GetNodeId", "ForestTracker::UnsortedNodeBeginIterator", "ForestTracker::SortedNodeBeginIterator"])

prop("P04", "A forest survives a JSON round trip unchanged and stays usable",
 "Writing any forest container to JSON text (in memory or through a file) and reading it back, into a fresh or an already used container, gives a container with the same draws, trees, dimensions and bitwise-equal predictions for every input. "
 "Editing or further sampling the restored container behaves exactly as it would have on the original.",
 ["inputs", "histories"], "all containers of finite leaf values and thresholds, incl. pruned trees, categorical splits, vector leaves, extreme magnitudes, zero draws; all continuations",
 "test_json compares a few small trees once, after at most one edit, and never continues editing or sampling after a load; it is not part of the buildable suite.",
 ["src/tree.cpp", "include/stochtree/ensemble.h", "src/container.cpp", "include/stochtree/container.h"],
 [("tree serialization", "Tree::to_json / from_json"), ("ensemble and container", "TreeEnsemble::to_json / from_json, ForestContainer::to_json / from_json / LoadFromJsonFile")],
 ["ForestContainer::to_json", "ForestContainer::from_json", "ForestContainer::SaveToJsonFile", "ForestContainer::LoadFromJsonFile"])

prop("P05", "Retained draws are immutable snapshots",
 "Once a draw is retained in a container, no later sampling step, further draw, root re-initialisation attempt or edit of another draw changes its trees or its predictions, and each new draw starts from a copy of the latest retained one. "
 "This holds for forests (both sampling algorithms, all leaf models) and for random-effect draws.",
 ["histories"], "all sequences of sampling steps mixing both algorithms and leaf models, all edits of other draws",
 "No existing test runs a sampler for more than a stub; aliasing between draws is invisible to single-draw checks.",
 ["src/container.cpp", "include/stochtree/container.h", "include/stochtree/ensemble.h", "include/stochtree/tree_sampler.h", "src/random_effects.cpp"],
 [("deep copy of the last draw", "ForestContainer::CopyFromPreviousSample, TreeEnsemble copy constructor"), ("tree replacement", "TreeEnsemble::ResetInitTree"), ("rfx draws", "RandomEffectsContainer::AddSample")],
 ["ForestContainer::Predict", "RandomEffectsContainer::Predict"])

prop("P06", "Outcome = residual + current fit after every sampling step",
 "After every sampling step of any forest or random-effects term sharing a residual, the residual plus the current fits of all terms equals the original outcome (up to rounding), and each cached fit equals what the latest draw of that term predicts for the training rows. "
 "Adding a whole forest's fit to, or subtracting it from, the residual changes each row by exactly that forest's prediction for that row, and refreshing a forest's contribution after its regression basis changed leaves residual plus fit unchanged. This holds for histories driven from C++, through the Python classes and through the R classes alike.",
 ["histories", "inputs"], "all interleavings of steps of several forests (both algorithms, all leaf models, weighted or not) and random-effects terms on one residual",
 "No test runs a sampler; the identity has to hold after every step of arbitrary histories, not for one hand-computed residual.",
 ["include/stochtree/tree_sampler.h", "include/stochtree/random_effects.h", "src/leaf_model.cpp", "src/py_stochtree.cpp", "src/sampler.cpp", "src/forest.cpp", "stochtree/sampler.py", "R/model.R"],
 [("partial residual updates", "UpdateResidualTree, UpdateResidualEntireForest"), ("rfx residual updates", "AddCurrentPredictionToResidual / SubtractNewPredictionFromResidual")],
 ["ColumnVector residual", "ForestTracker::GetTreeSamplePrediction", "ForestContainer::Predict"])

prop("P07", "Sampled trees respect size limits, feature weights and data support",
 "Every tree produced by either sampling algorithm has at least the configured minimum number of training rows in each leaf (unless it is a single root), splits only on features whose selection weight is non-zero, and uses only split values that separate rows present in the node being split. "
 "For any data set with at least one row and any minimum leaf size a sampling step completes: when no split is possible the tree stays a root and its leaf is still sampled.",
 ["inputs", "histories", "configurations"], "all data sets (constant, tied, negative, few rows), feature types, minimum leaf sizes, selection weights, both algorithms and all leaf models, any number of steps",
 "No existing test samples trees; violations need particular proposals, tied or negative features, or nodes near the size limit.",
 ["include/stochtree/tree_sampler.h", "src/leaf_model.cpp", "src/cutpoint_candidates.cpp"],
 [("MCMC grow/prune proposals", "MCMCForestSampler::GrowTreeOneIter / PruneTreeOneIter, VarSplitRange"), ("GFR split filter", "EvaluateAllPossibleSplits (min_samples_in_leaf, variable_weights)")],
 ["ForestContainer draws", "ForestTracker node sizes"])

prop("P08", "Leaf parameters are drawn from the exact conjugate posterior",
 "Given a tree, the residuals, optional per-row variance weights w (row variance = global variance times w) and the leaf prior, every leaf parameter is drawn from its Gaussian full conditional under that leaf's model: constant leaf, univariate regression leaf, or multivariate regression leaf with a full prior covariance. "
 "Leaves are independent given the tree, use exactly their own rows, and leaves of one tree never depend on the order of rows or nodes.",
 ["inputs"], "all residuals, bases, weights, variances, prior scales (scalar and any positive-definite matrix), trees and seeds",
 "No test covers leaf sampling; the claim is distributional and quantifies over data.",
 ["src/leaf_model.cpp", "include/stochtree/leaf_model.h", "include/stochtree/normal_sampler.h"],
 [("posterior moments", "PosteriorParameterMean / PosteriorParameterVariance"), ("draws", "SampleLeafParameters, UnivariateNormalSampler, MultivariateNormalSampler")],
 ["Tree leaf values after SampleLeafParameters"])

prop("P09", "Split scores equal the integrated Gaussian likelihood of the data",
 "For every leaf model the log score of splitting a node minus the score of not splitting it equals the log marginal likelihood ratio obtained by integrating the leaf parameters out of the Gaussian likelihood, whether the split is proposed, already in the tree, or one of all enumerated candidates. "
 "The candidate enumeration scores each (feature, cutpoint) exactly once with the rows that rule would send left, reports exactly the candidates leaving enough rows on both sides, for numeric, ordered and unordered categorical features.",
 ["inputs"], "all nodes of all trees, residuals, bases, weights, variances, prior scales and feature types",
 "test_model checks one 10-row case for the no-split score of constant leaves; nothing checks regression leaves, weights, categorical candidates or nodes below the root.",
 ["src/leaf_model.cpp", "include/stochtree/leaf_model.h", "src/cutpoint_candidates.cpp"],
 [("scores", "SplitLogMarginalLikelihood / NoSplitLogMarginalLikelihood"), ("sufficient statistics", "AccumulateSuffStatProposed / Existing / CutpointBin"), ("enumeration", "EvaluateAllPossibleSplits")],
 ["EvaluateProposedSplit", "EvaluateExistingSplit", "EvaluateAllPossibleSplits"])

prop("P10", "Cutpoint bins tile the node and separate distinct values",
 "For every node and feature the enumerated cutpoint bins are disjoint, cover all rows of the node, never separate rows with the same feature value, and each bin's cutpoint sends exactly the rows of the bins up to it to the left. "
 "With no more rows than the grid size every distinct value gets its own bin; above it there are never more bins than the grid size, and ties at a grid position do not discard the remaining candidates; categorical bins are the distinct categories, unordered ones sorted by average outcome.",
 ["inputs", "configurations"], "all feature columns (ties, constants, negatives, categories), node row subsets, grid sizes and feature types",
 "test_cutpoints covers one small matrix with a few grid sizes; failures need ties falling on grid positions or nodes below the root.",
 ["src/cutpoint_candidates.cpp", "include/stochtree/cutpoint_candidates.h"],
 [("numeric grid", "EnumerateNumericCutpointsDeduplication / ScanNumericCutpoints"), ("categorical grids", "CalculateStridesOrderedCategorical / CalculateStridesUnorderedCategorical")],
 ["CutpointGridContainer::NumCutpoints / BinStartIndex / BinLength / CutpointValue / CutpointVector"])

prop("P11", "Grow-from-root draws each split with its exact probability",
 "At each node the grow-from-root sampler picks a candidate split with probability proportional to its integrated likelihood, and stops with probability proportional to the unsplit likelihood times (number of candidates) x ((1+depth)^beta/alpha - 1); children are processed the same way. "
 "The distribution over whole trees equals the one obtained by exact enumeration of this recursion.",
 ["inputs", "configurations"], "all small data sets, priors, leaf models, feature types and seeds; law of the sampled tree",
 "The claim is about the probability law of the sampler; no test draws a tree.",
 ["include/stochtree/tree_sampler.h", "src/leaf_model.cpp"],
 [("split choice", "GFRForestSampler::SampleSplitRule"), ("no-split adjustment", "GFRForestSampler::EvaluateCutpoints")],
 ["trees after GFRForestSampler::SampleOneIter"])

prop("P12", "MCMC tree moves leave the tree posterior invariant",
 "A tree distributed according to its posterior (tree prior alpha(1+depth)^-beta with uniform cutpoints over the node's range and the configured feature weights, minimum leaf size, integrated Gaussian likelihood) is still distributed according to that posterior after any number of MCMC grow/prune steps. "
 "Consequently long-run visit frequencies of trees equal their posterior probabilities for every data set, prior setting and leaf model.",
 ["inputs", "configurations", "schedules"], "all small data sets, priors, minimum leaf sizes, feature weights and leaf models; law of the chain",
 "Invariance is a statement about the transition kernel; a wrong Metropolis-Hastings factor still yields plausible trees in any sampled run.",
 ["include/stochtree/tree_sampler.h"],
 [("acceptance ratios", "MCMCForestSampler::GrowTreeOneIter / PruneTreeOneIter"), ("move choice", "MCMCForestSampler::SampleTreeOneIter")],
 ["trees after MCMCForestSampler::SampleOneIter"])

prop("P13", "Variance parameters are drawn from their inverse-gamma conditionals",
 "Given residuals r of n rows and an IG(nu/2, nu*lambda/2) prior, the global error variance is drawn from IG((nu+n)/2, (nu*lambda + sum r^2)/2). "
 "Given a forest with L leaves mu and an IG(a/2, b/2) prior, the leaf scale is drawn from IG((a+L)/2, (b + sum mu^2)/2).",
 ["inputs"], "all residual vectors, forests, hyperparameters and seeds",
 "Nothing tests the variance samplers; a factor of two in shape or scale gives plausible positive numbers.",
 ["include/stochtree/variance_model.h", "include/stochtree/ig_sampler.h", "include/stochtree/ensemble.h", "include/stochtree/tree.h"],
 [("posterior shape and scale", "GlobalHomoskedasticVarianceModel, LeafNodeHomoskedasticVarianceModel"), ("draw", "InverseGammaSampler::Sample"), ("sum of squared leaves", "TreeEnsemble::SumLeafSquared")],
 ["SampleVarianceParameter"])

prop("P14", "Random-effect parameters are drawn from their Gibbs conditionals",
 "Given the residual, group labels, basis, and current values, the group parameters, the working parameter and the variance components of the random-effects model are each drawn from their exact full conditionals (Gaussian, Gaussian, and inverse-gamma with half the group count and half the sum of squares added to shape and scale). "
 "This holds for any labelling of the groups, any basis dimension and any row order, and for every draw of an R bart() or bcf() fit with random effects, given its forest predictions, the error variance in force and the previous draw; rfx_prior_var is the group covariance that the first bcf() draw uses.",
 ["inputs"], "all bases, labels, residuals, current parameter values, priors and seeds",
 "test_random_effects checks the group mean for one data set; variances, the working parameter, variance components and draws are untested.",
 ["src/random_effects.cpp", "include/stochtree/random_effects.h", "R/bart.R", "R/bcf.R", "R/random_effects.R"],
 [("conditional moments", "GroupParameterMean/Variance, WorkingParameterMean/Variance, VarianceComponentShape/Scale"), ("draws", "SampleGroupParameters / SampleWorkingParameter / SampleVarianceComponents")],
 ["MultivariateRegressionRandomEffectsModel getters after sampling"])

prop("P15", "Random-effect draws, labels and predictions stay attached to their group",
 "For arbitrary integer group labels in any order, the row sets, sizes and internal numbers of the groups partition the rows consistently, and the prediction of every retained draw for any labelled data set is the row's basis times that draw's working parameter and its own group's parameters. "
 "Retained draws, label maps and predictions are unchanged by a JSON round trip into fresh or used objects.",
 ["inputs", "histories"], "all label vectors (negative, sparse, unsorted, singleton groups, last-row groups), bases, draw histories",
 "Tests use labels 1..3 in blocks on one data set; singletons, a new last group and unsorted negative labels are never tried.",
 ["include/stochtree/category_tracker.h", "include/stochtree/random_effects.h", "src/random_effects.cpp"],
 [("label to group map", "CategorySampleTracker, LabelMapper"), ("draw storage and prediction", "RandomEffectsContainer::AddSample / Predict / to_json / from_json")],
 ["CategorySampleTracker accessors", "RandomEffectsContainer::Predict", "LabelMapper::CategoryNumber"])

prop("P16", "Data handed to the library is the data it uses",
 "For any matrix or vector handed over (row- or column-major, any memory layout or numeric dtype accepted by the Python and R interfaces), every element the library reads back equals the element the caller sees at that row and column, and later changes to the caller's buffer do not affect the stored copy. "
 "Updating a basis replaces exactly the basis and leaves covariates, weights and outcome untouched.",
 ["inputs"], "all shapes, dtypes, strides (transposed, sliced, reversed, broadcast views), orders and basis updates",
 "test_data reads a few fixed row-major arrays; strided or transposed views and integer inputs are not tried.",
 ["src/data.cpp", "include/stochtree/data.h", "stochtree/data.py", "src/py_stochtree.cpp", "src/R_data.cpp"],
 [("copy loops", "ColumnMatrix::LoadData, ForestDataset::UpdateBasis"), ("binding adapters", "ForestDatasetCpp::AddCovariates, stochtree/data.py, src/R_data.cpp")],
 ["ForestDataset::CovariateValue / BasisValue / VarWeightValue", "predictions of known trees through the bindings"])

prop("P17", "Same seed and inputs give the same draws",
 "Running the same sequence of sampling calls with the same seed on the same data gives identical forests, variances, random effects and predictions, across processes and across the C++, Python and R entry points that wrap the same core calls. "
 "The result does not depend on other models built, sampled or discarded in the same process. Another seed gives other draws, and fits without a seed (random_seed omitted or -1) draw fresh random numbers each time.",
 ["histories", "configurations"], "all model configurations and seeds; interleavings with other models in one process",
 "No existing test runs a sampler twice; nondeterminism shows only across repeated runs or interleavings.",
 ["include/stochtree/tree_sampler.h", "src/py_stochtree.cpp", "src/sampler.cpp", "stochtree/bart.py", "stochtree/bcf.py"],
 [("explicit generator", "std::mt19937 passed through every sampler"), ("seeding", "RngCpp in src/py_stochtree.cpp, rng_cpp in src/sampler.cpp")],
 ["forest JSON", "sigma2 and prediction arrays"])

prop("P18", "Python BART: stored draws, predictions and sampling schedule agree",
 "For any accepted BARTModel.sample call, predicting on the training (test) inputs reproduces the cached training (test) predictions draw by draw, the retained draws are exactly the post-burn-in MCMC draws (or the grow-from-root draws when none, or with keep flags the requested ones in order), and variance and leaf-scale traces line up with the same draws. "
 "Predictions are on the original outcome scale: sample means move with an affine change of the outcome.",
 ["inputs", "configurations"], "all combinations of numeric/categorical covariates, leaf bases, test sets, draw counts and keep flags, variance sampling switches and seeds",
 "No Python test constructs a model; agreement must hold for every configuration of the sampler.",
 ["stochtree/bart.py", "stochtree/preprocessing.py", "src/py_stochtree.cpp"],
 [("sampling loop and index selection", "BARTModel.sample"), ("prediction", "BARTModel.predict")],
 ["BARTModel.y_hat_train", "BARTModel.y_hat_test", "BARTModel.predict", "global_var_samples", "leaf_scale_samples"])

prop("P19", "Python BCF: outcome fit decomposes as prognostic + effect x treatment",
 "For any accepted BCFModel.sample call the fitted outcome of every retained draw equals the prognostic term plus the treatment-effect term times the treatment for every row, predicting on the training (test) inputs reproduces the cached training (test) values of all three, and the retained draws follow the burn-in and keep flags. "
 "With adaptive coding the reported treatment effect is the difference between the fitted outcome at treatment one and at treatment zero. While sampling, each forest is drawn against the outcome minus the current fit of the rest of the model, and covariates excluded from a forest are never split on by it.",
 ["inputs", "configurations"], "all treatments (binary, continuous), propensity settings, coding choices, test sets, draw counts, keep flags, seeds",
 "No Python test constructs a BCF model; the identity spans two forests, propensity handling and coding parameters.",
 ["stochtree/bcf.py", "stochtree/bart.py"],
 [("sampling loop", "BCFModel.sample"), ("prediction", "BCFModel.predict / predict_tau")],
 ["BCFModel.y_hat_train", "BCFModel.mu_hat_train", "BCFModel.tau_hat_train", "BCFModel.predict"])

prop("P20", "R bart(): cached fits, predict() and retained draws agree",
 "For any accepted bart() call (with or without leaf basis, random effects, test set, grow-from-root, burn-in, keep flags) predict() on the training inputs reproduces the training fit of the returned model draw by draw, predict() on the test inputs reproduces the cached test predictions, and the fit is the forest prediction plus the random-effect prediction. "
 "The number of returned draws and the variance traces match the requested schedule.",
 ["inputs", "configurations"], "all covariate frames (numeric, ordered, unordered), bases, group labels, draw schedules and seeds",
 "R tests cover only data preprocessing; bart() is never run.",
 ["R/bart.R", "R/random_effects.R", "R/utils.R", "src/sampler.cpp", "src/forest.cpp", "src/R_random_effects.cpp"],
 [("sampling loop and index selection", "bart in R/bart.R"), ("prediction", "predict.bartmodel, getRandomEffectSamples.bartmodel")],
 ["bart()$y_hat_train", "predict.bartmodel"])

prop("P21", "R bcf(): fits decompose and match predict()",
 "For any accepted bcf() call the outcome fit of every retained draw equals prognostic plus treatment-effect times treatment plus random effects for every row, and predict() on training (test) inputs reproduces the training (test) values of each term. "
 "The retained draws and variance traces follow the requested schedule.",
 ["inputs", "configurations"], "all treatments, propensity settings, random effects, coding choices, schedules and seeds",
 "R tests cover only data preprocessing; bcf() is never run.",
 ["R/bcf.R", "R/random_effects.R", "R/utils.R"],
 [("sampling loop", "bcf in R/bcf.R"), ("prediction", "predict.bcf")],
 ["bcf()$y_hat_train", "bcf()$mu_hat_train", "bcf()$tau_hat_train", "predict.bcf"])

prop("P22", "Python covariate preprocessing encodes every column faithfully and stably",
 "For any numpy array or pandas data frame the transformer maps numeric columns to themselves, ordered categories to their rank, and unordered categories to exactly one indicator per training category, with feature types and variable origins that match the output columns; values never seen in training are rejected, not encoded, and columns of unsupported types are left out with a warning. "
 "Transforming new data applies exactly the training encoding row by row, whatever rows or category subset it contains, and refitting replaces the earlier fit.",
 ["inputs", "histories"], "all column mixes (int, float, bool, ordered, unordered, single category, single row), new data with subsets of categories, fit/transform sequences",
 "test_preprocessor has a handful of fixed frames; single-row, single-category, integer columns and refits are not covered.",
 ["stochtree/preprocessing.py"],
 [("fit", "CovariateTransformer._fit_pandas / _fit_numpy"), ("transform", "CovariateTransformer._transform_pandas / _transform_numpy")],
 ["CovariateTransformer.fit_transform / transform"])

prop("P23", "R covariate preprocessing encodes every column faithfully and stably",
 "For any data frame or matrix the R preprocessing maps numeric columns to themselves, ordered factors to their rank and unordered factors to indicator columns for the training levels, and applying the stored metadata to new data gives the same encoding row by row regardless of which rows or levels the new data contains. "
 "Feature types and original-variable indices have one entry per output column and match it.",
 ["inputs", "histories"], "all mixes of numeric, integer, ordered and unordered columns, level subsets, row subsets, explicit column role lists",
 "The R tests hold a few fixed frames; row-wise stability over arbitrary new data is not checked.",
 ["R/utils.R"],
 [("training metadata", "preprocessTrainData / preprocessTrainDataFrame / preprocessTrainMatrix"), ("prediction encoding", "preprocessPredictionData, oneHotEncode, oneHotInitializeAndEncode")],
 ["preprocessTrainData", "preprocessPredictionData"])

prop("P24", "R forest kernels and leaf indices count shared leaves",
 "For any forest draw and covariates the reported leaf indices identify, per tree, rows that fall in the same leaf, and every kernel entry is the number (or the stated proportion) of trees in which the two rows share a leaf. "
 "Kernels between training and test rows use the same forest and row order as supplied.",
 ["inputs"], "all forests (numeric/categorical), covariates, several draws, train/test pairs",
 "Kernels are not tested at all.",
 ["src/kernel.cpp", "include/stochtree/kernel.h", "R/kernel.R", "include/stochtree/ensemble.h"],
 [("leaf indices", "TreeEnsemble::PredictLeafIndicesInplace"), ("kernel assembly", "ForestKernel::ComputeKernel")],
 ["computeForestKernels", "computeForestLeafIndices"])

prop("P25", "Python and R model archives return what was stored",
 "For any sequence of stored scalars, booleans, strings, numeric and string vectors (in or out of subfolders), forests and random-effect objects, reading a field back from the archive (in memory or after saving to and loading from a file) returns the value stored last under that name with the same type and length, and no other field is changed. "
 "Stored forests and random-effect draws come back with identical predictions and under their own labels when several are stored.",
 ["inputs", "histories"], "all field names, values (extremes, empty and length-one vectors, unicode), store orders and overwrite sequences",
 "test_json covers one value per type in Python; R archives, overwrites, subfolders, and several forests are not tested.",
 ["stochtree/serialization.py", "R/serialization.R", "src/serialization.cpp", "src/py_stochtree.cpp"],
 [("typed fields", "JsonCpp in src/py_stochtree.cpp, json_add_* / json_extract_* in src/serialization.cpp"), ("forests and rfx", "add_forest / add_random_effects")],
 ["JSONSerializer getters", "CppJson getters", "loadForestContainerJson", "loadRandomEffectSamplesJson"])

prop("P26", "Delimited files load as the numbers they contain",
 "For any well-formed delimited text file (with or without header, LF or CRLF line ends, with or without a final newline, any size including lines crossing the reader's buffer boundary) the loaded outcome and covariates are exactly the numbers written in the file, row by row and column by column. "
 "Reading never goes outside its buffers and line counts equal the number of data lines.",
 ["inputs"], "all file contents built from numeric fields: separators, line ends, sizes around the 16 MB chunk boundary, trailing newline or not",
 "test_data loads a few tiny arrays from memory; the file reader's chunking is never exercised.",
 ["include/stochtree/io.h", "src/io.cpp", "include/stochtree/common.h"],
 [("chunked line reader", "TextReader::ReadAllAndProcess / CountLine in include/stochtree/io.h"), ("parsing", "CSVParser in src/io.cpp, Common::AtofPrecise")],
 ["TextReader::Lines", "Parser::ParseOneLine"])

prop("P27", "Model inputs that disagree are rejected and leave the model as it was",
 "bart() / BARTModel, bcf() / BCFModel and their predict() raise an error, and answer nothing, whenever one argument contradicts the rest of the call or the fitted model: outcome, covariates, basis, treatment, propensities, group labels or random-effect bases with different numbers of rows; covariates, basis or treatment with another number of columns than in training; a basis, treatment, propensity or group label that the training call had and the test or prediction call lacks; "
 "random-effect groups unseen in training; arguments of the wrong type; keep/drop variables that do not exist; negative variable weights; BCF prior parameters, counts or flags outside their documented range; a request for no draws; and prediction before sampling (NotSampledError in Python). A rejected prediction leaves a fitted model predicting exactly as before, and a rejected sample() leaves an unfitted model unfitted.",
 ["inputs", "histories"], "all valid calls with any one argument replaced by a contradicting one, at sampling and at prediction, on fresh and fitted models, in Python and R",
 "The tests only ever make consistent calls; the C++ core trusts the shapes it is given, so a missing check reads outside a buffer or answers silently.",
 ["stochtree/bart.py", "stochtree/bcf.py", "R/bart.R", "R/bcf.R"],
 [("Python checks", "Data checks blocks of BARTModel.sample / predict, BCFModel.sample / predict / predict_tau"), ("R checks", "stop() guards in bart, bcf, predict.bartmodel, predict.bcf")],
 ["exceptions raised by sample / predict", "predictions after a rejected call"])

prop("P28", "Model hyperparameters act as documented",
 "In every retained draw of BART and BCF (Python and R) each forest has exactly its requested number of trees, no leaf holds fewer training rows than its min_samples_leaf, split-prior extremes bind (alpha near 0: no splits; huge beta: depth at most one) for that forest alone, grow-from-root splits at the root use at most cutpoint_grid_size cutpoints per numeric feature, and variances that are not to be sampled stay fixed and have no trace. "
 "Leaf parameters of each forest follow the Gaussian full conditional given its trees, the other terms, and the error variance and leaf scale (scalar or matrix, supplied, default or sampled) in force at that step. When leaf values are pinned near zero, so that the data say nothing, each forest's retained trees follow its own split prior: a node at depth d splits with probability alpha(1+d)^-beta under both algorithms, and under MCMC the split variable has the requested variable weights (shared equally by the columns of an expanded factor, zero for excluded variables). Leaving a documented argument out gives bitwise the same fit as passing its documented default.",
 ["inputs", "configurations", "histories"], "all hyperparameter combinations, schedules, data and seeds",
 "No test looks at whether a hyperparameter reaches the forest it is meant for; wrong plumbing (the prognostic value used for treatment, a default ignored, a phase that restarts the variance) leaves plausible fits.",
 ["stochtree/bart.py", "stochtree/bcf.py", "R/bart.R", "R/bcf.R", "src/py_stochtree.cpp", "src/sampler.cpp"],
 [("parameter plumbing", "BARTModel.sample, BCFModel.sample, bart, bcf"), ("sampler entry points", "ForestSamplerCpp::SampleOneIteration, sample_gfr_one_iteration_cpp / sample_mcmc_one_iteration_cpp")],
 ["archived forests of a fitted model", "global_var_samples / leaf scale traces", "bart() / bcf() return values"])

json_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(json_path, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
