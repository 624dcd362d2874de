"""Writes /verif/properties.jsonl (run once after editing; the file is committed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = obs or ["return values of the public API"]
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

A = "dattri/algorithm/"; F = "dattri/func/"; B = A + "block_projected_if/"
p("C01", "TracIn family scores are the weighted sum of per-sample gradient products",
  "For every model, loss and data, the score of training sample i on test sample j equals the sum over checkpoints of the checkpoint's weight times the inner product of the two per-sample gradients at that checkpoint (unit-normalised when normalisation is on, randomly projected with the same matrix on both sides when projection is on, restricted to the named layers when layers are given). The matrix does not depend on how the loaders cut the data into batches, on whether checkpoints are given as dictionaries or as a list, or on earlier calls.",
  ["inputs", "configurations", "histories"], "all parameter values, all training/test samples, all weights and loss coefficients; every batch split, checkpoint list, layer selection, projection/normalisation setting and call history within the stated sizes",
  "Unit tests call the attributor on a few random datasets and mostly compare shapes; no test compares every entry with the defining formula, for all gradient values and batch splits.",
  [A + "tracin.py", "dattri/task.py", F + "utils.py"], [("per-batch products and placement", A + "tracin.py:69"), ("per-sample gradient function", "dattri/task.py:216")])
p("C02", "Self-attribution equals the diagonal of train-versus-train attribution",
  "For every attributor that offers self-attribution (TracIn family, influence functions, TRAK), the i-th self-attribution score equals the score of training sample i on itself that attribution would return when the test set is the training set (for TracIn and TRAK, whose self-scores use the loss on both sides, when the target function is the loss). This holds for every number of batches, checkpoints and every normalisation, projection and regularisation setting.",
  ["inputs", "configurations", "histories"], "all parameter values, data, weights; every batch split and checkpoint count within the stated sizes",
  "The tests only run self-attribution with one dataset split and check the shape or a few numbers; the diagonal identity for all values and batch splits is not tested.",
  [A + "base.py", A + "tracin.py", A + "trak.py", B + "block_projected_if.py"], [("base self-attribution", A + "base.py:454"), ("TracIn self-attribution", A + "tracin.py:260"), ("TRAK self-attribution", A + "trak.py:398"), ("block-projected self-attribution", B + "block_projected_if.py:610")])
p("C03", "TRAK scores follow the ensemble formula, cached or not, for every batching",
  "TRAK's score of training sample i on test sample j equals the mean over checkpoints of the test features times the regularised inverse Gram matrix of the training features times training feature i, multiplied by the mean over checkpoints of one minus the training sample's correctness probability, where features are projected per-sample gradients divided by the square root of the parameter count. Caching the training set first and passing it to attribution give the same scores, whatever the batch split, and repeated calls return the same scores.",
  ["inputs", "configurations", "histories"], "all parameters, data, probabilities, positive regularisation; batch splits, 1..2 checkpoints, cached/uncached, repeated calls",
  "Tests compare cached with uncached on one random dataset with a loose tolerance and do not compare with the formula.",
  [A + "trak.py", F + "projection.py"], [("cache", A + "trak.py:105"), ("attribute", A + "trak.py:207")], [("inv_XTX_XT_list / Q", "per-checkpoint cached training state", A + "trak.py:105")])
p("C04", "Task parameter and gradient views are consistent and free of side effects",
  "For every checkpoint index and layer selection, the flattened parameters a task returns are exactly that checkpoint's values in model order, or in the listed order for a layer selection (the layer-wise split and unflattening invert the flattening), and its loss, target and gradient functions evaluate the user function at exactly the parameters passed in, with unnamed layers taken from the requested checkpoint. Evaluating any of these functions at other parameters, or loading another checkpoint, never changes what later calls return for a given checkpoint.",
  ["inputs", "configurations", "histories"], "all parameter values and loss coefficients; every layer subset, checkpoint index and order of calls up to the stated length",
  "Tests evaluate one call on one model; histories of calls (evaluate elsewhere, then read the parameters) and all values are not covered.",
  ["dattri/task.py", F + "utils.py"], [("parameter access", "dattri/task.py:388"), ("flattening", F + "utils.py:152"), ("partial parameters", F + "utils.py:277")], [("named_parameters", "current parameters of the loaded checkpoint", "dattri/task.py:160")])
p("C05", "Hessian-vector products equal the Hessian times the vector, plus damping",
  "For every twice differentiable scalar function, differentiation argument, point and vector, the Hessian-vector product equals the true Hessian at that point times the vector plus the regularisation times the vector. Both differentiation modes and the fixed-point variant give the same result, for one vector or a batch of vectors.",
  ["inputs", "configurations"], "all coefficients of a cubic family of functions with several arguments, all points, vectors, regularisation values",
  "Tests compare with one analytic function at random points; other arguments positions, shapes and modes are sampled once.",
  [F + "hessian.py"], [("hvp", F + "hessian.py:52"), ("hvp_at_x", F + "hessian.py:137")])
p("C06", "Explicit and conjugate-gradient inverse HVPs solve the damped Hessian system",
  "For every point where the damped Hessian is invertible, the explicit inverse Hessian-vector product multiplied by the damped Hessian gives back each input vector; conjugate gradient run for as many iterations as there are parameters returns the same solution when the damped Hessian is positive definite. Each row of a batch of vectors is solved independently of the others and the fixed-point variants agree with the general ones.",
  ["inputs", "configurations"], "all cubic-family coefficients, points, vectors and regularisation with 1..3 parameters, 1..3 vectors",
  "Tests check one function and random vectors numerically with loose tolerances.",
  [F + "hessian.py"], [("ihvp_explicit", F + "hessian.py:224"), ("ihvp_cg", F + "hessian.py:330"), ("at_x variants", F + "hessian.py:275")])
p("C07", "LiSSA follows its stochastic recursion for every sampling and setting",
  "The LiSSA estimate equals, for every draw of mini-batches, the average over repetitions of the recursion that starts at the vector and at each step adds the vector, shrinks the estimate by the damping and subtracts the sampled batch's regularised Hessian-vector product divided by the scaling, finally divided by the scaling. Every sampled mini-batch has the configured batch size, the number of repetitions and recursion steps are the configured ones, and the fixed-point variant is the same computation.",
  ["inputs", "configurations", "schedules"], "all data, points, vectors, damping/scaling values and every mini-batch draw for the stated recursion depth, repeats and batch sizes",
  "Tests run many iterations on one problem and compare with the explicit solution at 10% tolerance; exchanged settings or a wrong damping go unnoticed.",
  [F + "hessian.py"], [("ihvp_lissa", F + "hessian.py:835"), ("ihvp_at_x_lissa", F + "hessian.py:931"), ("batch sampling", F + "hessian.py:751")])
p("C08", "Influence-function scores equal gradient, inverse-curvature, gradient products",
  "For every influence-function attributor, the score of training sample i on test sample j is the mean over checkpoints of training gradient i times the method's inverse-curvature transform of test gradient j (summed over the batches of the full training loader), divided when a relative-influence option is selected by the documented per-training-sample norm. For a cached full training set the matrix does not depend on the batch split of the training or test loader, nor on earlier calls.",
  ["inputs", "configurations", "histories"], "all parameters, data and regularisation; batch splits, checkpoint counts, layer selections, relative-influence options, explicit / conjugate-gradient / LiSSA variants",
  "The influence-function tests only check that shapes agree or that CG approximates explicit on one dataset.",
  [A + "base.py", A + "influence_function.py"], [("attribute", A + "base.py:290"), ("transforms", A + "influence_function.py:81"), ("denominators", A + "influence_function.py:134")])
p("C09", "Fisher and DataInf inverse products equal their closed forms",
  "The explicit inverse Fisher-vector product multiplied by the outer product of the function's gradient with itself plus the regularisation times the identity gives back each vector, and the fixed-point variant agrees. The DataInf transform equals, layer by layer over the selected layers, the average over the cached training samples of the inverse of that sample's gradient outer product plus regularisation, applied to the layer's part of each test gradient, and scores combine all layers.",
  ["inputs", "configurations"], "all per-sample gradients, vectors, positive regularisation; layer subsets and batch splits within the sizes",
  "Tests compare one random problem against a numerical inverse; layer selections and splits are not tested.",
  [F + "fisher.py", A + "influence_function.py"], [("ifvp_explicit", F + "fisher.py:29"), ("DataInf transform", A + "influence_function.py:734")])
p("C10", "EK-FAC covariances, eigenvalue corrections and inverse product are exact",
  "The accumulated input and output-gradient covariances of every layer equal the averages over all samples of the data (summed over sequence positions) whatever the batch split, and the corrected eigenvalues equal the average squared projection of the per-sample gradients on the Kronecker eigenbasis. The transform of a gradient equals its image under the inverse of the damped matrix built from that eigenbasis and those corrected eigenvalues.",
  ["inputs", "configurations"], "all layer inputs, output gradients, masks, batch splits and damping within the sizes; the eigenbasis the decomposition returns",
  "Tests check one random batch against a dense computation; split batches, masks, several layers and non-symmetric bases are not covered.",
  [F + "fisher.py", A + "influence_function.py"], [("covariance", F + "fisher.py:239"), ("lambda", F + "fisher.py:301"), ("transform", A + "influence_function.py:1021")])
p("C11", "Arnoldi eigenspaces give the low-rank inverse and projection they define",
  "For every Hessian and starting vector, the Arnoldi iteration returns orthonormal vectors spanning the Krylov space, the eigenpairs kept are those of largest magnitude of the Hessian restricted to that space, and the inverse product is the sum over kept pairs of the projection on the eigenvector divided by the (regularised) eigenvalue. The Arnoldi projector and the Arnoldi influence attributor give, for each pair of samples, the same bilinear form as the corresponding low-rank inverse (over those kept pairs whose eigenvalue is positive), for every requested dimension.",
  ["inputs", "configurations", "schedules"], "all Hessians and starting vectors up to size 3, every number of iterations and kept dimensions within it",
  "Tests compare with explicit inverses on one quadratic function with full dimension.",
  [F + "hessian.py", F + "projection.py", A + "influence_function.py"], [("ihvp_arnoldi", F + "hessian.py:497"), ("ArnoldiProjector", F + "projection.py:832"), ("IFAttributorArnoldi", A + "influence_function.py:320")])
p("C12", "A random projection is one fixed linear map per seed and ensemble member",
  "For a given seed, ensemble member, type and size, projecting is the multiplication by one fixed matrix with independent entries of the requested distribution: rows are projected independently of batch size and of what was projected before or on which ensemble member, dictionaries of parameters give the same result as their flattening, and different ensemble members or blocks use different draws. Identity returns the input and random masks return the selected coordinates.",
  ["inputs", "configurations", "histories"], "all feature values and all generator outputs; batch sizes, block sizes, ensemble members, orders of calls within the sizes",
  "Tests check output shapes, and determinism on one random batch.",
  [F + "projection.py", "dattri/params/projection.py"], [("BasicProjector", F + "projection.py:200"), ("random_project", F + "projection.py:1274"), ("CudaProjector", F + "projection.py:396")])
p("C13", "Chunked parameter handling covers every parameter exactly once",
  "For every set of parameter sizes and every limit, the chunk sizes computed for a model add up to its parameter count and no chunk exceeds the limit unless a single parameter does, and projecting a dictionary of gradients chunk by chunk equals the sum of the chunks' own projections over a split that uses every coordinate exactly once, in order. Vectorising a dictionary of batched gradients is independent of preallocation and keeps coordinates in parameter order.",
  ["inputs", "configurations"], "all parameter sizes up to the bound (symbolic integers), all limits, all gradient values",
  "Tests use one model and one limit; boundary cases where a parameter exactly fills or exceeds a chunk are never reached.",
  [F + "projection.py", F + "utils.py"], [("chunk sizes", F + "utils.py:93"), ("dict_project", F + "projection.py:718"), ("vectorise", F + "utils.py:20")])
p("C14", "Representer-point scores are the representer decomposition of the final layer",
  "For every trained final layer, feature and label, the representer-point score of training sample i on test sample j is the derivative-of-loss weight of sample i at the class asked for, scaled by one over twice the regularisation strength, times the inner product of their final-layer inputs, identically for every batch split. At a stationary point of the regularised final-layer objective these contributions add up to the final layer's output on the test sample, up to one constant factor.",
  ["inputs", "configurations"], "all features, labels, final-layer weights and regularisation; batch splits; linear and nonlinear task settings within the sizes",
  "Tests check shapes and one correlation on random data.",
  [A + "rps.py", A + "utils.py"], [("attribute", A + "rps.py:101"), ("weights", A + "utils.py:170")])
p("C15", "KNN-Shapley returns the exact Shapley values of the K-nearest-neighbour utility",
  "For every order of distances, labels and K, the score of each training sample on each test sample is its exact Shapley value in the game whose worth of a coalition is the number of the K nearest coalition members sharing the test label, divided by K. In particular the values of one test sample add up to the worth of the full training set, and neither batch split nor ordering of the training set changes a sample's value.",
  ["inputs", "configurations"], "all distance matrices (every strict order), all labels, K from 1 to beyond the training size, batch splits within the sizes",
  "Tests check shape and one tiny example with one K.",
  [A + "data_shapley.py"], [("attribute", A + "data_shapley.py:94")])
p("C16", "Evaluation metrics equal their definitions for every score and ground truth",
  "The linear datamodeling score is the Spearman rank correlation, per test sample, between the ground-truth outputs of the subsets and the sum of the scores of the samples in each subset; the leave-one-out correlation correlates scores with ground truth per test sample; the mislabel-detection area is the area under the curve of detecting the flagged samples in order of score. All are unchanged by any strictly increasing transformation that preserves the order of the compared quantities, by relabelling of samples applied to all arguments, and take no other sample into account.",
  ["inputs", "configurations"], "all score matrices and ground truths with distinct compared values, all subset index matrices within the sizes",
  "Tests compare with one precomputed example.",
  ["dattri/metric/metrics.py"], [("lds", "dattri/metric/metrics.py:17"), ("loo_corr", "dattri/metric/metrics.py:78"), ("mislabel AUC", "dattri/metric/metrics.py:132")])
p("C17", "Retraining and ground truth pair every model with its own training subset",
  "Subset retraining trains each model on exactly the sampled indices that the returned and stored records list for it, the number and fraction of samples are those asked for, and splitting the work over several start positions yields the same subsets as one run. The ground truth computed from the directory reports, at each position, the target evaluated with the model trained for that position (averaged over its repetitions; with the sign flipped for the linear datamodeling ground truth) together with that model's removed index or subset.",
  ["inputs", "configurations", "histories"], "all data and target values, subset counts, fractions, runs per subset, start positions, removed indices within the sizes",
  "Tests retrain one tiny configuration and check that files exist.",
  ["dattri/model_util/retrain.py", "dattri/metric/ground_truth.py"], [("retrain_lds", "dattri/model_util/retrain.py:150"), ("retrain_loo", "dattri/model_util/retrain.py:40"), ("ground truths", "dattri/metric/ground_truth.py:37")])
p("C18", "Brittleness returns the smallest searched removal that flips the prediction",
  "The brittleness search removes, for each candidate count, exactly that many training samples with the highest scores for the test sample, retrains on exactly the remaining ones, and returns the smallest candidate count (whatever order the candidates are given in) whose retrained models flip the original prediction, or nothing when none does. The result depends only on the ranking of the scores and on the predictions.",
  ["inputs", "schedules"], "all score vectors and all prediction outcomes for each retraining, all search settings within the sizes",
  "Tests run one configuration in which a flip may or may not occur.",
  ["dattri/metric/britteness.py"], [("brittleness", "dattri/metric/britteness.py:20")])
p("C19", "Data and model helpers change exactly what they say",
  "Label flipping changes exactly the labels it reports, each to a different label from the label space, and leaves all others and the caller's data unchanged; a subset sampler yields exactly its indices in order; activating dropout puts exactly the dropout layers whose name contains one of the given names into training mode with the given probability and refuses a name that belongs to another kind of layer; the final-layer hook returns the true input and output of the final layer and leaves the model unchanged.",
  ["inputs", "configurations"], "all labels, label spaces, random draws, index lists, layer selections, inputs within the sizes",
  "Tests sample one flip fraction and one model.",
  ["dattri/benchmark/utils.py", "dattri/model_util/dropout.py", "dattri/model_util/hook.py"], [("flip_label", "dattri/benchmark/utils.py:35"), ("SubsetSampler", "dattri/benchmark/utils.py:83"), ("activate_dropout", "dattri/model_util/dropout.py:15"), ("get_final_layer_io", "dattri/model_util/hook.py:18")])
p("C20", "Block-projected influence scores equal the per-layer preconditioned products",
  "For the block-projected attributors the score of training sample i on test sample j is the sum over layers of training sample i's compressed gradient times the inverse of the damped empirical Fisher matrix of that layer's compressed gradients times test sample j's compressed gradient (without the inverse when no preconditioner is chosen). The scores and self-attributions do not depend on the batch split, on where intermediate results are kept (device, host memory or disk), nor on whether they are computed in one call or from cached parts, nor on data cached earlier; test gradients are those of the task's target function, training gradients those of its loss.",
  ["inputs", "configurations", "histories"], "all parameters, data and compressor draws; batch splits, offload targets, hessian options, damping within the sizes",
  "Tests compare a few configurations on one dataset with shapes only.",
  [B + "block_projected_if.py", A + "logra.py", A + "factgrass.py"], [("cache", B + "block_projected_if.py:208"), ("preconditioners", B + "block_projected_if.py:326"), ("inverse products", B + "block_projected_if.py:440"), ("attribute", B + "block_projected_if.py:685")])
p("C21", "Gradient capture yields exact compressed gradients and leaves the model intact",
  "While capture is active, the model's outputs and input gradients are exactly those without it, and each layer's captured row for a sample equals the layer's compression applied to that sample's true gradient with respect to weight and bias, for two- and three-dimensional inputs. After capture is removed the model behaves and differentiates exactly as before.",
  ["inputs", "configurations", "histories"], "all weights, inputs, loss gradients and compressor draws; batch sizes, sequence lengths, with and without bias, within the sizes",
  "Tests compare one random batch for one model.",
  [B + "core/hook.py", B + "core/compressor.py"], [("backward", B + "core/hook.py:93"), ("compressed gradient", B + "core/hook.py:159"), ("compressors", B + "core/compressor.py:122")])
p("C22", "Stored per-batch data come back intact, for the right batch and sample rows",
  "Whatever is stored for a batch and layer (gradients, preconditioners, inverse products) is returned unchanged for that batch and layer by every storage back end, chunk size and loading order, also after reopening the directory; nothing is returned for what was not stored, in particular no training gradients in the place of test gradients. The mapping from batches to global sample rows partitions the samples in batch order.",
  ["inputs", "configurations", "histories"], "all stored values, batch sizes, layer dimensions, chunk sizes, batch ranges, orders of storing and reading within the sizes",
  "Tests store a couple of batches with the default chunk size and read them back in the same order.",
  [B + "offload/cpu.py", B + "offload/memory.py", B + "offload/disk.py", B + "offload/disk_io/manager.py", B + "offload/disk_io/memory_map.py", B + "offload/disk_io/prefetch_dataset.py", B + "core/metadata.py"], [("store/retrieve", B + "offload/disk_io/manager.py:437"), ("chunk files", B + "offload/disk_io/memory_map.py:24"), ("prefetching reader", B + "offload/disk_io/prefetch_dataset.py:35"), ("row mapping", B + "core/metadata.py:175")])
p("C23", "Data-value embeddings equal the unrolled effect of each sample on the trajectory",
  "For every recorded training trajectory, a sample's embedding at a step is its gradient times the learning rate over the batch size, transported to the end of training by the product over all later steps of the identity minus the step's scaled sum of gradient outer products; its score on a test sample is the inner product with the test gradient at the final parameters, per epoch or summed over epochs. Capturing layer-wise factors during training instead of full gradients, and projecting them, gives the same embeddings that full (equally projected) gradients give. Recording changes neither the parameters nor their gradients, and an earlier trajectory leaves no trace in the next one's embeddings.",
  ["inputs", "configurations", "histories"], "all gradients, learning rates, batch compositions; up to 4 steps over 3 epochs, every batch order and index assignment within the sizes",
  "Tests run one small training loop and check shapes and one approximate comparison.",
  [A + "dvemb.py"], [("embedding recursion", A + "dvemb.py:704"), ("gradient capture", A + "dvemb.py:308"), ("attribute", A + "dvemb.py:823")])
p("C24", "Asynchronous disk writes never lose, duplicate or expose partial data",
  "For every interleaving of the background writers with storing, finalising, waiting and reading, once finalising or waiting has returned, every stored batch is completely on disk and readable with the values last stored. Waiting always returns, also when a write fails, in which case the failure is reported.",
  ["schedules", "fault_sequences"], "all interleavings of one caller and up to two writer threads over the stated operation sequences, with any one write failing",
  "Tests exercise whatever interleaving the machine produces and never a failing write.",
  [B + "offload/disk_io/manager.py"], [("write worker", B + "offload/disk_io/manager.py:346"), ("finalise", B + "offload/disk_io/manager.py:695"), ("wait", B + "offload/disk_io/manager.py:968")])
p("C25", "Calls without a meaningful answer are refused or announced, no others are",
  "A call whose arguments have no meaningful answer is refused with an error before anything is computed or changed (as many TracIn weights as checkpoints; a training loader for TRAK exactly when it was not cached, and never both; scores that need a cache before caching; unknown methods, projections, storages or modes; arguments whose numbers of rows or labels do not match; projections that are not a square where one is needed; loaders that shuffle where the order decides), or, where documented, carried out with a warning (shuffled loaders, no cached training data, samples left over). Every other call is carried out without an error and without such a warning, also after a refused one.",
  ["inputs", "configurations", "histories"], "every combination of the listed argument choices (numbers of checkpoints, weights, samples, labels and projection sizes; names; shuffling; cached or not), as symbolic integers and choices",
  "Tests never make a refused call and never look at warnings.",
  [A + "base.py", A + "tracin.py", A + "trak.py", A + "utils.py", A + "influence_function.py", B + "block_projected_if.py", "dattri/func/hessian.py", "dattri/model_util/dropout.py"], [("weights", A + "tracin.py:110"), ("loader guard", A + "trak.py:200"), ("shuffle check", A + "utils.py:15")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
