#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe))))

p("C01", "A data table behaves as an insertion-ordered finite map under every operation",
  "Every operation of the in-memory data table (construction, collect, take, first, count, map, mapValues, per-partition map and map-reduce, reduce, filter, join, union, subtract-by-key) returns exactly what the same operation on an insertion-ordered finite key-to-value map returns: keys stay unique, a join keeps exactly the keys present in both tables and hands the combining function the left value first, a union keeps the left value's key set plus the right-only keys, a difference keeps exactly the left-only keys. No operation adds, drops or rebinds an entry of a table it was called on or was given, whatever sequence of operations is applied. Malformed construction (non-list data, non-pair rows, a repeated key) is refused.",
  ["programs", "inputs", "histories"], "all programs of table operations over all small tables, keys and values of any hashable type",
  "The 12 existing tests run each operation once on one three-row table; they never combine operations, never use overlapping or empty operands and never look at the operands afterwards.",
  ["computing/d_table.py", "computing/_computing.py"],
  [("dict-backed table, each operation builds a new table", "computing/d_table.py:DTable")],
  [("table contents", "ordered key-value map", "DTable.__data")], ["DTable public methods"])

p("C02", "Messages survive the wire intact however the network fragments them",
  "Over one connection the sequence of objects received equals the sequence of objects sent, in order, each exactly once, whatever their sizes and however the network splits or coalesces the bytes. If the peer closes the connection in the middle of a message or instead of one, the receiver fails promptly with an error; it never returns a truncated or wrong object and never waits for ever.",
  ["schedules", "fault_sequences", "inputs"], "all message sequences, all segmentations of the byte stream, all points at which the peer closes",
  "No test opens a connection; localhost runs with small messages never show a short read of the header or a closed peer.",
  ["federation/transfer_inst.py"],
  [("16-byte ASCII length header followed by the pickled payload", "federation/transfer_inst.py:TransferInst.send_data/recv_data")],
  [("unread bytes", "bytes of the stream not yet consumed", "socket")], ["recv on the connection", "value returned by the receive call"])

p("C03", "Each host receives exactly what is addressed to it, replies keep host order",
  "With any number of hosts connected, data the guest sends to everybody reaches every host exactly once, data sent to one host reaches that host and no other, and messages to one host keep their sending order. Collecting from everybody returns one message per host in the order the hosts connected, and collecting from one host takes the next message of that host only. An address that designates no connected host is refused and nothing is sent or consumed.",
  ["histories", "configurations", "schedules"], "all sequences of addressed and broadcast sends and receives, for one or more hosts and any index",
  "No test constructs the transport; the examples only ever use broadcast with one or two hosts.",
  ["federation/transfer_inst.py"],
  [("connection list indexed by host number, -1 meaning all", "federation/transfer_inst.py:TransferInstGuest")],
  [("per-host channels", "FIFO of messages in flight per host and direction", "sockets")], ["send/receive calls of guest and hosts"])

p("C04", "Guest and hosts stay in lock step: no deadlock, no unread or misread message",
  "Training and prediction run to completion for the guest and every host under every interleaving of their steps, with any number of hosts, any tree shape, any node batching, any number of rounds and early stopping on or off. Every message sent is consumed by the peer step that expects that kind of message, and no message is left unread when both sides have finished.",
  ["schedules", "configurations"], "all interleavings of guest and hosts, all tree shapes, depths, batch sizes, numbers of hosts, trees and rounds, stop decisions",
  "No test runs two parties; the example scripts exercise one schedule on one data set and one host.",
  ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py"],
  [("fixed message order per tree, depth and node batch; finish tags and stop flags", "fit and predict of the guest and host tree and boosting classes")],
  [("channels", "messages in flight per host and direction", "transport object")], ["send/receive calls made on the transport object"])

p("C05", "Neither party's private data crosses the wire in the clear",
  "Nothing the guest sends to a host during training or prediction lets the host read a label, a gradient, a hessian, a node or leaf statistic or weight, or a guest feature value or split threshold: gradient, hessian and gain values travel only as freshly randomised ciphertexts, and the private key never travels. Nothing a host sends to the guest contains a host feature value or split threshold.",
  ["inputs", "configurations", "histories"], "all data sets, tree shapes, numbers of hosts, encryption modes that re-encrypt, training and prediction",
  "No test looks at what is transmitted.",
  ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "ml/secureprotol/encrypt_mode.py", "ml/secureprotol/fate_paillier.py"],
  [("nodes masked before sending, split values kept in a local mask dictionary, additively homomorphic encryption", "sync_* methods and encode/decode of the tree classes")],
  [("knowledge", "set of private atoms a party has received in the clear", "messages")], ["every object handed to the transport"])

p("C06", "Every split is admissible and has the greatest gain among all candidates",
  "A node is split only when some candidate's gain exceeds the minimum impurity, both children keep at least the minimum leaf size, the node has at least the minimum number of samples, and the feature is among those sampled for the tree; otherwise it becomes a leaf. The chosen split has the largest regularised gain over all admissible candidates of the guest and of every host, a tie between guest and host going to the guest.",
  ["inputs", "configurations"], "all binned data sets, gradients and hessians, numbers of hosts, thresholds, feature masks and batch sizes",
  "No test builds a tree; a sub-optimal or inadmissible split still yields a usable model.",
  ["ml/tree/splitter.py", "ml/tree/creterion.py", "ml/tree/hetero_decision_tree_guest.py", "xgboost/hetero_decision_tree_guest.py"],
  [("exhaustive scan of accumulated histograms, comparison of guest and host best", "Splitter.find_split*, find_host_split, find_best_split_guest_and_host")],
  [("split chosen per node", "site, feature, bin", "tree nodes")], ["fitted tree, its nodes and split values"])

p("C07", "Every fitted tree is a well-formed binary tree with the right statistics",
  "In a fitted tree node identifiers are consecutive from the root in level order, every internal node has exactly two distinct later children and every other node but the root exactly one parent, no leaf lies deeper than the configured number of levels, and leaves belong to the guest. Gradient and hessian sums of two children add up to their parent's, the root holds the totals, every weight is minus the gradient sum over the hessian sum plus the regulariser, and reported feature importances equal the count (or summed gain) of the splits that use each feature.",
  ["inputs", "configurations"], "all data sets, depths, regularisers, importance types, numbers of hosts and batch sizes",
  "No test builds a tree.",
  ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/node.py", "ml/tree/creterion.py", "xgboost/hetero_decision_tree_guest.py"],
  [("level-by-level queue, identifiers handed out in order", "update_tree_node_queue, update_feature_importance")],
  [("tree", "list of nodes", "tree_")], ["fitted tree", "feature importances"])

p("C08", "Histograms account for every sample of a node exactly once",
  "For every node of a batch and every feature in use, the histogram's bins hold exactly the gradient sum, hessian sum and number of the node's samples whose value falls in that bin, samples without a stored value counting in the bin of zero, whether the numbers are plain or encrypted. Accumulation turns them into running totals whose last bin is the node total for every feature; samples in finished or foreign nodes and features not in use contribute nothing; combining partial histograms gives the histogram of the combined data.",
  ["inputs", "configurations"], "all sample sets, node assignments, sparse and dense rows, feature masks, node maps",
  "No test computes a histogram.",
  ["ml/tree/feateur_histogram.py"],
  [("per-node totals minus the non-zero part goes to the zero bin", "FeatureHistogram.batch_calculate_histogram/accumulate_histogram/aggregate_histogram")],
  [("histogram", "node x feature x bin -> (grad, hess, count)", "FeatureHistogram")], ["histogram functions"])

p("C09", "Training and prediction route every sample to the same single leaf",
  "Every training sample reaches exactly one leaf and receives exactly that leaf's weight once. Predicting the same samples with the fitted (or reloaded) tree across guest and hosts gives each of them the same leaf weight as in training, and any new sample follows the split decisions of the party owning each split (value less than or equal to the threshold goes left, a missing sparse value counting as zero) to exactly one leaf.",
  ["inputs", "configurations", "histories"], "all data sets, tree shapes, assignments of features to parties, sparse rows, new samples",
  "No test trains and then predicts.",
  ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "xgboost/hetero_decision_tree_guest.py"],
  [("redispatch during training, traverse with hand-over between parties in prediction", "dispatch_node, traverse_tree, redispatch_node, predict")],
  [("sample position", "node a sample currently sits in", "node_dispatch, predict_data")], ["leaf weights handed back by fit and predict"])

p("C10", "Boosting builds the right number of trees and adds up exactly their outputs",
  "After training, each sample's score equals the initial score plus the learning rate times the sum of the weights its leaves gave, per output dimension, and prediction recomputes the same sum for the same sample from the stored trees. Each round grows one tree per output dimension on gradients and hessians taken at the scores before the round; the number of rounds is the configured one unless early stopping is on and the loss converged, one loss value is recorded per round, the guest and all hosts keep the same number of trees, and the feature importances kept by the booster are the sums of those of its trees.",
  ["inputs", "configurations", "histories"], "all data sets, learning rates, numbers of trees and classes, stop settings",
  "No test trains a booster.",
  ["ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py", "ml/tree/boosting_tree.py", "xgboost/hetero_secureboosting_tree_guest.py"],
  [("score table updated after every tree; loss per round; stop flag", "fit, update_f_value, accumulate_f, predict_f_value")],
  [("F", "score vector per sample", "HeteroSecureBoostingTreeGuest.F")], ["scores, trees, loss history of the fitted booster"])

p("C11", "Predictions report the right label, score and detail for every sample",
  "Prediction returns exactly one row per input sample, under its key, holding the sample's own label, the predicted value, its score and the detail per class. For two classes the predicted class is the larger class label exactly when the probability exceeds the configured threshold and the two probabilities add up to one; for more classes it is the class with the largest probability, the score is that probability, and each class label is paired with its own probability; class labels are the distinct training labels in sorted order, whatever their values. For regression value and score both equal the summed score.",
  ["inputs", "configurations"], "all label sets (numbers or strings, not starting at zero, any order of appearance), thresholds, sample keys",
  "No test predicts.",
  ["ml/tree/hetero_secureboosting_tree_guest.py", "ml/utils/classfiy_label_checker.py", "xgboost/hetero_secureboosting_tree_guest.py"],
  [("sorted class list, label-to-index mapping, threshold comparison", "check_label, predict")],
  [("classes", "sorted distinct labels", "classes_")], ["rows returned by predict"])

p("C12", "Homomorphic encryption computes the same numbers as plain arithmetic",
  "For every key pair, decrypting an encryption gives back the number, and decrypting the result of any expression of ciphertext additions, subtractions, additions of plain numbers and multiplications or divisions by plain numbers gives the value of the same expression on plain numbers, as long as it stays in the representable range; ciphertexts lie in the group modulo the square of the modulus. Ciphertexts of different keys are never combined or decrypted with the wrong key, a number outside the range is refused, encrypting the same number twice gives different ciphertexts, and a generated key has two different prime factors and the requested bit length.",
  ["inputs", "programs"], "all keys, plaintexts (integers and floats, positive and negative, up to the range limit), expressions",
  "No test encrypts; a wrong branch shows only for negative, boundary or mixed-exponent operands.",
  ["ml/secureprotol/fate_paillier.py", "ml/secureprotol/encrypt.py", "ml/secureprotol/gmpy_math.py"],
  [("Paillier with g = n + 1, CRT decryption, exponent alignment", "PaillierPublicKey, PaillierPrivateKey, PaillierEncryptedNumber")],
  [("ciphertext", "group element and exponent", "PaillierEncryptedNumber")], ["raw and encoded encryption, decryption and arithmetic calls"])

p("C13", "Every encryption mode yields ciphertexts of the current values",
  "Whatever the mode (always fresh, fast by difference, balanced) and however many times the calculator is called with changing values, the n-th result has exactly the rows of the n-th input, each row keeps its shape and container type, and decrypts to the n-th input values. In the always-fresh mode, and in the balanced mode whenever the drawn number is within the re-encryption rate, as on the first call in any mode, every ciphertext is newly encrypted from the current value; only otherwise is the previous ciphertext updated by the difference.",
  ["histories", "configurations", "inputs"], "all call histories, modes, re-encryption rates, row types (scalars, tuples, lists, arrays)",
  "No test calls the calculator twice.",
  ["ml/secureprotol/encrypt_mode.py"],
  [("previous plain and encrypted tables remembered between calls", "EncryptModeCalculator.encrypt")],
  [("previous data", "last input and its ciphertexts", "prev_data, prev_encrypted_data")], ["encrypt calls, the encrypter's encrypt calls"])

p("C14", "Fixed-point numbers represent reals faithfully and never wrap silently",
  "Encoding a number and decoding it gives the number back: exactly for integers and floats without requested precision, and otherwise to within half a unit of the chosen exponent, a unit being no larger than the precision asked for, negative numbers included. Sums, differences, products, quotients and comparisons of encoded numbers agree with the plain numbers to within the encoding's resolution, with a modulus chosen by the caller as well as with the default one. Values outside the representable range are refused with an error, both on encoding and on decoding a result that left the range.",
  ["inputs", "programs"], "all integers and floats, exponents, moduli and sequences of operations",
  "No test uses fixed-point numbers; errors appear only at sign changes, mixed exponents and range limits.",
  ["ml/secureprotol/fixedpoint.py"],
  [("base-16 exponent, residues modulo n, upper third for negatives", "FixedPointNumber")],
  [("encoding, exponent", "residue and power of sixteen", "FixedPointNumber")], ["encode, decode and operators"])

p("C15", "Quantile sketches stay within their promised rank error",
  "After any sequence of insertions (and of compressions and queries in between), whatever the buffer and compression sizes, the sketch has counted every accepted value, its stored samples are sorted actual input values that always include the minimum and the maximum, and the value returned for a quantile is an actual input whose rank differs from the ideal one by no more than twice the configured error times the count, rounded up. Values listed as abnormal or not numeric are ignored, a quantile outside zero to one is refused, and sparse sketches account for unseen zeros as if they had been inserted.",
  ["histories", "inputs", "configurations"], "all insertion orders with duplicates, buffer sizes, compression thresholds, errors, quantiles, interleaved queries",
  "No test uses the sketch; small examples never fill the buffer so the batching, compression and delta logic is never reached.",
  ["ml/feature/quantile_summaries.py"],
  [("Greenwald-Khanna style samples with gap and uncertainty counts", "QuantileSummaries, SparseQuantileSummaries")],
  [("samples", "sorted (value, g, delta)", "sampled")], ["insert, compress, merge, query"])

p("C16", "Binning is monotone and bins agree with the split thresholds",
  "The split points of a column are distinct values in increasing order, fewer than the requested number of bins, taken from the column at its equal-frequency quantiles (to within the configured rank error). A value is put in the first bin whose split point is not below it, or in the last bin if there is none, so bin order follows value order and, for every split point, being in that bin or an earlier one is the same as being less than or equal to the split point; the bin reported for zero is the bin a zero value gets. Only the requested columns change, every sample keeps its key, label and other columns, and dense and sparse forms of the same data bin alike.",
  ["inputs", "configurations"], "all columns with duplicates, negatives and zeros, bin numbers, column selections, dense and sparse rows",
  "No test bins data.",
  ["ml/feature/binning/base_binning.py", "ml/feature/binning/quantile_binning.py", "ml/feature/sparse_vector.py"],
  [("quantile queries, linear search for the bin", "QuantileBinning.fit_split_points, Binning.convert_feature_to_bin, get_bin_num, get_sparse_bin")],
  [("split points", "per column list", "split_points")], ["binned table, split points, zero bins"])

p("C17", "Training, binning and prediction leave the caller's data as it was",
  "Fitting, binning and predicting never change the tables, samples, feature vectors or labels the caller passed in. The same table can therefore be used again, so that training followed by prediction on it, repeated predictions and a second training see the original values.",
  ["histories", "inputs"], "all sequences of fit, bin and predict calls on the same table, dense and sparse rows, guest and host side",
  "No test passes the same table twice.",
  ["ml/tree/boosting_tree.py", "ml/feature/binning/base_binning.py", "ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py"],
  [("mapValues building new tables", "data_alignment, convert_feature_to_bin")],
  [("caller's samples", "feature vectors and labels", "Instance objects")], ["caller's table before and after each call"])

p("C18", "A saved tree, loaded again, is the same model",
  "Exporting a fitted tree's meta data and parameters and loading them into a fresh tree object of either party reproduces every node (identifier, owner, feature, children, leaf flag, leaf weight), every locally kept threshold and every setting that is exported; exporting again gives the same content. The reloaded trees of guest and hosts together predict exactly as the original ones.",
  ["inputs", "histories"], "all fitted trees, parties, settings; repeated save and load",
  "No test saves or loads a model.",
  ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "arch/api/boosting_tree_model_param_pb2.py", "arch/api/boosting_tree_model_meta_pb2.py", "xgboost/hetero_decision_tree_guest.py"],
  [("protobuf messages for meta and parameters", "get_model, load_model")],
  [("model", "nodes, thresholds, settings", "model messages")], ["get_model / load_model"])

p("C19", "Federated training is lossless: it equals training on the pooled data",
  "Distributing the columns over a guest and any number of hosts changes nothing: the federated tree makes the same splits (up to equally good ones), the same leaf assignment and the same leaf weights as a single-party tree trained on the pooled columns, and the stand-alone trainer shipped with the project produces the same model as its specification on the same data. Neither the number of nodes handled per batch nor encrypting the statistics alters the result.",
  ["configurations", "inputs"], "all vertical partitions of the columns, numbers of hosts, batch sizes, encrypted or plain statistics",
  "No test trains; comparing two trainers needs many data sets and partitions.",
  ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "xgboost/hetero_decision_tree_guest.py", "xgboost/hetero_secureboosting_tree_guest.py"],
  [("same criterion and scan on encrypted aggregates", "find_host_split, find_split")],
  [("tree", "splits and weights", "tree_")], ["fitted trees of both trainers"])

p("C20", "Files are read faithfully and all parties split the data in the same way",
  "Reading a data file returns one entry per data row in file order: identifiers and labels as written, features as the numbers written, and a header naming exactly the feature columns; a trailing line break or blank final line adds nothing. Splitting into training and test parts keeps every sample in exactly one part with the training part holding the rounded-down share, and guest and hosts, splitting rows listed in the same order with the same ratio and seed, put the same rows in the same positions. The guest and host programs, started on such files, train and predict together to the end, and the guest reports the share of test samples it predicted right.",
  ["inputs", "configurations"], "all well-formed files, ratios, seeds, numbers of rows",
  "No test reads a file or splits data.",
  ["i_o/utils.py", "guest.py", "host.py", "test_xgboost.py"],
  [("line split on commas; seeded shuffle", "read_from_csv_with_lable, read_from_csv_with_no_lable, data_split")],
  [("rows", "id, label, features", "file")], ["values returned by the readers and splitters"])

p("C21", "Bad settings are refused, good ones accepted, and configuration lands in place",
  "Checking a parameter object accepts exactly the documented values (kinds, ranges, allowed names in any letter case where documented) and raises on every other value of each setting, nested settings included. Applying a configuration sets exactly the settings it names, at any nesting level, leaves all others at their defaults and refuses a configuration that is not a mapping.",
  ["configurations", "inputs"], "all combinations of parameter classes, settings and values around every boundary",
  "No test constructs a parameter object.",
  ["ml/param/boosting_tree_param.py", "ml/param/base_param.py", "ml/param/encrypt_param.py", "ml/param/encrypted_mode_calculation_param.py", "ml/param/feature_binning_param.py", "ml/param/predict_param.py", "ml/param/cross_validation_param.py", "ml/param/evaluation_param.py", "ml/utils/param_extract.py"],
  [("check methods; recursive assignment", "*.check, ParamExtract.parse_param_from_config")],
  [("settings", "attributes of a parameter object", "param objects")], ["check() outcome, attributes after extraction"])

p("C22", "Losses, gradients and hessians follow their definitions",
  "For every loss offered for training and every label and score, the gradient and hessian are the documented ones (for two classes probability minus label and p(1-p), for several classes the same per class with one subtracted at the label, for squared, absolute, Huber, Fair, log-cosh and Tweedie losses, the last on the log scale, their closed forms, hessian the derivative of gradient and gradient of the loss except where the absolute error fixes its hessian at one) with arrays as well as scalars, and the loss of a table is the mean over the samples present in both tables. The initial score is zero for classification, the median for absolute error and the mean for the other regression losses, and the link functions return the probabilities they name, adding up to one.",
  ["inputs"], "all labels and scores, scalars and arrays, any number of samples and classes",
  "No test evaluates a loss.",
  ["ml/loss/cross_entropy.py", "ml/loss/regression_loss.py", "ml/optim/activation.py"],
  [("closed formulas", "compute_grad, compute_hess, compute_loss, initialize, predict")],
  [], ["loss class methods"])

p("C23", "Column statistics equal the exact statistics of the column",
  "For any table and column selection, the reported maximum and minimum are exactly those of the column, mean and variance and standard deviation equal the population values (tiny values reported as zero), quantile points and medians are column values within the sketch's rank error, abnormal values are left out, and columns not selected are not reported. Combining the statistics of parts of the data gives the statistics of the whole.",
  ["inputs", "configurations"], "all tables, column selections, abnormal lists, partitions",
  "No test computes statistics.",
  ["ml/statistic/statics.py"],
  [("one-pass sums, merge of partial statistics", "SummaryStatistics, MultivariateStatisticalSummary")],
  [("summary", "count, sum, sum of squares, extremes", "SummaryStatistics")], ["get_mean, get_variance, get_max, get_min, get_median, get_quantile_point"])

p("C24", "The component pipeline runs the right phases and keeps all its results",
  "Running a component applies the configuration first and then exactly the phases its inputs call for: fitting on training data followed by predicting it, predicting validation or test data, cross-validation or one-versus-rest when asked for, loading a given model before use, and merely passing data through when the component is switched off. Its output holds every prediction made, each row tagged as train, validation or test according to its source, under the fixed prediction header. Each phase runs under its own flow identifier of the task; under cross-validation reported metrics carry the fold, metric prefixes the flow identifier, and curves the flow's name.",
  ["configurations", "histories"], "all combinations of inputs (training, evaluation, plain data, model) and settings",
  "No test runs a component.",
  ["ml/model_base.py"],
  [("stage selection and data dispatch", "ModelBase.run, _run_data")],
  [("data output", "table of tagged predictions", "data_output")], ["calls of fit/predict/transform/..., save_data"])

p("C25", "Each tree draws the configured share of features and uses no other",
  "For every tree, each party independently marks exactly the larger of one and the rounded-down share of its features as usable, all distinct and within range, and every feature can be drawn; with a share of one all features are usable. A split is never made on a feature that its owner did not mark for that tree.",
  ["configurations", "inputs"], "all numbers of features, shares and random draws",
  "No test samples features.",
  ["ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py", "xgboost/hetero_secureboosting_tree_guest.py", "ml/tree/splitter.py"],
  [("random choice without replacement, mask per tree", "sample_valid_features")],
  [("mask", "usable features of a tree", "valid_features")], ["mask handed to each tree, features used by its splits"])

p("C26", "Convergence tests decide on the last two values as documented",
  "The difference criterion reports convergence exactly when a previous loss exists and differs from the current one by less than the tolerance, always remembering the current one; the absolute criterion exactly when the loss is at most the tolerance; the weight criterion exactly when the norm of the change since the previous weights is below the tolerance times the larger of one and the norm of the current weights. The decision depends only on the sequence of values fed to that criterion object.",
  ["histories", "inputs"], "all sequences of losses or weight vectors and tolerances",
  "No test feeds a sequence of losses.",
  ["ml/optim/convergence.py", "ml/utils/fate_operator.py"],
  [("previous value kept in the object", "DiffConverge, AbsConverge, WeightDiffConverge")],
  [("previous value", "loss or weights of the last call", "pre_loss, pre_weight")], ["is_converge calls"])

p("C27", "The other ciphers decrypt what they encrypt and keep their algebra",
  "The symmetric affine cipher decrypts every encrypted number to within its encoding precision, and sums, differences and integer multiples of its ciphertexts decrypt to the same combination of the plain numbers, for every generated key. The RSA cipher decrypts every integer below its modulus to itself and is multiplicative; the list, table and nested-array helpers of every cipher apply encryption or decryption element by element, keeping order, keys and shape (a flat array counts as one row); without a key they yield nothing rather than something wrong. The modular helpers compute exact powers and integer roots, inverses (refused where none exists) and primes of at least the requested size.",
  ["inputs", "programs"], "all keys, plaintexts, combinations of ciphertexts, nested shapes",
  "No test uses these ciphers.",
  ["ml/secureprotol/affine.py", "ml/secureprotol/affine_encoder.py", "ml/secureprotol/encrypt.py", "ml/secureprotol/gmpy_math.py"],
  [("affine map with multiplier bookkeeping, textbook RSA, element-wise helpers", "AffineCipherKey, AffineCiphertext, RsaEncrypt, Encrypt")],
  [("multiplier", "number of offsets summed into a ciphertext", "AffineCiphertext")], ["encrypt, decrypt and operators"])

p("C28", "Labels, samples and sparse vectors stand exactly for the data given",
  "A classification task finds every distinct label exactly once with their number, and refuses more than 1000 of them; a regression task accepts a table exactly when every label reads as a number; an empty table is refused before training or predicting. Turning dense features into sparse ones keeps each value further than a millionth from zero at its position, the width, the sample's identifier, weight and label, and the table's schema; features sparse already stay as they are. A sparse vector answers the stored value or the given default at every position, lists exactly what is stored, and its counts of stored and missing entries agree with its width. A sample holds what was last set. Partial results add up position by position with nothing standing for no result; dot products (terms of a feature below 1e-5 may be left out) and p-norms follow their definitions, p below one being refused.",
  ["inputs"], "all labels, dense and sparse vectors, partial results",
  "No test builds a sample, a sparse vector or checks labels.",
  ["ml/feature/sparse_vector.py", "ml/feature/instance.py", "ml/tree/boosting_tree.py", "ml/utils/classfiy_label_checker.py", "ml/utils/abnormal_detection.py", "ml/utils/fate_operator.py", "ml/statistic/data_overview.py"],
  [("class sets merged over partitions; index/value pairs; element-wise sums", "ClassifyLabelChecker, RegressionLabelChecker, BoostingTree.data_alignment, SparseVector, fate_operator")],
  [("sparse vector", "stored positions and width", "SparseVector"), ("sample", "identifier, weight, features, label", "Instance")], ["validate_y, data_alignment, get_data, counts, dot, norm, reduce_add"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
