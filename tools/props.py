# Source tables for properties.jsonl and MANIFEST.json (written by gen.py).
PROPS = []

def P(id, title, statement, over, q, why, files, mech, obs, tech="", note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why,
                      files=files, mech=mech, obs=obs, tech=tech, note=note))

SEQ = "explicit-state exploration of all operation sequences on the real code in lockstep with a reference model"
ENUM = "bounded exhaustive model checking: every input of a finite alphabet run on the real code against a reference model"
CHOICE = "stateless model checking: DFS over every random draw / map order (controlled by a std overlay), reference model on each execution"
SCHED = "stateless model checking of goroutine interleavings: DFS over every schedule of the real code under a controlled cooperative scheduler with happens-before state pruning, race detector as an extra monitor"

P("C01", "A data grid stores exactly what was written to it",
  "For every sequence of attribute definitions (any attribute type, default or named storage groups), growth, cell writes and class-attribute changes on an in-memory data grid, reading a cell returns the value last written to that cell, or the zero value if it was never written. Writing one cell never changes another, growing never loses written cells, and the reported size, attribute list and class-attribute list always match the operations performed.",
  ["histories", "inputs"], "all operation sequences: any mix of attribute types and storage groups, any interleaving of growth, writes, reads and class changes",
  "the tests load a few CSV files and write a handful of cells; bit packing, page/group boundaries and interleavings of growth and writes are a product space they sample at single points",
  ["base/dense.go", "base/fixed.go", "base/bag.go", "base/group.go", "base/binary.go"],
  [("group placement, page splitting and bit packing", "base/dense.go, base/fixed.go, base/bag.go")],
  ["DenseInstances Get/Set/Size/AllAttributes/AllClassAttributes"])

P("C02", "Views show exactly the selected rows and columns of their source",
  "A view that selects rows, columns or both from any grid (including another view) shows, at every position, the cell of the source that the selection maps to, identically through single-cell reads, row iteration, class lookups and text rendering. Its size, attributes and class attributes are those of the selection, later writes to the source are visible through it, and changing the class attributes of a view never changes its source.",
  ["inputs", "histories"], "all row selections (duplicates, permutations, subsets, longer than the source) and column selections, stacked to depth two",
  "existing tests check one row map, one column subset and one template on one data set",
  ["base/view.go", "base/util_instances.go"],
  [("row and attribute mapping of views", "base/view.go")],
  ["InstancesView Get/MapOverRows/Size/AllAttributes/RowString, GetClass"])

P("C03", "Row iteration visits every row once, in order, with the requested cells",
  "Iterating over the rows of any kind of grid calls the callback exactly once per row - in increasing row order for stored, matrix-backed and row-mapped grids - passing for every row precisely the cells of the requested attributes in the requested order. Iteration stops right after the callback declines to continue or reports an error, and that error is returned to the caller.",
  ["inputs", "histories"], "all grid kinds (stored, view, filtered, matrix-backed), all requested column lists (orders, subsets, empty), all stop/error points",
  "tests iterate whole data sets with callbacks that never stop and never fail",
  ["base/dense.go", "base/view.go", "base/filtered.go", "base/mat.go"],
  [("MapOverRows implementations", "base/dense.go, base/view.go, base/filtered.go, base/mat.go")],
  ["MapOverRows callbacks and return values"])

P("C04", "A lazily filtered grid behaves as if every cell had been filtered",
  "A grid seen through a trained filter presents, for every row and every attribute, exactly the filter's transformation of the source cell for filtered attributes and the untouched source cell for all others, no matter whether cells are read one by one or by iterating rows. Its size, attribute list and class attributes describe the filtered columns, in the order of the source attributes they came from.",
  ["inputs", "configurations"], "all small grids and all choices of which attributes are filtered, for every filter kind incl. one-to-many filters",
  "tests compare one or two filtered cells or whole outputs on single files; one-to-many expansions and mixed filtered/unfiltered columns are not crossed with both access paths",
  ["base/filtered.go", "filters/"],
  [("attribute resolution and per-cell transformation", "base/filtered.go")],
  ["LazilyFilteredInstances Get/MapOverRows/Size/AllAttributes"])

P("C05", "Copies are faithful and independent of their source",
  "A full copy of any grid has the same attributes, class attributes and cell values as its source; a structural copy has the same attributes and class attributes but no rows; a prediction vector has one row per source row and only the class attributes. After copying, writes to either grid are never visible in the other.",
  ["inputs", "histories"], "all small grids of every attribute type and grouping, followed by every single-cell write on either side",
  "copies are only used incidentally by tests; attribute grouping and byte widths of copied groups depend on map iteration order, which tests sample once",
  ["base/dense.go", "base/util_instances.go"],
  [("NewDenseCopy/NewStructuralCopy/GeneratePredictionVector", "base/dense.go, base/util_instances.go")],
  ["copied grid vs source"])

P("C06", "Grid equality and compatibility tests are exact",
  "Two grids are reported equal if and only if they have the same size and every row holds the same values for the same attributes (columns corresponding by name and type, categories compared by their text). Strict compatibility holds exactly when both grids have pairwise equal attributes in corresponding positions, for class and other attributes alike, and both tests are symmetric and never fail abruptly.",
  ["inputs"], "all pairs of small grids differing in any single cell, row count, attribute count, attribute type or class marking",
  "tests only check that equal things are equal (and one unequal pair)",
  ["base/util_instances.go", "base/util_attributes.go", "base/fixed.go"],
  [("InstancesAreEqual, CheckCompatible, CheckStrictlyCompatible", "base/util_instances.go, base/util_attributes.go")],
  ["return values of the comparisons"])

P("C07", "Sorting orders rows by the requested attributes and loses none",
  "Sorting a grid in either direction by a list of attributes yields the same multiset of whole rows, ordered so that rows compare in the requested direction on the first attribute, then the second, and so on, comparing numbers numerically (including negative numbers and values that differ only slightly) and categories by their index. The in-place and the lazy sort agree, and the lazy sort leaves its source unchanged.",
  ["inputs"], "all value vectors over an alphabet of negative, zero, fractional and nearly equal numbers; all attribute orders and both directions",
  "tests sort one file of positive numbers by one column",
  ["base/sort.go", "base/lazy_sort.go"],
  [("byte-wise radix-style keys", "base/sort.go")],
  ["row sequence after Sort/LazySort"])

P("C08", "Shuffles, splits and samples only rearrange existing rows",
  "For every outcome of the random draws, shuffling a grid yields a permutation of its rows, a train/test split puts every row into exactly one of its two parts, and sampling with replacement yields exactly the requested number of rows, each a copy of some source row. Whole rows always stay together, no order is impossible, and only the in-place shuffle and the split of a stored grid may reorder the grid they are given.",
  ["inputs", "schedules"], "all outcomes of all random draws on small grids, stored grids and views alike",
  "tests draw once per run from a fixed seed and check row counts",
  ["base/util_instances.go"],
  [("Shuffle, LazyShuffle, InstancesTrainTestSplit, SampleWithReplacement", "base/util_instances.go")],
  ["row multiset of the results"])

P("C09", "Class counts and data splits account for every row exactly once",
  "Counting the class values of a grid, of a categorical value or of a split of it by an attribute value or numeric threshold counts each row exactly once under its own class and its own branch. Decomposing a grid by attribute value or by threshold yields parts that together contain every row exactly once, each row in the part its value selects, with all other attributes unchanged and the attribute split on removed.",
  ["inputs"], "all small grids over small value alphabets, all attributes and thresholds, grids and views of them",
  "tests check the counts of one data set",
  ["base/util_instances.go"],
  [("GetClassDistribution*, DecomposeOn*", "base/util_instances.go")],
  ["returned counts and sub-grids"])

P("C10", "Attribute values survive conversion between text and storage form",
  "For each attribute type, converting text to the stored form and back yields an equivalent value: categories come back exactly and keep the index they were first given, numbers come back to the configured precision, and binary values come back as zero or one. Attribute equality and compatibility hold exactly when type, name and domain agree, and an attribute serialised to JSON and back equals the original.",
  ["inputs", "histories"], "all short sequences of conversions over an alphabet of unusual strings and numbers",
  "tests convert two or three values per type",
  ["base/categorical.go", "base/float.go", "base/binary.go", "base/conversion.go", "base/serialize_attributes.go"],
  [("GetSysValFromString/GetStringFromSysVal, (de)serialisation", "base/categorical.go, base/float.go, base/binary.go")],
  ["attribute methods"])

P("C11", "Attribute lookup and attribute-set operations are order- and set-correct",
  "Resolving a list of attributes against any grid returns, for each one and in the order asked, the storage location of that very attribute. Intersection, difference and class/non-class/numeric selections of attribute lists contain exactly the attributes that set algebra over attribute equality prescribes, with the documented order.",
  ["inputs"], "all attribute lists up to length four over mixed types with duplicates and same-name attributes, all orders",
  "tests use single lists",
  ["base/util_attributes.go", "base/spec.go", "base/dense.go"],
  [("ResolveAttributes, Attribute{Intersect,Difference}*, NonClass*", "base/util_attributes.go, base/spec.go")],
  ["returned lists"])

P("C12", "Loading CSV puts every cell under its own column and row",
  "Parsing a CSV file or stream yields one row per record, in order, where each cell holds the trimmed text of its own column converted by that column's attribute, missing cells are left at zero, and the last column is the class. With a template, columns are matched to the template's attributes so that the stored indices agree with the template's, whatever headers or column types surround them; malformed input is reported as an error, not a crash.",
  ["inputs"], "all small CSV documents over an alphabet of cell texts incl. quotes, spaces, signs, blanks and mixed types; with and without headers and templates",
  "tests load well-formed sample files",
  ["base/csv.go"],
  [("sniffing, attribute construction and row building", "base/csv.go")],
  ["parsed instances"])

P("C13", "A grid written as CSV reads back the same",
  "Serialising any grid to CSV writes a header and one record per row in which every cell appears under the header of its own attribute, and parsing the result against the original as template reproduces every value to printed precision (texts free of surrounding blanks). Serialising to a file leaves exactly the serialised bytes in it even if the file existed before.",
  ["inputs"], "all small grids over values needing quoting, all attribute mixes and all map iteration orders",
  "one file is written and compared",
  ["base/serialize_instances.go", "base/csv.go"],
  [("SerializeInstancesToCSV*", "base/serialize_instances.go")],
  ["output bytes and re-parsed instances"])

P("C14", "A grid written as ARFF reads back the same",
  "Serialising any grid of category and number columns whose texts need no quoting to the dense ARFF format and parsing it reproduces the attribute names and types, the category lists, the number of rows and every cell to printed precision. Row counts and attributes reported by the header functions agree with the parsed instances.",
  ["inputs"], "all small grids with category/number columns, and all small hand-made ARFF documents with comments and blank lines",
  "one file is read",
  ["base/arff.go", "base/serialize_instances.go"],
  [("ParseDenseARFF*, SerializeInstancesToDenseARFF*", "base/arff.go")],
  ["parsed instances"])

P("C15", "A saved grid is restored exactly, however the bytes arrive",
  "Saving any grid in the library's binary format and restoring it yields the same attributes, class attributes, size and bit-identical cells, for every number of rows and every mix of attribute types. The result does not depend on how the underlying reader chunks its data.",
  ["inputs", "configurations"], "all small grids, row counts around internal buffer boundaries, all reader chunkings and map iteration orders",
  "tests round-trip one small data set through one regular file",
  ["base/serialize_instances.go", "base/serialize.go"],
  [("tar.gz writer and reader", "base/serialize_instances.go, base/serialize.go")],
  ["restored instances"])

P("C16", "Damaged or failed saves are reported, never silently accepted",
  "Restoring from a saved grid or classifier file that was cut off at any point, in which a byte was changed, or in which a stored entry is missing or cut, reports an error instead of crashing, hanging or returning different data. A save, to a file or a stream and in any supported format, during which a write, sync or close of the underlying storage fails at any point reports an error to its caller; reading from storage that fails at any point reports an error or returns everything, never less. After a failure, saving or loading again without one works.",
  ["crash_points", "fault_sequences"], "every truncation point and changed byte of saved files, every failing file operation during a save or load, once or from then on",
  "no test truncates a file or injects a write failure",
  ["base/serialize.go", "base/serialize_instances.go", "base/filewrapper.go"],
  [("error propagation in (de)serialisers", "base/serialize.go, base/serialize_instances.go")],
  ["returned errors"])

P("C17", "Everything put into a classifier file comes back under its key",
  "For every sequence of byte strings, numbers, JSON values, attributes and grids stored under distinct keys in a classifier file, reading the file back returns each value unchanged under its key, whatever the order of reads. Asking for a key that was never written reports an error, and the stored metadata comes back unchanged.",
  ["histories", "inputs"], "all short sequences of stored values of every kind, all read orders, nested prefixes",
  "one test stores one fixed set",
  ["base/serialize.go"],
  [("ClassifierSerializer/ClassifierDeserializer", "base/serialize.go")],
  ["values read back"])

P("C18", "Conversions between grids, matrices and data frames keep every value",
  "Converting grid rows to matrices, wrapping a matrix as a grid and importing a data frame keep every number in its row and column. The class attribute is the designated one, sizes agree, and a matrix-backed grid reads from the very matrix it wraps.",
  ["inputs"], "all small matrices/frames over an alphabet of numbers incl. negative, tiny and fractional ones; all class column choices",
  "tests convert one matrix",
  ["base/mat.go", "base/dataframe_go.go", "base/util_instances.go"],
  [("InstancesFromMat64, ConvertRowToMat64, ConvertDataFrameToInstances", "base/mat.go, base/dataframe_go.go")],
  ["converted values"])

P("C19", "Discretising filters map each value to the interval that contains it",
  "After training, equal-width binning and ChiMerge map every training value to an existing category of the discretised attribute, never assign a larger number to a lower interval than a smaller number, and put numbers from the same interval into the same category. Equal-width binning uses the requested number of equally wide intervals between the smallest and largest training value, with the largest value (and anything above) in a last category of its own; ChiMerge merges adjacent intervals exactly while their chi-squared statistic is below the significance threshold.",
  ["inputs"], "all short value/class vectors over small alphabets incl. ties, negative and equal values, all bin counts",
  "tests discretise one or two columns of sample files",
  ["filters/binning.go", "filters/chimerge.go", "filters/chimerge_freq.go", "filters/chimerge_funcs.go", "filters/disc.go"],
  [("interval computation and Transform", "filters/binning.go, filters/chimerge*.go")],
  ["filtered grid values"])

P("C20", "Numeric conversion filters encode each category faithfully",
  "Converting categories to numeric or binary columns gives, for each row, a one in the column of the row's category and zero in the other columns of that attribute (a single 0/1 column for attributes of two categories), and passes numbers through unchanged (or as their non-zero indicator for binary output). Different categories of one attribute never produce the same encoding, and attributes not given to the filter keep their values.",
  ["inputs", "configurations"], "all category counts and values, mixed attribute kinds, class kept or converted",
  "tests convert two sample files",
  ["filters/float.go", "filters/binary.go"],
  [("FloatConvertFilter, BinaryConvertFilter", "filters/float.go, filters/binary.go")],
  ["filtered grid values"])

P("C21", "k-nearest-neighbour classification is the vote of the k nearest rows",
  "For every supported distance, search algorithm and weighting, the predicted class of a row is a winner of the (weighted) vote among some valid set of its k nearest training rows. Exhaustive search, tree search and the optimised numeric path give the same answer whenever the nearest rows are unambiguous, and rows are predicted independently of each other.",
  ["inputs", "configurations"], "all small training sets and queries on a grid of points, all k, distances, search algorithms, weightings",
  "tests classify one or two rows per configuration",
  ["knn/knn.go", "knn/knn_opt_euclidean.go", "knn/euclidean.c", "kdtree/kdtree.go"],
  [("distance computation, neighbour selection, vote", "knn/knn.go, knn/knn_opt_euclidean.go")],
  ["Predict output"])

P("C22", "k-d tree search returns exactly the k nearest points",
  "For every point set and query, searching the k-d tree for k neighbours returns k distinct row numbers whose distances, reported alongside and in order, are the k smallest distances from the query to the points. Asking for more neighbours than points or with mismatched dimensions is reported as an error.",
  ["inputs"], "all small point multisets on an integer grid, all queries, all k, every metric the tree prunes correctly for",
  "tests search three queries in one fixed set",
  ["kdtree/kdtree.go", "kdtree/heap.go"],
  [("splitting, pruning and the bounded heap", "kdtree/kdtree.go, kdtree/heap.go")],
  ["Search results"])

P("C23", "k-NN regression predicts the mean of the k nearest targets",
  "For every training set, query and k, the regressor predicts the arithmetic mean of the target values of a valid set of k nearest training vectors. Fitting again replaces the earlier data, and mismatched sizes are rejected.",
  ["inputs"], "all small training sets and queries on a grid of points, all k",
  "the regressor has no test of its value",
  ["knn/knn.go"],
  [("KNNRegressor Fit/Predict", "knn/knn.go")],
  ["Predict result"])

P("C24", "Distance functions are the distances they are named after",
  "Euclidean, Manhattan, Chebyshev, Canberra and cosine distances and the polynomial and radial-basis kernels compute their mathematical definition on vectors of any dimension and orientation and are symmetric. The distances are never negative and are zero between identical vectors, and all of them but cosine satisfy the triangle inequality. None of them modifies its arguments.",
  ["inputs"], "all vectors up to dimension three over an alphabet of positive, negative and zero values; all triples",
  "each is tested on one pair of vectors",
  ["metrics/pairwise/"],
  [("Distance and InnerProduct", "metrics/pairwise/*.go")],
  ["returned numbers"])

P("C25", "Confusion matrices and the scores derived from them are exact",
  "The confusion matrix of reference and predicted grids counts, for every pair of classes, exactly the rows with that true and predicted class, and its entries sum to the number of rows. True/false positives/negatives, precision, recall, F1, accuracy, micro and macro averages are their textbook functions of those counts for every class, including classes that were predicted but never occur.",
  ["inputs"], "all short pairs of label sequences over three classes",
  "tests use one hand-made matrix",
  ["evaluation/confusion.go"],
  [("GetConfusionMatrix and metric functions", "evaluation/confusion.go")],
  ["returned counts and metrics"])

P("C26", "Cross-validation tests every row exactly once on a model that never saw it",
  "For every assignment of rows to folds, cross-validation trains and tests once per fold, each row is in the test data of exactly one fold and in the training data of all the others, and the returned matrices are those of the folds. The reported mean and variance of a metric are its mean and variance over the folds.",
  ["inputs", "schedules"], "all outcomes of the fold assignment draws on small grids, all fold counts",
  "tests run it once with one random assignment",
  ["evaluation/cross_fold.go"],
  [("fold assignment and views", "evaluation/cross_fold.go")],
  ["grids given to the classifier"])

P("C27", "DBSCAN finds the density-connected clusters and nothing else",
  "For every data set, radius and minimum count, two core points are in the same cluster exactly when they are connected through core points within the radius, every border point is in a cluster of one of its core neighbours, and points reachable from no core point are in no cluster. No row is in two clusters, and the result does not depend on hidden iteration order.",
  ["inputs"], "all small 1-D and 2-D integer point sets, all radii and minimum counts",
  "tests compare two data sets",
  ["clustering/dbscan.go", "clustering/clustering.go"],
  [("neighbour queries and cluster expansion", "clustering/dbscan.go")],
  ["returned cluster map"])

P("C28", "Cluster map comparison recognises exactly equal partitions",
  "Inverting a cluster map maps each row to its cluster and rejects maps in which a row occurs twice. Two cluster maps are reported equal exactly when they group the same rows into the same clusters, whatever the cluster identifiers and the order of rows.",
  ["inputs"], "all pairs of partial partitions of up to four rows, all identifier assignments and map iteration orders",
  "tests compare three pairs",
  ["clustering/clustering.go"],
  [("ClusterMap.Equals/Invert", "clustering/clustering.go")],
  ["return values"])

P("C29", "Mixture clustering assigns each row to its most likely component",
  "After fitting, predicting with a Gaussian mixture assigns every row to exactly one component, one of those with the highest density for that row under the fitted parameters. Predicting before fitting, asking for no components, or for more components than rows, is an error.",
  ["inputs", "schedules"], "small data sets and all outcomes of the initialising draws over a grid",
  "one fit with a fixed seed is checked",
  ["clustering/em.go"],
  [("estimateLogProb, Fit/Predict", "clustering/em.go")],
  ["cluster map vs Params"])

P("C30", "Decision trees follow their splits from root to leaf",
  "A tree inferred from training data routes each training row to the child selected by its value of the node's split attribute, and records at every node exactly the class counts of the training rows that reach it and a majority class among them. Predicting a row whose path exists yields the majority class of the node its path ends in, with probabilities equal to that node's class frequencies, and growth only stops at pure nodes, when attributes are exhausted, or when no split can be chosen.",
  ["inputs"], "all small training sets over two/three attributes (categorical, numeric, binary) and all query rows",
  "tests check one weather data set and overall accuracies",
  ["trees/id3.go"],
  [("InferID3Tree, Predict, PredictProba", "trees/id3.go")],
  ["tree nodes, Predict, PredictProba"])

P("C31", "Split rules choose an attribute and threshold of best score",
  "Each split-rule generator selects, among the candidate attributes, one whose split has the best information gain, gain ratio or Gini impurity respectively, computed from the true class counts of the branches; a numeric attribute is split at the threshold of best information gain among those halfway between neighbouring values. Restricting the candidates never selects an attribute outside them.",
  ["inputs"], "all small training sets over two attributes, every generator",
  "tests check the root attribute of one data set",
  ["trees/entropy.go", "trees/gini.go", "trees/gr.go"],
  [("GenerateSplitRule, entropy computations", "trees/entropy.go, trees/gini.go, trees/gr.go")],
  ["GenerateSplitRule result"])

P("C32", "Pruning never makes a tree less accurate on the pruning data",
  "Pruning a decision tree with any pruning set leaves a tree whose accuracy on that set is at least as high as before and that is a sub-tree of the original with identical class counts at the remaining nodes. Every split that is left predicts more of the pruning rows that reach it correctly than a leaf in its place would. Paths that no pruning row takes stay valid for prediction.",
  ["inputs"], "all small trees and all small pruning sets",
  "one data set",
  ["trees/id3.go"],
  [("Prune", "trees/id3.go")],
  ["accuracy before/after"])

P("C33", "CART trees split best and predict the majority or mean of their leaf",
  "A CART tree trained on any numeric data chooses at each node a split of lowest impurity, respects its maximum depth, and stops splitting only at pure nodes, at the maximum depth or where no split lowers the impurity. Each prediction is the majority class (or mean target) of the training rows in the leaf that the row's feature values lead to, whatever the column order of the grid.",
  ["inputs", "configurations"], "all small training sets over one/two features, all criteria and depths",
  "tests check accuracy on sample files",
  ["trees/cart_classifier.go", "trees/cart_regressor.go", "trees/cart_utils.go"],
  [("bestSplit, buildTree, predictSingle", "trees/cart_*.go")],
  ["Predict, tree nodes"])

P("C34", "Isolation forest scores are well-formed for every random draw",
  "For every outcome of the random draws, an isolation forest builds the requested number of trees no deeper than the limit, in which every sampled row is separated by the node thresholds that lie within the range of the data. Its scores lie between zero and one, are the published function of the average path length (for samples of at least two rows), and are equal for equal rows, whatever the column order of the grid. Every feature on which the rows differ is split on for some draws.",
  ["inputs", "schedules"], "all draw outcomes over small data sets",
  "one random forest is built and its score compared to a threshold",
  ["trees/isolation.go"],
  [("buildTree, pathLength, Predict", "trees/isolation.go")],
  ["scores"])

P("C35", "Random trees and forests use only drawn attributes and vote by majority",
  "For every outcome of the random draws, a random tree considers at each node exactly the requested number of distinct non-class attributes and splits only on one of those, and a random forest's answer for each row is a class with the most votes among its trees. Each tree of a forest predicts with exactly the attributes it was trained on.",
  ["inputs", "schedules"], "all draw outcomes for small data sets and attribute counts",
  "tests check accuracy thresholds on sample files",
  ["trees/random.go", "ensemble/randomforest.go", "meta/bagging.go"],
  [("RandomTreeRuleGenerator, RandomForest", "trees/random.go, ensemble/randomforest.go")],
  ["tree structure, votes"])

P("C36", "Bagging gives the majority vote of its models under every thread schedule",
  "Whatever the interleaving of its workers, fitting a bagged model trains every member exactly once on its own sample restricted to its own attributes, and predicting asks every member exactly once and returns for each row a class with the most votes, the same one each time it is asked. Neither operation deadlocks, loses a vote, leaves workers running, or accesses shared state without synchronisation. An error of a member is returned by the call. A bag that asks for more attributes than there are uses all of them.",
  ["schedules"], "all interleavings of workers at synchronisation points for small numbers of models and workers",
  "the package's test runs a few natural schedules and checks accuracy",
  ["meta/bagging.go"],
  [("worker pool, vote channel, attribute lock", "meta/bagging.go")],
  ["member Fit/Predict calls, predictions"])

P("C37", "One-vs-all trains one model per class and picks the most confident",
  "A one-vs-all model trains exactly one binary member per class, on all rows, with target one for the rows of that class and zero for the others and all other attributes unchanged. Its prediction for a row is the class whose member gives the highest score. An error of a member is returned by the call.",
  ["inputs"], "all small label vectors and member score tables",
  "one accuracy test",
  ["meta/one_v_all.go"],
  [("OneVsAllModel Fit/Predict", "meta/one_v_all.go")],
  ["member training data, predictions"])

P("C38", "A reloaded classifier predicts exactly as the one that was saved",
  "For every classifier that supports saving, loading a saved model into a fresh instance and predicting any grid gives the same result as the original, including ensembles whose members share one file. Saving does not change the model, and loading a file saved by a different kind of classifier is an error rather than a crash.",
  ["inputs", "configurations"], "all savable classifiers trained on all small training sets, all queries",
  "tests reload three classifiers once each",
  ["base/serialize.go", "knn/knn.go", "trees/id3.go", "meta/bagging.go", "meta/one_v_all.go", "ensemble/", "linear_models/linearsvc.go", "naive/bernoulli_nb.go"],
  [("Save/Load with prefixes", "each classifier")],
  ["predictions before and after"])

P("C39", "Bernoulli naive Bayes predicts the class of highest smoothed likelihood",
  "For every binary training set, the learned class priors and conditional probabilities are the add-one smoothed counts of the training rows (n+1 of N+1), and the predicted class of a row maximises the prior times the product of the feature likelihoods, counting absent features too (an absent feature that all N rows of the class have counts 1 of N+1). Every training set with at least one row per class can be fitted and used.",
  ["inputs"], "all binary training sets up to four rows and three features, all queries",
  "tests use one document collection",
  ["naive/bernoulli_nb.go"],
  [("Fit, PredictOne", "naive/bernoulli_nb.go")],
  ["predictions"])

P("C40", "Linear regression computes the least-squares fit",
  "For every training set with full column rank, the fitted intercept and coefficients minimise the squared error, so residuals are orthogonal to every attribute and sum to zero, and predictions are the linear function of the attributes in their own columns. Predicting before fitting and fitting with too few rows are errors.",
  ["inputs"], "all small integer data sets up to three attributes, any class column position",
  "one data set",
  ["linear_models/linear_regression.go"],
  [("QR decomposition fit", "linear_models/linear_regression.go")],
  ["predictions"])

P("C41", "Linear classifiers see the same features in training and prediction",
  "A support-vector or logistic model assigns to each row the class on whose side of the learned hyperplane the row lies, using every feature value - positive, zero or negative - exactly as in training, whatever the column order, independent of the other rows predicted with it, and also after saving and loading. Training minimises the penalised loss it was asked for, with its class weights, over exactly the given features; training data separated by a hyperplane through the origin is classified correctly at high C, and invalid penalty/loss combinations are rejected.",
  ["inputs", "configurations"], "all small separable data sets incl. negative features, all parameter combinations",
  "tests classify two rows with positive features",
  ["linear_models/liblinear.go", "linear_models/linearsvc.go", "linear_models/logistic.go", "linear_models/util.go"],
  [("feature vector conversion", "linear_models/liblinear.go")],
  ["predictions"])

P("C42", "Neural networks compute the forward pass and gradients of their weights",
  "Activating a network propagates exactly the weighted sums, biases and activation functions of its neurons for the given number of steps. In a network without cycles the back-propagated errors are the gradient of the squared error of the outputs, and the updates move every existing connection (other than a neuron's to itself) and every bias of a neuron that is no input by the learning rate times it, however small its weight; absent connections stay absent. A layered network connects each layer only and fully to the next, trains by this step row after row until the mean over the rows of a pass of the squared error falls below the limit or the passes are used up, and predicts from its output neurons: their values for float classes, the training value with the largest output (or the side of one half) for a categorical class, whatever the order of the columns and of the class values of the query.",
  ["inputs", "configurations"], "all small networks over a weight alphabet and all input vectors over a small alphabet; all small data sets with every drawn weight small once",
  "tests train XOR and inspect one structure",
  ["neural/network.go", "neural/layered.go", "neural/funcs.go"],
  [("Activate, Error, UpdateWeights, UpdateBias", "neural/network.go"), ("Fit, Predict", "neural/layered.go")],
  ["activations, weights, predictions"])

P("C43", "The averaged perceptron labels each row by its own score",
  "After training, each row of a prediction grid gets the second class exactly when its own score - its numeric features times the averaged weights - reaches the threshold, independent of the other rows and of the order of the columns. Training presents the rows in order for ten epochs from zero weights, moves the weights by the learning rate times the difference between expected and given side (1 or -1) times the features of the row, and finally averages them over all rows presented.",
  ["inputs"], "all small data sets over a value alphabet",
  "tests check one file",
  ["perceptron/average.go"],
  [("Fit, Predict, score", "perceptron/average.go")],
  ["predictions"])

P("C44", "Principal components are orthonormal, ordered and variance-preserving",
  "Fitting and transforming any full data matrix yields the requested number of components in order of non-increasing variance, uncorrelated with each other, and with all components kept the pairwise distances between rows are preserved. Fit followed by Transform equals FitTransform, and the data passed in is not modified.",
  ["inputs"], "all small integer matrices up to 4x3, all component counts",
  "one matrix",
  ["pca/pca.go"],
  [("SVD-based Fit/Transform", "pca/pca.go")],
  ["transformed matrix"])

P("C45", "Training and predicting never modify the data they are given",
  "Fitting, predicting with, evaluating or saving any classifier, clusterer or filter leaves every cell, attribute and class attribute of the grids passed in unchanged. Prediction results have one row per input row and only the class attributes, and do not alias the input.",
  ["inputs"], "all algorithms on all small grids of a fixed family",
  "tests never look at their inputs afterwards",
  ["knn/", "trees/", "naive/", "meta/", "ensemble/", "linear_models/", "filters/", "clustering/", "evaluation/"],
  [("algorithms read through the grid interface and write only to fresh prediction vectors", "all packages")],
  ["input grids before and after"])

P("C46", "A model depends on its latest training or loading only",
  "Training a model a second time (on data with other rows, columns, column orders or classes), or loading another model into it, leaves nothing of the earlier training behind: it then answers exactly as a new instance trained on or loaded from the same data would. Predicting, saving, and questions or training sets that are refused do not change later answers, and training one instance never changes another.",
  ["histories"], "all sequences of training, loading, saving and asking over a family of data sets, for every learner",
  "tests train each instance once",
  ["knn/", "trees/", "naive/", "meta/", "ensemble/", "linear_models/", "neural/", "perceptron/", "clustering/"],
  [("every Fit and Load starts from an empty model", "all packages")],
  ["answers of reused instances and of new ones"])

P("C47", "Grids and trained models can be read by several goroutines",
  "Operations that only read a grid (columns, values, rows in order, text, copies, views, decompositions, distributions, samples, filters, clustering, writing it out) may run at the same time on one grid, predictions and saves may run at the same time with one trained model, and separate models may be trained at the same time on one grid: there is no data race, no deadlock, and each returns what it returns when nothing else runs. Bagged models rely on this.",
  ["schedules"], "all pairs of read operations on every kind of grid and all learners, all schedules within a bound",
  "tests never share a grid between goroutines, and the race detector only sees what runs",
  ["base/", "meta/bagging.go", "trees/", "knn/", "all learners"],
  [("read operations write to nothing they share", "all packages"), ("bagged models hand one grid to all members", "meta/bagging.go")],
  ["schedules, race reports and results of concurrent readers"])

CLAIMED = {}

def claim(id, tech, note):
    CLAIMED[id] = (tech, note)

STD = "Exhaustive within the bounds printed in the evidence file; real code, no stubs. Small inputs exhaustively; beyond them fixed families of larger ones (up to 300 rows, tens of columns), as listed in the rule. Trusts the Go compiler and the reference model in mc/props. "
claim("C01", SEQ, STD + "Sequences of grid operations up to depth 6 (7 thorough) over 5 attribute definitions; larger grids and other names behave alike is assumed.")
claim("C02", ENUM, STD + "Grids up to 3 rows x 4 columns, views stacked to depth 2. Long grids of 1500 and 5000 (70000) rows with a few operations each. Repeated and gappy row lists of a few hundred rows.")
claim("C03", ENUM, STD + "11 kinds of grid up to 4 rows, every column list and every stop/error point. Long grids of 1500 and 5000 (70000) rows with a few operations each.")
claim("C04", ENUM, STD + "Every choice of filtered attributes for identity, one-to-one and one-to-many harness filters and the library's filters. Every column alone, every pair and all columns by row iteration, up to 600 rows.")
claim("C05", ENUM, STD + "Grids up to 3 rows of every attribute type and grouping, every following single-cell write, map iteration orders rotated. Long grids of 1500 and 5000 (70000) rows with a few operations each.")
claim("C06", ENUM, STD + "Every ordered pair of 878 small grids. Grids with up to 1100 categories that differ late or at the end.")

claim("C07", ENUM, STD + "All value vectors over a numeric alphabet incl. negative and nearly equal numbers, all attribute lists up to three, both directions. Long grids of 1500 and 5000 (20000) rows.")
claim("C08", CHOICE, STD + "Every outcome of every draw on grids up to 4 rows.")
claim("C09", ENUM, STD + "Small grids and every kind of view; every attribute and threshold. Long grids of 1500 and 5000 (70000) rows with a few operations each. Thresholds one rounding step from the values, texts that differ in blanks only.")
claim("C10", SEQ, STD + "All conversion sequences up to a bounded depth over unusual texts and numbers. Lists of up to 70000 texts that differ in one place.")
claim("C11", ENUM, STD + "All attribute lists up to length four over mixed types, duplicates and equal names.")
claim("C12", ENUM, STD + "All small documents over a cell alphabet, with and without header and template. Cells and names beginning with each of 37 characters or words that other readers give a meaning. Documents of 40000 and 100000 rows.")
claim("C13", CHOICE, STD + "Small grids of every kind; map iteration orders explored. Grids of 40000 and 100000 rows.")
claim("C14", ENUM, STD + "Small grids and hand-made documents over a line alphabet; text needing quotes is outside the property. Documents of 40000 and 100000 rows, odd names and texts.")

claim("C15", SEQ, STD + "Every chunking and buffering of the saved bytes and every kind of grid within the bounds.")
claim("C17", SEQ, STD + "Sequences of writes of every kind under a key alphabet with nested prefixes.")
claim("C31", ENUM, STD + "Schemas of up to three attributes and five rows; every candidate subset and order.")
claim("C38", ENUM, STD + "A fleet of 16 kinds of classifier incl. nested ensembles on small data; map iteration orders rotated.")

claim("C30", CHOICE, STD + "Every choice of split rules on small tables (bounded executions), and the library's own generators. Values 1e-12 apart, tables with no column but the class.")
claim("C32", ENUM, STD + "Every small pruning set for every tree grown from small training sets.")

claim("C21", ENUM, STD + "Training sets of up to three rows (four thorough) over representative points, every configuration; cosine distance of zero vectors is outside the property. Neighbours told apart by relative differences down to 2e-8.")
claim("C22", ENUM, STD + "Point multisets on small grids in up to three dimensions, every query and neighbour count. Neighbours told apart by relative differences down to 2e-8; points on the splitting plane.")
claim("C23", ENUM, STD + "Training sequences of up to four (five) points. Neighbours told apart by 1e-8 to 1e-3.")
claim("C24", ENUM, STD + "Vectors of dimension up to three (four) over an alphabet of six values. Vectors 1e-100 to 1e-3 apart and matrices of up to 5x5.")
claim("C25", ENUM, STD + "Class vectors of up to four (five) rows and all small matrices; undefined ratios may be NaN or zero. Scores that differ little beside their size.")
claim("C26", CHOICE, STD + "Every fold assignment of up to six (seven) rows; recording and real classifiers.")

claim("C27", ENUM, STD + "All point multisets of a small integer grid, every radius and minimum size.")
claim("C28", ENUM, STD + "Every pair of cluster maps (partitions with overlaps) over a small key and row alphabet.")
claim("C29", CHOICE, STD + "Every outcome of the initial draws over a set of fractions, up to a bounded number of executions per data set.")
claim("C39", ENUM, STD + "All binary training sets within the bounds and every query, against exact rational arithmetic.")

claim("C40", ENUM, STD + "Integer training sets of up to 5 (6) rows and three attributes, against exact rational normal equations.")
claim("C43", ENUM, STD + "All row sequences of up to 4 (5) rows over small integer features; the reference runs the same updates. Up to 2100 rows, and rows scaled to score next to the threshold.")
claim("C44", ENUM, STD + "Integer matrices up to 4x3 (thorough 5x3, 4x4 over two values).")

claim("C18", ENUM, STD + "Grids up to 3 (4) rows of every kind over ten unusual numbers, matrices up to 4x3, data frames up to three columns and 3 (4) rows.")
claim("C19", ENUM, STD + "Vectors of up to 4 (5) values for binning and up to 7 (8) rows for ChiMerge; the reference merge allows every outcome of exact ties.")
claim("C20", ENUM, STD + "Every list of up to three columns of six kinds, every filtered subset, eight rows.")

claim("C36", SCHED, STD + "Every interleaving (up to reordering of independent operations) of one to four recording members on one to four processors, race detector on; switches inside lock-protected code of package base bounded to one or two. The goroutines, channels and locks of the real code are replaced by instrumented equivalents at build time by a source rewriter.")

claim("C35", CHOICE, STD + "Every outcome of the draws up to a bound on choice points, on tables of up to four attributes; forests of up to three trees under one schedule (C36 explores schedules of the same code).")

claim("C45", CHOICE, STD + "36 kinds of algorithm on small grids of every kind; draws take up to three outcomes at the first points; goroutines run under one schedule.")

claim("C37", ENUM, STD + "All class vectors of up to 5 (6) rows over two to four categories, every score table of up to two rows and three classes, on every kind of grid.")
claim("C33", ENUM, STD + "All multisets of up to 3-6 rows (4-8 thorough) over one to three features with adjacent and huge floating point values, all four criteria, maximum depths -1 to 2, every kind of grid.")
claim("C34", CHOICE, STD + "All multisets of 2-3 rows (4 thorough) over two or three columns, up to 3 trees, samples of 1-4 rows, maximum depths 0-4; draws branch at the first 7-12 choice points (all of them for the smallest configurations).")
claim("C41", ENUM, STD + "All multisets of 1-4 rows (6 thorough) over one to three features incl. negative and zero values, two or three classes, six solvers, two values of C, class weights, every kind of grid; models are exported to compare weights. Random numbers of the C solver are fixed per case.")
claim("C42", ENUM, STD + "All acyclic networks of up to 4 neurons (5 thorough) over four weights, two biases and three activation functions, networks of 3 neurons (4 thorough) with cycles; layered networks with 0-3 hidden layers on all data sets of 1-3 rows (up to 6 thorough) over eleven combinations of input and class types, 0-4 passes. The draws of initial weights are chosen by the explorer, each one small once.")
claim("C16", SEQ, STD + "Grids of every attribute kind and files of 20 kinds of classifier: every cut, every byte with every bit flipped (all 255 other values thorough), every entry missing or cut anywhere; every file operation of a save or load (through an overlay of package os) failing once or from then on, with none, half or all but one byte written, then retried; writers and readers failing at every byte in several chunkings; liblinear's own files cut anywhere and with every file size limit. Changed header bytes that carry no data may load the same data.")

claim("C46", SEQ, STD + "Every sequence of 2 operations (3 thorough) out of up to 15, and of 3 (4) out of a reduced set, for 33 learners over six data sets. Grids written to and grown between trainings and questions.")
claim("C47", SCHED, STD + "Pairs of 23 read operations on 15 kinds of grid, with up to one switch at a lock (thorough: on both tables); pairs of predictions, saves, loads and trainings of 33 learners with the first 4 (6) choices of schedule explored; race detector on.")

NOT_APPLICABLE = {}
NOTES = ""
