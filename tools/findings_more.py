FIXED += [
 ("C10", "deserialise categorical attributes", "a categorical attribute without values could not be read back a second time"),
 ("C12", "estimate the precision of every number", "the precision of numbers after the first column was not seen"),
 ("C12", "do not count the header as a row", "ParseCSVToInstancesWithAttributeGroups returned an extra empty row for files with headers"),
 ("C12", "parsing CSV input without records", "empty or header-only CSV input crashed the parser"),
 ("C14", "split ARFF categories at commas", "ARFF category lists with mixed separators were read wrongly"),
 ("C14", "count the rows of an ARFF file", "ARFF rows starting with '@' were read but not counted"),
 ("C14", "writing ARFF replaces", "the tail of an existing longer file stayed behind"),
 ("C13 C15", "saving instances replaces", "the tail of an existing longer file stayed behind"),
 ("C16", "report write errors when serialising to CSV", "failed writes were not reported"),
 ("C16", "report write errors when serialising to ARFF", "failed writes were not reported"),
 ("C15", "restore instances whatever sizes", "short reads were taken for a damaged file"),
 ("C16", "verify the checksum", "cut-off or changed files were accepted"),
 ("C16", "refuse classifier files", "cut-off or changed classifier files were accepted"),
 ("C16", "report flush and sync errors", "a failed sync was not reported"),
 ("C17", "storing only the structure", "entries after a structure-only entry could not be written"),
]
KNOWN += [
 {"property": "C15", "what": "category texts and column names that are not valid UTF-8 come back as U+FFFD (attributes are stored as JSON); a repair needs a new file format", "inputs": ["not-utf8"]},
]
FIXED += [("C16", "check a saved grid's checksum", "a changed byte in the stored sizes crashed the reader before the checksum was looked at")]
FIXED += [
 ("C38 C16", "KNN classifiers can be saved inside", "KNN.SaveWithPrefix closed the shared file and wrote no metadata at its prefix: ensembles of KNN could not be saved"),
 ("C38", "loading a KNN classifier from another", "loading a naive Bayes file into a KNN classifier crashed"),
 ("C38 C22", "ties between KNN classes", "ties between classes were broken by map iteration order"),
 ("C38 C39", "ties between naive Bayes classes", "ties between classes were broken by map iteration order"),
 ("C38 C16", "random trees report failed saves", "RandomTree.Save ignored errors of the final flush; loading another classifier's file succeeded"),
 ("C38", "decision trees refuse", "an ID3 tree silently loaded a random tree's file"),
 ("C38", "one-vs-all models can be saved inside", "OneVsAllModel.SaveWithPrefix closed the shared file"),
 ("C16", "report errors when finishing a saved bagged", "errors of the final flush were dropped"),
 ("C16", "report errors when finishing a saved random forest", "errors of the final flush were dropped"),
 ("C16", "report errors when finishing a saved multi-class", "errors of the final flush were dropped"),
 ("C16", "report errors when finishing a saved naive", "errors of the final flush were dropped"),
 ("C16 C38", "linear SVCs report failed saves", "failed writes were dropped and every save and load left a temporary file"),
 ("C38", "refuse to load part of a bagged", "loading into fewer models silently dropped the others"),
 ("C38", "a reloaded random forest has all", "a forest loaded into a smaller instance silently dropped trees"),
]
FIXED += [
 ("C39", "naive Bayes can be trained on classes", "training crashed when no row of a class had a feature"),
 ("C39 C38", "training naive Bayes again", "conditional probabilities of an earlier training were kept and saved"),
]
FIXED += [
 ("C38 C22", "SortIntMap orders equal", "which of several equally near neighbours voted depended on map iteration order"),
]
FIXED += [
 ("C31", "compute the Gini impurity", "computeGini always returned 1, so the first attribute was always chosen"),
 ("C31 C38", "the Gini rule never splits a constant", "a constant numeric attribute was chosen with threshold +Inf, and the tree could not be saved"),
 ("C30", "decision trees use the last", "trees never split on the last remaining attribute"),
 ("C35", "random trees stop drawing", "growing a random tree never ended once fewer attributes remained than are drawn at each node"),
 ("C31", "the gain ratio divides", "the gain was divided by the conditional entropy: NaN or infinite ratios and wrong choices"),
]
FIXED += [
 ("C31", "consider every threshold between neighbouring", "values equal to others and values just past a tried threshold were skipped, so better thresholds were missed"),
]
FIXED += [
 ("C32", "prune each child of a decision tree on the rows", "numeric splits and values unseen in training were judged on the wrong rows, so pruning could lower the accuracy on the pruning set"),
 ("C32", "ID3 reports an empty training split", "Fit crashed when the random split left no row for training"),
]
FIXED += [
 ("C25", "evaluation counts classes which were predicted", "micro and macro precision, the summary and the shown matrix left out classes that were predicted but never occur"),
]
FIXED += [
 ("C21", "weighted KNN doesn't use", "Weighted was ignored for Euclidean distance on stored numeric grids"),
 ("C21", "KNN never measures distances by the class", "a numeric class was used as a feature when other columns are categorical, or a feature was dropped when the class was not last"),
 ("C21", "KNN reports when there are fewer rows", "asking for more neighbours than rows crashed, or with a k-d tree silently predicted the first class"),
 ("C21", "optimised KNN compares distances in double", "distances were compared in single precision"),
 ("C21", "optimised KNN can predict grids without rows", "predicting an empty grid crashed"),
 ("C22 C21", "k-d tree search never returns a node without", "a phantom point at the origin was reported as row 0"),
 ("C22 C21", "k-d tree search with cosine distance", "nearest neighbours by cosine distance were pruned by the distance along one axis"),
 ("C24 C21", "cosine distances are never negative", "rounding made the cosine distance of parallel vectors negative, so weighted votes of exact matches counted against their class"),
 ("C24", "polynomial kernels use every element", "only the first element of row vectors was used"),
]
FIXED += [
 ("C28", "cluster maps with other points", "a map whose clusters contain only some of the other's points was reported equal"),
 ("C27", "DBSCAN adds the border points", "border points visited before their core point were left out, and a core point next to an earlier noise point crashed"),
 ("C27", "DBSCAN looks at the first row again", "row 0 was left out of a cluster that reached it through another row"),
 ("C27", "DBSCAN keeps clusters which share", "clusters whose border points were taken by another cluster were removed, core points included"),
]
FIXED += [
 ("C29", "mixture components without any rows", "a component that no row belongs to crashed the fit"),
 ("C29", "mixture models predict grids without", "predicting an empty grid crashed"),
 ("C29", "mixture components on a line or point", "a component whose rows coincide or lie on a line has a singular covariance, and the fit crashed"),
 ("C29", "mixture models only use numeric", "categorical indices were used as coordinates, and binary cells were read beyond their end"),
]
FIXED += [
 ("C44 C45", "PCA no longer centres the caller's matrix", "Fit subtracted the means from the caller's matrix and Transform of other rows was not centred"),
 ("C43", "perceptron writes negative labels", "every row with a negative score reset the label of row 1 (and crashed grids of one row)"),
 ("C43", "the averaged perceptron learns from the class", "training ignored the class of the rows, replaced weights instead of adding to them and did not average"),
 ("C43", "the perceptron pairs its weights", "a grid with another column order was scored with the wrong columns"),
 ("C43", "the perceptron uses the learning rate and threshold", "the arguments of the constructor were shifted by one field"),
]
FIXED += [
 ("C18", "importing a data frame keeps all digits", "numbers were rounded to six decimals"),
 ("C18", "data frames with missing values or no rows", "a missing value in the first row, any missing number, or an empty frame crashed the import"),
 ("C20", "negative numbers are non-zero", "negative numbers became 0 in binary columns"),
 ("C19", "binning gives values above the training data", "values above the largest training value got categories that do not exist"),
 ("C19", "discretised attributes keep a category for each", "bounds that print alike shared one category, so training values had categories that do not exist"),
 ("C19", "ChiMerge maps the lower bound", "a value equal to the lower bound of its interval was put into the interval below"),
 ("C19", "ChiMerge merges intervals of data with one or two", "nothing was merged unless there were three classes"),
]
FIXED += [
 ("C36", "bagged models report the errors of their members", "Fit and Predict dropped the error of a member: the model was used untrained, or the vote of a member that failed was missing or crashed the call"),
]
FIXED += [
 ("C45", "prediction vectors have class attributes of their own", "predicted classes that the query's class attribute lacks were added to the query's own attribute"),
 ("C45 C08", "splitting off test data leaves the order", "training a tree with a pruning split shuffled the rows of the caller's grid"),
 ("C26 C30 C45", "trees report training data without any rows", "a tree trained on an empty fold crashed every later prediction"),
]
FIXED += [
 ("C37", "one-vs-all picks the highest score when all are negative", "the first class was predicted whenever no member's score is above zero"),
 ("C37", "one-vs-all predicts classes by name", "a query whose class attribute lists the classes in another order got another class"),
 ("C37", "one-vs-all models report the errors of their members", "errors of members in training were dropped"),
]
FIXED += [
 ("C33", "CART classifier: a tree without splits", "a classifier that cannot split predicted label 0"),
 ("C33", "CART regressor: a tree without splits", "a regressor that cannot split predicted 0"),
 ("C33", "CART trees: thresholds separate adjacent", "splits between adjacent or huge values left one side empty"),
 ("C33", "CART regressor: equal targets have no impurity", "nodes of equal targets were split because of rounding"),
 ("C33", "CART trees: predictions don't depend on the column order", "queries with another column order were read by position"),
]
FIXED += [
 ("C34", "isolation forest: thresholds lie within", "thresholds beyond close or huge values left a side without rows"),
 ("C34", "isolation forest: trees without splits", "a tree that cannot split counted as a path of length one; samples of one row divided by infinity"),
 ("C34", "isolation forest: scores don't depend on the column order", "queries with another column order were read by position"),
]
FIXED += [
 ("C41", "linear models: predictions use negative", "negative feature values were ignored in prediction"),
 ("C41", "linear models: predictions don't depend on the column order", "queries with another column order were read by position"),
 ("C41 C38", "linear models: saved models keep all digits", "a loaded model had slightly different weights"),
 ("C41", "linear models: problems with a bias", "a bias was written outside of the weights (index -1) and never used"),
 ("C41 C38", "linear models: a restored model trains with its own", "a loaded LinearSVC trained again with the parameters it was constructed with"),
 ("C41", "linear models: the dual solver doesn't stop", "the dual solver stopped while all projected gradients were equal and far from zero, leaving separable rows misclassified"),
]
FIXED += [
 ("C42", "neural.SoftplusRectifier", "softplus used the sigmoid's derivative; inputs above 709 overflowed"),
 ("C42", "neural.Network.UpdateWeights", "connections with a weight of at most 0.005, or set after the first update, were cut by the next update"),
 ("C42", "neural.MultiLayerNet.Fit: initialise the output", "the last output neuron had no bias, the last hidden one's was drawn twice"),
 ("C42", "neural.MultiLayerNet.Predict: read the class", "classes were read from hidden neurons; a class with two values was always predicted as the first"),
 ("C42", "neural.MultiLayerNet.Predict: find neurons", "queries with categorical or binary columns or own attributes panicked, float classes of another grid got the first input"),
 ("C42", "neural.MultiLayerNet.Fit: forget", "training again added class neurons up"),
 ("C42", "neural.MultiLayerNet.Fit: stop by", "errors of several outputs cancelled in the stopping rule; a single row never converged"),
]

FIXED += [
 ("C16", "linear models: report incomplete model files", "a liblinear model file that was cut was loaded with garbage, or loading it never ended"),
 ("C16", "base.GetU64ForKey: report values", "a stored number that was cut crashed the reader"),
 ("C16", "base: report failing reads of CSV data", "CSV readers panicked when reading failed, and ignored failing seeks"),
]
FIXED += [("C41", "linear models: restore the stopping rule", "the repair above was undone by mistake by another one")]
FIXED += [("C12 C13","estimate the precision of CSV files with long lines","a line of more than 64 KB among the first six ended the search for the longest fraction, so numbers were printed (and written back) with too few digits")]
FIXED += [("C36 C38","bagged models stop drawing when","fitting a bagged model that asks for more attributes than the data has never returned")]

FIXED += [("C43 C46", "an averaged perceptron that is trained again", "training a perceptron again went on from the averaged weights of the earlier training")]
FIXED += [("C31", "thresholds separate adjacent and very large numbers", "the threshold between adjacent numbers was the larger one, and that between very large ones infinite, so no row was separated"),
 ("C19", "chi-squared percentiles are right for large values", "ChiMerge joined intervals whose class distributions differ most: the percentile of a large statistic was taken for small (from four classes and about 500 rows)")]

FIXED += [("C12", "CSV templates may have several categorical columns", "ParseCSVToTemplatedInstances panicked when the template had two categorical columns with different categories"),
 ("C11", "class attributes of views are attributes of the view", "NonClassAttributes of a view contained the class when the class had been named by an equal attribute"),
 ("C11", "class attributes of filtered grids are attributes of the grid", "NonClassAttributes of a filtered grid contained the class when the class had been named by an equal attribute")]
