import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
T="include/stochtree/tree.h"; TC="src/tree.cpp"; E="include/stochtree/ensemble.h"; CH="include/stochtree/container.h"; CC="src/container.cpp"
PT="include/stochtree/partition_tracker.h"; PTC="src/partition_tracker.cpp"; K="include/stochtree/kernel.h"; TS="include/stochtree/tree_sampler.h"
LM="include/stochtree/leaf_model.h"; LMC="src/leaf_model.cpp"; CU="include/stochtree/cutpoint_candidates.h"; CUC="src/cutpoint_candidates.cpp"
D="include/stochtree/data.h"; DC="src/data.cpp"; R="include/stochtree/random_effects.h"; RC="src/random_effects.cpp"; V="include/stochtree/variance_model.h"; CT="include/stochtree/category_tracker.h"
p("C01","A decision tree stays structurally well formed through every edit history",
"After any sequence of initialising or resetting a tree, splitting leaves (numeric or categorical, scalar or vector leaf values), and collapsing nodes back to leaves, the live nodes form one rooted binary tree: every internal node has exactly two distinct live children that name it as their parent, and every live node other than the root is a child of exactly one live internal node. The tree's reported lists and counts of leaves, internal nodes, leaf parents (internal nodes whose two children are both leaves), deleted nodes and live nodes each name exactly the right nodes once, and node ids are only reused after deletion. Resetting a tree forgets every earlier node, and initialising it (after a reset or any other history) returns it to a single-root tree.",
["histories","inputs"],"every finite sequence of Init/Reset/expand/collapse calls on a tree, with any split rules, leaf values and output dimension",
"the tree tests run a handful of fixed edit sequences (and the tree sources are not even compiled by the pinned test build); stale list entries and id reuse only show after particular expand/prune orders",
[T,TC],[("split a leaf","Tree::ExpandNode/AddNumericSplit/AddCategoricalSplit (src/tree.cpp)"),("turn a node into a leaf and delete descendants","Tree::ChangeToLeaf/CollapseToLeaf/DeleteNode (include/stochtree/tree.h)"),("id allocation","Tree::AllocNode/Init/Reset (src/tree.cpp)")],
[("node arrays","parent_, cleft_, cright_, node_type_","include/stochtree/tree.h"),("node lists","internal_nodes_, leaves_, leaf_parents_, deleted_nodes_","include/stochtree/tree.h")],
["Tree::GetLeaves, GetInternalNodes, GetLeafParents, NumNodes, NumValidNodes, NumLeaves, NumLeafParents, NumSplitNodes, Parent, LeftChild, RightChild, IsLeaf, IsDeleted"])
p("C02","Every observation is routed to a leaf exactly as the split rules say",
"For any well-formed tree and any covariate row, evaluation follows from the root the left child exactly when the covariate of the node's split variable is at most the numeric threshold (numeric split), or its integer category is a member of the node's category set (categorical split), and the right child otherwise, and stops at a live leaf. A missing (NaN) covariate goes to the left (default) child at every split, and a covariate that is negative or too large to be a category code never matches a category set (other values are compared by their integer part). Standalone split rules applied to single values agree with this routing for non-missing values.",
["inputs"],"all well-formed trees of any shape and all covariate rows, including NaN, exact ties with thresholds and arbitrary category codes",
"tests route a few fixed rows through two- or three-node trees; ties, NaN, large or negative category codes, and deep trees are unreached",
[T,TC],[("routing","EvaluateTree, NextNodeNumeric, NextNodeCategorical, SplitTrueNumeric, SplitTrueCategorical, RowSplitLeft (include/stochtree/tree.h)"),("stored rules","Tree::SetNumericSplit, SetCategoricalSplit, CategoryList (src/tree.cpp)"),("free rule","TreeSplit::SplitTrue")],
[("split rule","split_index_, threshold_, category_list_[begin,end) per node","include/stochtree/tree.h")],["EvaluateTree","Tree::PredictLeafIndexInplace","TreeSplit::SplitTrue"])
p("C03","Splits, prunes and leaf updates change exactly the nodes they name",
"Splitting a leaf records the requested variable, rule and two leaf values on that node and its two new children, pruning a node leaves it as a leaf with the requested value and removes exactly its descendants, and setting a leaf value or vector changes that leaf alone. Every other live node keeps its kind, parent, children, split rule (threshold or category set) and leaf value or vector, however many vector leaves and category sets were stored before. The recorded number of outputs per leaf never changes through these edits.",
["histories","inputs"],"every edit applied to every reachable tree, observed at every node of the tree before and after",
"tests look at the node just edited; corruption of another node's offset-addressed leaf vector or category set needs a longer history",
[T,TC],[("leaf values","Tree::SetLeaf, SetLeafVector, LeafValue, LeafVector (src/tree.cpp)"),("rules","Tree::SetNumericSplit, SetCategoricalSplit, CategoryList"),("expand and collapse","Tree::ExpandNode, ChangeToLeaf, CollapseToLeaf")],
[("offset tables","leaf_vector_begin_/end_, category_list_begin_/end_","include/stochtree/tree.h")])
p("C04","Forests survive a JSON save and load unchanged",
"Writing a tree, an ensemble or a container of forest samples to JSON and reading it back (into a fresh or an already used object) yields an object with the same number of samples, trees, outputs and nodes, the same structure, split rules, leaf values and vectors, node lists and counts, so that it gives identical predictions and leaf assignments for every input and behaves identically under further edits.",
["inputs","histories"],"all trees, ensembles and containers reachable through the public operations, including pruned trees with deleted nodes, categorical splits, vector leaves and multiple samples",
"the serialization test writes a few small trees; pruned trees with deleted ids, mixtures of categorical and numeric splits and multi-sample containers are not covered",
[T,TC,E,CH,CC],[("tree","Tree::to_json, Tree::from_json and the *ToJson / JsonTo* helpers (src/tree.cpp)"),("ensemble","TreeEnsemble::to_json, from_json (include/stochtree/ensemble.h)"),("container","ForestContainer::to_json, from_json (src/container.cpp)")])
p("C05","Copied trees and forests equal their source and are independent of it",
"Cloning a tree, copying an ensemble from another, or starting a new sample from the previous one yields an equal tree or forest; afterwards edits to either one leave the other untouched. Adding samples to a container and initialising roots preserve all existing samples, and the container's sample count always equals the number of samples it can be asked for. A new forest starts with every tree a single root holding the requested value in each output.",
["histories","inputs"],"all histories of adding samples, copying, initialising and editing in any order",
"tests copy at most one tree and never edit both copies afterwards",
[T,TC,E,CH,CC],[("copy","Tree::CloneFromTree, TreeEnsemble copy constructor, CloneFromExistingTree, ForestContainer::CopyFromPreviousSample"),("growth","ForestContainer::AddSamples, InitializeRoot, IncrementSampleCount")])
p("C06","A forest prediction is the sum of its trees' leaf contributions",
"For every observation the forest prediction equals the sum over all trees of the contribution of the leaf that the observation is routed to: the leaf value without a basis, or the inner product of the leaf's values with the observation's basis row. Raw predictions give, per output, the sum of the leaf values, and predictions from tracked leaf assignments or from node indices agree with routing from scratch. Results for multiple samples are laid out sample by sample and observation by observation (and output by output for raw predictions), every slot written exactly once.",
["inputs","configurations"],"all forests, all datasets (any number of rows, trees, outputs, samples), with and without basis",
"tests predict on a couple of tiny forests; layout and accumulation errors need several samples, trees and outputs together",
[T,TC,E,CH,CC],[("tree","Tree::PredictFromNode, InplacePredictFromNodes, PredictRawFromNode"),("ensemble","TreeEnsemble::Predict, PredictInplace, PredictRaw, PredictRawInplace (include/stochtree/ensemble.h)"),("container","ForestContainer::Predict, PredictRaw (src/container.cpp)")])
p("C07","Leaf indices identify leaves one-to-one and kernels count shared leaves",
"The leaf index matrix of a forest gives, for every tree and observation, an index that identifies the leaf the observation is routed to: within the forest two observations share an index in a tree exactly when they share the leaf, indices of different trees never collide, and all indices are non-negative and below the forest's reported bound. Kernel entries computed from the indices equal the number (or fraction) of trees in which the two observations share a leaf, so the self kernel is symmetric with full agreement on the diagonal.",
["inputs"],"all forests (including trees with deleted node ids) and all pairs of datasets",
"tests check one fixed forest; collisions need trees of different size or with gaps in the leaf numbering",
[E,K,T,TC],[("indices","TreeEnsemble::PredictLeafIndices, PredictLeafIndicesInplace, Tree::PredictLeafIndexInplace"),("kernel","ForestKernel::ComputeLeafIndices, ComputeKernel, ComputeKernelExternal (include/stochtree/kernel.h)")])
p("C08","Each tree's node ranges always partition the observations",
"During sampling, for every tree and at every moment between updates, the live leaves' observation lists are disjoint, jointly contain every training observation exactly once, and agree with the recorded node assignment of each observation. Splitting a leaf moves exactly its own observations, sending those satisfying the rule to the left child and the others to the right child, and pruning merges exactly the two children's observations back into the parent. Reported begin, end and size of a node's list are consistent with each other and with the observations it contains.",
["histories","inputs"],"all histories of splits and prunes on any dataset, numeric or categorical rules, including empty children and reused node ids",
"tests perform one or two splits; merging order, node id reuse and empty children are unreached",
[PT,PTC],[("node lists","FeatureUnsortedPartition::PartitionNode, PruneNodeToLeaf, ExpandNodeTrackingVectors (src/partition_tracker.cpp)"),("assignment map","SampleNodeMapper, UnsortedNodeSampleTracker::PartitionTreeNode (include/stochtree/partition_tracker.h)"),("driver","ForestTracker::AddSplit, RemoveSplit")],
[("indices_","permutation of the observations","include/stochtree/partition_tracker.h"),("node_begin_/node_length_","range of each node","include/stochtree/partition_tracker.h")])
p("C09","Presorted node ranges keep every feature sorted after splits",
"For every feature, the presorted lists used by the grow-from-root sampler contain, in each node's range, exactly the node's observations, in non-decreasing order of that feature with ties in original order. Splitting a node's range puts the observations satisfying the rule first (left child) and the others after them (right child) without disturbing any other node's range. The ranges of all features describe the same nodes with the same sizes.",
["histories","inputs"],"all sequences of splits on all datasets with ties, numeric and categorical rules",
"the sorted-partition test makes one fixed split on four to ten rows",
[PT,PTC],[("presort","FeaturePresortRoot::ArgsortRoot (include/stochtree/partition_tracker.h)"),("partition","FeaturePresortPartition::SplitFeature, SplitFeatureNumeric, SplitFeatureCategorical, AddLeftRightNodes (src/partition_tracker.cpp)"),("tracker","SortedNodeSampleTracker::PartitionNode")])
p("C10","Training assignments agree with prediction-time routing",
"After any sequence of adding and removing splits through the sampler's update operations, the leaf in which the tracker places each training observation (without missing covariates) is the leaf the finished tree routes that observation to at prediction time. Consequently predictions from tracked assignments equal predictions from routing the same rows afresh.",
["histories","inputs"],"all interleavings of adding and removing splits on all trees of a forest, numeric and categorical, for all covariate matrices without missing values",
"no test compares the tracker with tree evaluation after prunes or categorical splits",
[TS,PT,PTC,T,TC],[("update","AddSplitToModel, RemoveSplitFromModel (include/stochtree/tree_sampler.h)"),("tracker","ForestTracker::AddSplit, RemoveSplit (src/partition_tracker.cpp)"),("routing","EvaluateTree, TreeSplit::SplitTrue")])
p("C11","Candidate cutpoints bin a node's observations completely and consistently",
"For every node and feature, the candidate bins partition the node's observations into consecutive non-empty runs that together cover the node exactly, and there are never more bins than distinct values nor, for a numeric feature, more bins than the requested grid size; when the node has no more observations than the grid size, or the feature is categorical, every distinct value has a bin of its own. For a numeric or ordered feature the cutpoint of a bin separates: exactly the observations in that bin and earlier ones have a value at most the cutpoint. Identical values never fall in two different bins; for an unordered feature the category list of a bin names exactly the categories of that bin and the earlier ones.",
["inputs"],"all node contents, feature values (with ties), feature types and requested grid sizes",
"cutpoint tests use three hand-made columns without ties on bin boundaries",
[CU,CUC],[("numeric","FeatureCutpointGrid::CalculateStridesNumeric, EnumerateNumericCutpointsDeduplication, ScanNumericCutpoints (src/cutpoint_candidates.cpp)"),("categorical","CalculateStridesOrderedCategorical, CalculateStridesUnorderedCategorical"),("queries","NumericCutpointVector, CategoricalCutpointVector, BinStartIndex, BinLength, BinEndIndex")])
p("C12","Node sufficient statistics count each observation exactly once",
"The statistics accumulated for a node, a candidate left or right child, or a candidate bin equal the exact sums, over precisely the observations belonging there, of count, basis terms and residual terms, each observation weighted by the inverse of its variance weight when weights are present. Adding and subtracting statistics behaves as componentwise addition and subtraction, resetting gives zero, so left plus right always equals the parent for the same rule.",
["inputs","histories"],"all datasets with or without basis and weights, all partitions, rules and bins, for the constant, univariate-regression and multivariate-regression leaf models",
"tests compare log marginal likelihoods on ten fixed rows, without weights",
[LM,LMC,TS],[("increments","*SuffStat::IncrementSuffStat, AddSuffStat, SubtractSuffStat, ResetSuffStat (src/leaf_model.cpp)"),("accumulation","AccumulateSuffStatProposed, AccumulateSuffStatExisting, AccumulateCutpointBinSuffStat, AccumulateSingleNodeSuffStat"),])
p("C13","Leaf likelihoods and posteriors match the conjugate Gaussian formulas",
"For each leaf model the split and no-split log marginal likelihoods equal, up to a term common to both alternatives, the closed-form log marginal likelihood of the conjugate Gaussian leaf model, so their differences rank candidate splits correctly; a split's value is the sum over its two children. The leaf parameter posterior mean and variance used for sampling are the exact conjugate posterior given the node's statistics, the error variance and the leaf prior variance.",
["inputs"],"all statistics, error variances and leaf prior scales (scalar or matrix)",
"tests check two or three numbers for the constant and regression models, and none for the multivariate model's posterior",
[LM,LMC],[("constant","GaussianConstantLeafModel::SplitLogMarginalLikelihood, NoSplitLogMarginalLikelihood, PosteriorParameterMean, PosteriorParameterVariance (src/leaf_model.cpp)"),("univariate regression","GaussianUnivariateRegressionLeafModel"),("multivariate regression","GaussianMultivariateRegressionLeafModel")])
p("C14","Backfitting bookkeeping: residual plus fit always equals the outcome",
"Adding a tree's (or a whole forest's, or the random effects') current contribution back into the residual and subtracting it again restores the residual for every observation, and the cached per-tree prediction used for the add-back is always the prediction of that tree for that observation as last subtracted. Hence after every complete sweep, residual plus the sum of all contributions equals the outcome the sweep started from.",
["histories","inputs"],"all interleavings of residual updates, tree edits and leaf draws across trees; any dataset with or without basis",
"no test follows the residual through a sweep",
[TS,PT,PTC,R,RC],[("tree","UpdateResidualTree, UpdateResidualEntireForest (include/stochtree/tree_sampler.h)"),("cache","ForestTracker::SetTreeSamplePrediction, GetTreeSamplePrediction, SamplePredMapper"),("random effects","MultivariateRegressionRandomEffectsModel::AddCurrentPredictionToResidual, SubtractNewPredictionFromResidual, RandomEffectsTracker")])
p("C15","No sampler ever applies a split that leaves a child below the minimum leaf size",
"Every split the MCMC or grow-from-root sampler applies gives both children at least the configured minimum number of training observations. Hence at the end of any sampling run every leaf of every grown tree holds at least that many training observations. Candidate cutpoints that fail the minimum on either side are never chosen.",
["histories","inputs"],"all datasets, priors and random streams, for both samplers and all leaf models",
"tests never run the samplers on data where undersized splits are likely",
[TS,"include/stochtree/prior.h"],[("MCMC","MCMCForestSampler::GrowTreeOneIter (include/stochtree/tree_sampler.h)"),("GFR","EvaluateCutpoints, GFRForestSampler::SampleSplitRule")])
p("C16","Variance draws use the conjugate inverse-gamma posterior",
"The global error variance is drawn from an inverse gamma with shape half of (prior degrees of freedom plus number of observations) and scale half of (prior degrees of freedom times prior scale plus the residual sum of squares). The leaf variance is drawn from an inverse gamma with shape the half prior shape plus half the number of leaves and scale the half prior scale plus half the sum of squared leaf values over all leaves of all trees; each random-effects variance component uses shape prior plus half the number of groups and scale prior plus half the sum of squared group coefficients. An inverse gamma draw has exactly the requested shape and scale.",
["inputs"],"all residual vectors, forests, group parameter matrices and prior settings",
"no test touches the variance models",
[V,"include/stochtree/ig_sampler.h",RC,R,E],[("global","GlobalHomoskedasticVarianceModel::PosteriorShape, PosteriorScale (include/stochtree/variance_model.h)"),("leaf","LeafNodeHomoskedasticVarianceModel::PosteriorShape, PosteriorScale; TreeEnsemble::SumLeafSquared, NumLeaves"),("random effects","VarianceComponentShape, VarianceComponentScale (src/random_effects.cpp)"),("draw","InverseGammaSampler::Sample")])
p("C17","Group label tracking places each observation in exactly one correct group",
"From any vector of integer group labels the category tracker reports the number of distinct labels, numbers the labels consistently in increasing order, and gives each group a list holding exactly the observations with that label, so the groups partition the observations and their reported begin, end and size agree. The per-observation category lookup returns the number of that observation's label, and stays what was last set.",
["inputs"],"all label vectors: any length, order, repetition pattern, including singleton groups and a single observation",
"the test uses one fixed vector whose last group has several members",
[CT,R],[("construction","CategorySampleTracker constructor, CategoryBegin/End/Size, NodeIndices (include/stochtree/category_tracker.h)"),("lookup","SampleCategoryMapper")])
p("C18","Stored random-effects samples are returned, predicted and saved faithfully",
"Each random-effects sample added to a container is stored so that every parameter can be read back for its sample, component and group, regardless of later samples. Predicting returns, for every sample and observation, the sum over components of basis value times the parameter product stored for that observation's labelled group, and saving to JSON and loading (into a fresh or used object) reproduces container, group numbering and predictions. Unknown group labels are reported as errors rather than silently mapped to a known group.",
["inputs","histories"],"all numbers of samples, components, groups, observations and all label sets",
"tests add samples of one fixed model and check a few predictions, and no unknown labels or reloads into used objects",
[R,RC],[("store","RandomEffectsContainer::AddSample, AddAlpha, AddXi, AddBeta, AddSigma (src/random_effects.cpp)"),("predict","RandomEffectsContainer::Predict"),("labels","LabelMapper (include/stochtree/random_effects.h)"),("json","RandomEffectsContainer::to_json, from_json, LabelMapper::to_json, from_json")])
p("C19","Loaded data keep every value in its row and column",
"Loading a numeric buffer as a matrix with given dimensions and storage order gives back, at every row and column, the buffer element that the storage order assigns there, for covariates, bases, weights and outcomes alike. Replacing a basis replaces its values entirely and requires the same number of observations. Data held by a dataset is a copy: later changes to the caller's buffer do not affect it.",
["inputs","histories"],"all dimensions, storage orders and contents",
"the data tests load one or two small matrices",
[D,DC],[("load","ColumnMatrix::LoadData, ColumnVector::LoadData (src/data.cpp)"),("dataset","ForestDataset::AddCovariates, AddBasis, AddVarianceWeights, UpdateBasis; RandomEffectsDataset")])
p("C20","Split feasibility checks see the true range of the data in a node",
"The range reported for a feature within a node is exactly the minimum and maximum of that feature over the node's observations, whatever their sign and order. A node is reported splittable exactly when some feature takes at least two values in it, and a proposed split leaves splittable children exactly when some feature takes at least two values in each child.",
["inputs"],"all node contents and covariate values of any sign and order",
"no test calls these helpers on negative, decreasing or constant data",
[TS],[("range","VarSplitRange (include/stochtree/tree_sampler.h)"),("constancy","NodeNonConstant, NodesNonConstantAfterSplit")])
p("C21","Sampling is reproducible from its seed",
"Running a sampler twice from the same data, prior settings, initial state and random seed produces identical forests, residuals and variance draws.",
["inputs","histories"],"all datasets, settings and seeds","no test reruns a sampler",
[TS,"include/stochtree/random.h",LM],[("random streams","std::mt19937 passed through the samplers (include/stochtree/tree_sampler.h)")])
p("C22","MCMC moves leave the posterior over trees invariant",
"The grow and prune acceptance probabilities satisfy detailed balance with respect to the posterior implied by the tree prior, leaf model and proposal distributions.",
["inputs","histories"],"all trees, datasets and settings","a distributional statement no finite test settles",
[TS],[("acceptance","MCMCForestSampler::GrowTreeOneIter, PruneTreeOneIter")])
p("C23","Python and R front ends pass data and settings through unchanged",
"Covariates, bases, group labels and prior settings given to the high-level Python and R interfaces reach the compiled core with the values and column order the user supplied (after documented preprocessing), and predictions come back in original units and order.",
["inputs","configurations"],"all data frames and matrices and all option combinations","the Python and R tests cover one or two preprocessing examples",
["stochtree/bart.py","stochtree/bcf.py","stochtree/preprocessing.py","R/bart.R","R/bcf.R","src/py_stochtree.cpp"],[("preprocessing","CovariateTransformer (stochtree/preprocessing.py)"),("glue","src/py_stochtree.cpp, src/R_data.cpp")])
p("C24","Random-effects coefficients are drawn from their conditional Gaussian posterior",
"Given the residual, the other parameters, the error variance and the prior, the mean and variance used to draw a group's coefficients are those of the conjugate Gaussian regression on exactly that group's observations with design working-parameter-times-basis, and the mean and variance used to draw the working parameters are those of the regression on all observations with design group-coefficient-times-basis. A draw for a group changes that group's coefficients alone, and the covariance used is symmetric positive definite.",
["inputs"],"all datasets, group labels, current parameter values, priors and error variances",
"the random effects test checks construction and prediction only, never the sampler's moments",
[R,RC],[("group coefficients","GroupParameterMean, GroupParameterVariance, SampleGroupParameters (src/random_effects.cpp)"),("working parameters","WorkingParameterMean, WorkingParameterVariance, SampleWorkingParameter (src/random_effects.cpp)")])
for q in P:
    n=q["statement"].count(". ")+1
    if n>3 or len(q["title"])>80: print(q["id"],n,len(q["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
