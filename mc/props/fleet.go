package props

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/knn"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/naive"
	"github.com/sjwhitworth/golearn/trees"
)

// model is what all savable models have in common.
type model interface {
	Predict(base.FixedDataGrid) (base.FixedDataGrid, error)
	Save(string) error
	Load(string) error
}

// savable is one kind of classifier that can be saved.
type savable struct {
	name  string
	group string // kind of classifier: files of another group must be refused
	data  byte   // N numeric, M mixed, B bits, S numeric with a 0/1 class
	nfit  int    // fewest rows it is trained on
	make  func() model
	fit   func(m model, g base.FixedDataGrid)
}

func fitAny(m model, g base.FixedDataGrid) {
	switch f := m.(type) {
	case interface {
		Fit(base.FixedDataGrid) error
	}:
		if err := f.Fit(g); err != nil {
			panic(err)
		}
	case interface{ Fit(base.FixedDataGrid) }:
		f.Fit(g)
	default:
		panic(fmt.Sprintf("%T has no Fit", m))
	}
}

func newKNN(dist, alg string, k int, w, opt bool) *knn.KNNClassifier {
	m := knn.NewKnnClassifier(dist, alg, k)
	m.Weighted, m.AllowOptimisations = w, opt
	return m
}

func svc() *linear_models.LinearSVC {
	m, err := linear_models.NewLinearSVC("l1", "l2", true, 1, 1e-4)
	if err != nil {
		panic(err)
	}
	return m
}

func bag(f int, ms ...base.Classifier) *meta.BaggedModel {
	b := &meta.BaggedModel{RandomFeatures: f}
	for _, m := range ms {
		b.AddModel(m)
	}
	return b
}

func savables() []savable {
	ova := func() model { return meta.NewOneVsAllModel(func(string) base.Classifier { return svc() }) }
	return []savable{
		{"knn-euclidean-linear-1", "knn", 'N', 1, func() model { return newKNN("euclidean", "linear", 1, false, true) }, fitAny},
		{"knn-manhattan-kdtree-2-weighted", "knn", 'N', 2, func() model { return newKNN("manhattan", "kdtree", 2, true, false) }, fitAny},
		{"knn-cosine-linear-2", "knn", 'N', 2, func() model { return newKNN("cosine", "linear", 2, false, false) }, fitAny},
		{"tree-node", "node", 'M', 1, func() model { return &trees.DecisionTreeNode{} }, func(m model, g base.FixedDataGrid) {
			*m.(*trees.DecisionTreeNode) = *trees.InferID3Tree(g, new(trees.InformationGainRuleGenerator))
		}},
		{"id3", "id3", 'M', 1, func() model { return trees.NewID3DecisionTree(0) }, fitAny},
		{"id3-gini", "id3", 'M', 1, func() model { return trees.NewID3DecisionTreeFromRule(0, new(trees.GiniCoefficientRuleGenerator)) }, fitAny},
		{"random-tree", "rt", 'M', 1, func() model { return trees.NewRandomTree(1) }, fitAny},
		{"bagged-trees", "bag", 'M', 1, func() model { return bag(2, trees.NewRandomTree(1), trees.NewID3DecisionTree(0)) }, fitAny},
		{"bagged-knn", "bag", 'N', 1, func() model {
			return bag(0, newKNN("euclidean", "linear", 1, false, true), newKNN("manhattan", "linear", 1, true, false))
		}, fitAny},
		{"bagged-bernoulli", "bag", 'B', 2, func() model { return bag(0, naive.NewBernoulliNBClassifier()) }, fitAny},
		{"bagged-bagged", "bag", 'M', 1, func() model {
			return nested{bag(0, nested{bag(1, trees.NewID3DecisionTree(0)), "a"}, nested{bag(1, trees.NewRandomTree(1)), "b"}), "c"}
		}, fitAny},
		{"random-forest", "rf", 'M', 1, func() model { return ensemble.NewRandomForest(2, 2) }, fitAny},
		{"bernoulli", "nb", 'B', 1, func() model { return naive.NewBernoulliNBClassifier() }, fitAny},
		{"linear-svc", "svc", 'S', 2, func() model { return svc() }, fitAny},
		{"one-vs-all-svc", "ova", 'N', 2, ova, fitAny},
		{"multi-svc", "msvc", 'N', 2, func() model {
			return ensemble.NewMultiLinearSVC("l1", "l2", true, 1, 1e-4, nil)
		}, fitAny},
	}
}

// nested makes a bagged model usable as a member (it lacks an error result of Fit).
type nested struct {
	*meta.BaggedModel
	n string
}

func (n nested) Fit(g base.FixedDataGrid) error { n.BaggedModel.Fit(g); return nil }

// fleetDefs are the columns of the data of the given kind; the class comes last.
func fleetDefs(kind byte) []AD {
	cls := AD{'C', "class", []string{"u", "v", "w"}}
	switch kind {
	case 'N':
		return []AD{{'F', "x", nil}, {'F', "y", nil}, cls}
	case 'M':
		return []AD{{'C', "c", []string{"p", "q"}}, {'F', "x", nil}, {'B', "b", nil}, cls}
	case 'B':
		return []AD{{'B', "b", nil}, {'B', "d", nil}, {'B', "e", nil}, cls}
	case 'S':
		return []AD{{'F', "x", nil}, {'F', "y", nil}, {'F', "class", nil}}
	}
	panic("kind")
}

func fleetVals(kind byte, d AD) []string {
	if d.Kind == 'F' {
		if d.Name == "class" {
			return []string{fb(0), fb(1)}
		}
		return []string{fb(0), fb(1), fb(-2), fb(3.5)}
	}
	return d.vals()
}

// fleetTab builds the n-th of a fixed family of tables of the given kind.
// Every combination of rows over the family's row values is some n.
func fleetTab(kind byte, ix [][]int) *Tab {
	defs := fleetDefs(kind)
	t := mkTab(defs, len(defs)-1, nil)
	for _, r := range ix {
		row := []string{}
		for j, d := range defs {
			v := fleetVals(kind, d)
			row = append(row, v[r[j]%len(v)])
		}
		t.V = append(t.V, row)
	}
	return t
}

// fleetQuery is a grid with every combination of feature values.
func fleetQuery(kind byte) *Tab {
	defs := fleetDefs(kind)
	radix := []int{}
	for j, d := range defs {
		if j == len(defs)-1 {
			radix = append(radix, 1)
		} else {
			radix = append(radix, len(fleetVals(kind, d)))
		}
	}
	ix := [][]int{}
	tuples(radix, func(x []int) { ix = append(ix, append([]int{}, x...)) })
	return fleetTab(kind, ix)
}

// fleetRows is a list of representative rows (indices into the alphabets).
func fleetRows(kind byte) [][]int {
	switch kind {
	case 'M':
		return [][]int{{0, 1, 0, 0}, {1, 2, 1, 1}, {0, 3, 1, 2}, {1, 0, 0, 0}, {0, 2, 0, 1}}
	case 'B':
		return [][]int{{0, 1, 1, 0}, {1, 0, 1, 1}, {1, 1, 1, 2}, {0, 1, 0, 1}, {1, 0, 0, 0}}
	case 'S':
		return [][]int{{1, 3, 0}, {2, 2, 1}, {3, 0, 0}, {0, 2, 1}, {3, 3, 1}}
	}
	return [][]int{{1, 3, 0}, {2, 2, 1}, {3, 0, 2}, {0, 2, 1}, {3, 3, 0}}
}
