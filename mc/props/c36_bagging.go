package props

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/meta"
	"verif/mc/eng"
	"verif/mc/sched"
)

func init() {
	eng.Register(&eng.Prop{ID: "C36", Run: runC36,
		Rule:   "every schedule (all choices among the goroutines able to go on, up to the bound on switches away from one that could) of training and of asking a bagged model of 1..m recording members on 1..p processors, under the race detector, plus every vote pattern under the default schedule; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least two members",
		Assume: []string{"members are classifiers that keep to their own state", "switches away from a running goroutine are bounded; switches at blocking operations are not"}})
}

// member is a classifier that notes what it is asked and answers as told.
type member struct {
	base.BaseClassifier
	id        int
	say       []string // class per query row
	failFit   bool
	failAsk   bool
	fits      int
	asks      int
	attrs     string
	rows      []string
	askAttrs  string
	askRows   []string
	afterDone bool
	done      *bool
	bad       string
}

// project reads a grid as sorted attribute names and rows of named values.
func project(g base.FixedDataGrid) (attrs string, rows []string, err error) {
	t, err := readGrid(g)
	if err != nil {
		return "", nil, err
	}
	var as []string
	for i, a := range t.A {
		n := a.GetName()
		if t.Class[i] {
			n += "*"
		}
		as = append(as, n)
	}
	sort.Strings(as)
	for i := range t.V {
		var vs []string
		for j, v := range t.V[i] {
			vs = append(vs, fmt.Sprintf("%s=%x", t.A[j].GetName(), v))
		}
		sort.Strings(vs)
		rows = append(rows, strings.Join(vs, " "))
	}
	return strings.Join(as, ","), rows, nil
}

func (m *member) Fit(g base.FixedDataGrid) error {
	m.fits++
	a, r, err := project(g)
	if err != nil {
		m.bad = err.Error()
	}
	m.attrs, m.rows = a, r
	if *m.done {
		m.afterDone = true
	}
	if m.failFit {
		return fmt.Errorf("member %d cannot learn", m.id)
	}
	return nil
}

func (m *member) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	m.asks++
	a, r, err := project(g)
	if err != nil {
		m.bad = err.Error()
	}
	m.askAttrs, m.askRows = a, r
	if *m.done {
		m.afterDone = true
	}
	if m.failAsk {
		return nil, fmt.Errorf("member %d cannot answer", m.id)
	}
	p := base.GeneratePredictionVector(g)
	for i, s := range m.say {
		base.SetClass(p, i, s)
	}
	return p, nil
}

type bagCase struct {
	models, cpus, feats, preempt int
	votes                        [][]int // per model, per row
}

var bagCats = []string{"a", "b", "c"}

var bagFeats = 3

func bagTab(rows int, off float64) *Tab {
	defs := []AD{}
	for j := 0; j < bagFeats; j++ {
		defs = append(defs, AD{'F', fmt.Sprintf("f%d", j), nil})
	}
	defs = append(defs, AD{'C', "class", bagCats})
	var v [][]string
	for i := 0; i < rows; i++ {
		r := []string{}
		for j := 0; j < bagFeats; j++ {
			r = append(r, fb(off+float64(100*i)+float64(j)))
		}
		v = append(v, append(r, ub(uint64(i%len(bagCats)))))
	}
	return mkTab(defs, bagFeats, v)
}

const trainRows = 4

func (bc bagCase) String() string {
	return fmt.Sprintf("%d members on %d processors, %d features, votes %v, %d preemptions", bc.models, bc.cpus, bc.feats, bc.votes, bc.preempt)
}

func runC36(c *eng.Ctx) {
	if !sched.RaceBuild {
		c.Count("built without the race detector", 1)
	}
	votes := [][]int{{0, 1, 2}, {1, 1, 2}, {2, 0, 2}, {1, 2, 0}}
	// every schedule of the bagged model's own operations; every schedule that
	// also switches at the locks of the data, up to a bound on preemptions
	for models := 1; models <= c.Pick(3, 4); models++ {
		for cpus := 1; cpus <= c.Pick(3, 4); cpus++ {
			for _, feats := range []int{0, 2, 4} {
				if models+cpus > c.Pick(5, 7) || feats > 2 && models+cpus > 3 {
					continue
				}
				bc := bagCase{models, cpus, feats, 0, votes[:models]}
				for phase := 0; phase < 2; phase++ {
					for _, bc.preempt = range []int{-1, 1, 2} {
						if bc.preempt == 2 && models+cpus > c.Pick(4, 6) {
							continue
						}
						c36schedules(c, bc, phase)
					}
				}
			}
		}
	}
	// every vote pattern
	rows := 2
	for models := 1; models <= c.Pick(3, 4); models++ {
		for cpus := 1; cpus <= 2; cpus++ {
			tuples(power(3, rows*models), func(ix []int) {
				if !c.Mine() {
					return
				}
				v := make([][]int, models)
				for m := range v {
					v[m] = append([]int{}, ix[m*rows:m*rows+rows]...)
				}
				bc := bagCase{models, cpus, 0, 0, v}
				c.Case("%v", bc)
				one := true
				c.Explore(eng.Opt{MaxExec: 1}, func(ch *eng.Chooser) {
					b, ms, done := bagMake(bc)
					bagFit(c, bc, b, ms, done, ch, 0)
					one = one && bagAsk(c, bc, b, ms, done, ch, 0, bagTab(rows, 0.5))
				})
				c.Trace()
			})
		}
	}
	// members that fail
	for models := 1; models <= 3; models++ {
		for cpus := 1; cpus <= 2; cpus++ {
			for bad := 0; bad < models; bad++ {
				for kind := 0; kind < 2; kind++ {
					c36failing(c, bagCase{models, cpus, 0, 1, votes[:models]}, bad, kind)
				}
			}
		}
	}
	c36large(c)
}

func bagMake(bc bagCase) (*meta.BaggedModel, []*member, *bool) {
	done := new(bool)
	b := &meta.BaggedModel{RandomFeatures: bc.feats}
	var ms []*member
	for i := 0; i < bc.models; i++ {
		m := &member{id: i, done: done}
		for _, v := range bc.votes[i] {
			m.say = append(m.say, bagCats[v])
		}
		ms = append(ms, m)
		b.AddModel(m)
	}
	return b, ms, done
}

// counted answers draws with a sequence per goroutine that redraws cannot get
// stuck in, and notes the draws of rows.
type counted struct{ rows []int }

func (d *counted) draw(who uint64, k int, kind string, n int64) (int64, float64, bool) {
	switch kind {
	case "intn":
		if k > 5000 {
			panic("no progress after 5000 random draws")
		}
		v := int((who>>8 + who>>(uint(k)%16)&1 + uint64(k)) % uint64(n))
		if n != trainRows { // attributes: each is drawn twice in a row
			return int64((who>>8 + uint64(k)/2) % uint64(n)), 0, true
		}
		d.rows = append(d.rows, v)
		return int64(v), 0, true
	case "float", "norm":
		return 0, 0.5, true
	}
	return 0, 0, true
}

// ended judges how an execution ended.
func ended(c *eng.Ctx, sig string, what string, ch *eng.Chooser, r *sched.Result, p *eng.Panic, races int) bool {
	at := func() string {
		if r == nil {
			return fmt.Sprintf("choices %v", ch.Choices())
		}
		return fmt.Sprintf("schedule %v", r.Trace)
	}
	switch {
	case p != nil:
		c.Fail(sig, "%s: %v (%s)", what, p, at())
	case r.Panic != "":
		c.Fail(sig, "%s: %s (%s)", what, r.Panic, at())
	case r.Endless:
		c.Fail(sig, "%s: no end after %d steps (%s)", what, r.Steps, at())
	case !r.Returned:
		c.Fail(sig, "%s: deadlock: %s (%s)", what, strings.Join(r.Blocked, "; "), at())
	case len(r.Blocked) > 0:
		c.Fail(sig, "%s: goroutines left behind: %s (%s)", what, strings.Join(r.Blocked, "; "), at())
	case sched.RaceErrors() > races:
		c.Fail(sig, "%s: data race, see the race detector's report (%s)", what, at())
	default:
		return true
	}
	return false
}

var maxSteps = 3000

func bagFit(c *eng.Ctx, bc bagCase, b *meta.BaggedModel, ms []*member, done *bool, ch *eng.Chooser, preempt int) bool {
	train := bagTab(trainRows, 0)
	g := buildDense(train, 0)
	all, orig, err := project(g)
	if err != nil {
		panic(err)
	}
	pos := map[string]int{}
	for i, r := range orig {
		pos[r] = i
	}
	d := &counted{}
	races := sched.RaceErrors()
	*done = false
	r, p := ch.Sched(bc.cpus, preempt, preempt > 0, maxSteps, d.draw, func() {
		b.Fit(g)
		*done = true
	})
	sig := "fit of " + bc.String()
	if !ended(c, sig, "Fit", ch, r, p, races) {
		return false
	}
	c.Trans(r.Steps)
	fail := func(f string, a ...interface{}) bool {
		c.Fail(sig, f+" (schedule %v)", append(a, r.Trace)...)
		return false
	}
	var used []int
	for _, m := range ms {
		if m.bad != "" {
			return fail("member %d: %s", m.id, m.bad)
		}
		if m.fits != 1 {
			return fail("member %d trained %d times", m.id, m.fits)
		}
		if m.afterDone {
			return fail("member %d is trained after Fit returned", m.id)
		}
		as := strings.Split(m.attrs, ",")
		want := bc.feats
		if want == 0 || want > bagFeats {
			want = bagFeats
		}
		if len(as) != want+1 || as[0] != "class*" || !subset(as, strings.Split(all, ",")) {
			return fail("member %d trained on %s, want the class and %d attributes of %s", m.id, m.attrs, want, all)
		}
		if len(m.rows) != trainRows {
			return fail("member %d trained on %d rows of %d", m.id, len(m.rows), trainRows)
		}
		for _, row := range m.rows {
			i := -1
			for o, k := range pos {
				if contains(strings.Fields(o), strings.Fields(row)) {
					i = k
				}
			}
			if i < 0 {
				return fail("member %d trained on a row not in the data: %s", m.id, row)
			}
			used = append(used, i)
		}
	}
	if len(d.rows) == len(used) { // every draw picks a row of one member
		drawn := append([]int{}, d.rows...)
		sort.Ints(used)
		sort.Ints(drawn)
		if fmt.Sprint(used) != fmt.Sprint(drawn) {
			return fail("members trained on rows %v, drawn were %v", used, drawn)
		}
	} else if len(d.rows) > 0 && len(d.rows) < len(used) {
		return fail("%d rows drawn for %d members of %d rows each", len(d.rows), len(ms), trainRows)
	}
	c.Outcome(fmt.Sprint("fit", bc.models, bc.cpus, d.rows, r.Threads))
	return true
}

func subset(as, all []string) bool {
	for i, a := range as {
		ok := i == 0 || as[i-1] != a
		in := false
		for _, b := range all {
			in = in || a == b
		}
		if !ok || !in {
			return false
		}
	}
	return true
}

func contains(all, some []string) bool {
	for _, s := range some {
		in := false
		for _, a := range all {
			in = in || a == s
		}
		if !in {
			return false
		}
	}
	return true
}

// bagAnswer is the answer of the last call of bagAsk.
var bagAnswer string

func bagAsk(c *eng.Ctx, bc bagCase, b *meta.BaggedModel, ms []*member, done *bool, ch *eng.Chooser, preempt int, query *Tab) bool {
	q := buildDense(query, 0)
	_, qrows, err := project(q)
	if err != nil {
		panic(err)
	}
	for _, m := range ms {
		m.asks, m.afterDone = 0, false
	}
	*done = false
	var got base.FixedDataGrid
	d := &counted{}
	races := sched.RaceErrors()
	r, p := ch.Sched(bc.cpus, preempt, preempt > 0, maxSteps, d.draw, func() {
		got, err = b.Predict(q)
		*done = true
	})
	sig := "predict of " + bc.String()
	if !ended(c, sig, "Predict", ch, r, p, races) {
		return false
	}
	c.Trans(r.Steps)
	fail := func(f string, a ...interface{}) bool {
		c.Fail(sig, f+" (schedule %v)", append(a, r.Trace)...)
		return false
	}
	if err != nil {
		return fail("error %v", err)
	}
	for _, m := range ms {
		switch {
		case m.bad != "":
			return fail("member %d: %s", m.id, m.bad)
		case m.asks != 1:
			return fail("member %d asked %d times", m.id, m.asks)
		case m.afterDone:
			return fail("member %d asked after Predict returned", m.id)
		case m.askAttrs != m.attrs:
			return fail("member %d asked with attributes %s, trained with %s", m.id, m.askAttrs, m.attrs)
		case len(m.askRows) != len(qrows):
			return fail("member %d asked about %d rows of %d", m.id, len(m.askRows), len(qrows))
		}
		for i := range qrows {
			if !contains(strings.Fields(qrows[i]), strings.Fields(m.askRows[i])) {
				return fail("member %d asked about row %d as %q, is %q", m.id, i, m.askRows[i], qrows[i])
			}
		}
	}
	if _, n := got.Size(); n != len(qrows) {
		return fail("%d answers for %d rows", n, len(qrows))
	}
	for i := range qrows {
		cnt := map[string]int{}
		top := 0
		for _, m := range ms {
			cnt[m.say[i]]++
			if cnt[m.say[i]] > top {
				top = cnt[m.say[i]]
			}
		}
		if a := base.GetClass(got, i); cnt[a] != top {
			return fail("row %d: answer %q, votes %v", i, a, cnt)
		}
	}
	bagAnswer = ""
	for i := range qrows {
		bagAnswer += base.GetClass(got, i) + " "
	}
	c.Outcome(fmt.Sprint("ask", bc.models, bc.cpus, r.Threads, r.Steps))
	return true
}

func c36schedules(c *eng.Ctx, bc bagCase, phase int) {
	rows := len(bc.votes[0])
	if !c.Mine() {
		return
	}
	c.Case("phase %d: %v", phase, bc)
	n, _ := c.Explore(eng.Opt{}, func(ch *eng.Chooser) {
		b, ms, done := bagMake(bc)
		if phase == 0 {
			bagFit(c, bc, b, ms, done, ch, bc.preempt)
		} else {
			if !bagFit(c, bc, b, ms, done, nil, 0) {
				return
			}
			bagAsk(c, bc, b, ms, done, ch, bc.preempt, bagTab(rows, 0.5))
		}
		c.Trace()
	})
	c.Count(fmt.Sprintf("schedules of phase %d, preemption bound %d", phase, bc.preempt), n)
	c.State(fmt.Sprint(phase, bc))
	c.Sample("%v: phase %d: %d schedules", bc, phase, n)
	if os.Getenv("MC_DEBUG") != "" {
		fmt.Println(phase, bc, n)
	}
}

// c36failing: what a failing member does must end as an error, not as a crash.
func c36failing(c *eng.Ctx, bc bagCase, bad, kind int) {
	if !c.Mine() {
		return
	}
	sig := fmt.Sprintf("member %d fails to %s: %v", bad, []string{"learn", "answer"}[kind], bc)
	c.Case("%s", sig)
	c.Explore(eng.Opt{}, func(ch *eng.Chooser) {
		b, ms, done := bagMake(bc)
		g := buildDense(bagTab(trainRows, 0), 0)
		ms[bad].failFit = kind == 0
		ms[bad].failAsk = kind == 1
		d := &counted{}
		var err error
		if kind == 0 {
			races := sched.RaceErrors()
			r, p := ch.Sched(bc.cpus, bc.preempt, bc.preempt > 0, maxSteps, d.draw, func() {
				err = anyFit(b, g)
				*done = true
			})
			if !ended(c, sig, "Fit", ch, r, p, races) {
				return
			}
		} else {
			if !bagFit(c, bc, b, ms, done, nil, 0) {
				return
			}
			q := buildDense(bagTab(len(bc.votes[0]), 0.5), 0)
			races := sched.RaceErrors()
			*done = false
			r, p := ch.Sched(bc.cpus, bc.preempt, bc.preempt > 0, maxSteps, d.draw, func() {
				_, err = b.Predict(q)
				*done = true
			})
			if !ended(c, sig, "Predict", ch, r, p, races) {
				return
			}
		}
		if err == nil {
			c.Fail(sig, "the error of the member is lost")
		}
		for _, m := range ms {
			if m.afterDone {
				c.Fail(sig, "member %d is used after the call returned", m.id)
			}
		}
		c.Trace()
	})
}

func anyFit(m interface{}, g base.FixedDataGrid) error {
	if f, ok := m.(interface {
		Fit(base.FixedDataGrid) error
	}); ok {
		return f.Fit(g)
	}
	m.(interface{ Fit(base.FixedDataGrid) }).Fit(g)
	return nil
}
func (m *member) Save(string) error                                         { return nil }
func (m *member) Load(string) error                                         { return nil }
func (m *member) GetMetadata() base.ClassifierMetadataV1                    { return base.ClassifierMetadataV1{} }
func (m *member) SaveWithPrefix(*base.ClassifierSerializer, string) error   { return nil }
func (m *member) LoadWithPrefix(*base.ClassifierDeserializer, string) error { return nil }
func (m *member) String() string                                            { return "recorder" }
