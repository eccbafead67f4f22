package main

// Monitor of the traversal: C18.

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	g "github.com/mmadfox/go-geoql-parser"
)

var exprType = reflect.TypeOf((*g.Expr)(nil)).Elem()

// members are the expressions directly below e, by its exported fields.
func members(e g.Expr) (out []g.Expr) {
	v := reflect.ValueOf(e)
	if v.Kind() != reflect.Pointer || v.IsNil() {
		return
	}
	v = v.Elem()
	var add func(f reflect.Value)
	add = func(f reflect.Value) {
		switch {
		case f.Type().Implements(exprType):
			if !f.IsNil() {
				out = append(out, f.Interface().(g.Expr))
			}
		case f.Kind() == reflect.Slice || f.Kind() == reflect.Array:
			for i := 0; i < f.Len(); i++ {
				add(f.Index(i))
			}
		}
	}
	for _, i := range fieldOrder(v.Type()) {
		add(v.Field(i))
	}
	return
}

// textOrder is the order in the text of the fields that hold expressions.
var textOrder = map[string]int{"Vars": 1, "When": 2, "RepeatCount": 3, "RepeatInterval": 4, "ResetAfter": 5, "Left": 1, "Right": 2, "Low": 1, "High": 2}

func fieldOrder(t reflect.Type) (out []int) {
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).IsExported() {
			out = append(out, i)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return textOrder[t.Field(out[i]).Name] < textOrder[t.Field(out[j]).Name] })
	return
}

// visit is one call of a visitor; e is nil for a closing visit.
type visit struct {
	e  g.Expr
	by int // number of the visitor that was called
}

func (v visit) String() string {
	if v.e == nil {
		return "nil"
	}
	return fmt.Sprintf("%T at %d", v.e, v.e.Pos())
}

// expectVisits computes the sequence of visits; node k is given visitor k+1
// for its children if fresh, the root is visited by visitor 0.
func expectVisits(root g.Expr, pruned map[g.Expr]bool, fresh bool) (out []visit) {
	n := 0
	var walk func(e g.Expr, by int)
	walk = func(e g.Expr, by int) {
		n++
		mine := by
		if fresh {
			mine = n
		}
		out = append(out, visit{e, by})
		if pruned[e] {
			return
		}
		for _, m := range members(e) {
			walk(m, mine)
		}
		out = append(out, visit{nil, mine})
	}
	walk(root, 0)
	return
}

type recorder struct {
	log    *[]visit
	n      *int
	id     int
	pruned map[g.Expr]bool
	fresh  bool
	limit  int
}

type tooManyVisits struct{}

func (r *recorder) Visit(e g.Expr) g.Visitor {
	if len(*r.log) > r.limit {
		panic(tooManyVisits{})
	}
	*r.log = append(*r.log, visit{e, r.id})
	if e == nil {
		return nil // whatever is returned here must not matter
	}
	*r.n++
	if r.pruned[e] {
		return nil
	}
	if r.fresh {
		k := *r
		k.id = *r.n
		return &k
	}
	return r
}

func (c *ctx) compareVisits(src, how string, have, want []visit, by bool) bool {
	for i := 0; i < len(have) && i < len(want); i++ {
		if have[i].e != want[i].e {
			before := ""
			if i > 0 {
				before = " after " + want[i-1].String()
			}
			c.fail(src, "%s: visit %d is %s instead of %s%s", how, i, have[i], want[i], before)
			return false
		}
		if by && have[i].e == nil && have[i].by != want[i].by {
			c.fail(src, "%s: nil visit %d goes to visitor %d instead of %d, which visited the children", how, i, have[i].by, want[i].by)
			return false
		}
		if by && have[i].e != nil && have[i].by != want[i].by {
			c.fail(src, "%s: %s is visited by visitor %d, the one of its parent is %d", how, have[i], have[i].by, want[i].by)
			return false
		}
	}
	if len(have) != len(want) {
		c.fail(src, "%s: %d visits instead of %d", how, len(have), len(want))
		return false
	}
	return true
}

// walked checks the traversal from one root.
func (c *ctx) walked(r *rand.Rand, src string, root g.Expr) {
	var all []g.Expr
	for _, v := range expectVisits(root, nil, false) {
		if v.e != nil {
			all = append(all, v.e)
		}
	}
	c.max("nodes", len(all))
	for round := 0; round < 4; round++ {
		pruned := map[g.Expr]bool{}
		switch round {
		case 1: // one node
			pruned[all[r.Intn(len(all))]] = true
		case 2, 3:
			for k := 1 + r.Intn(4); k > 0; k-- {
				pruned[all[r.Intn(len(all))]] = true
			}
		}
		fresh := round%2 == 1
		want := expectVisits(root, pruned, fresh)
		c.eval()

		var have []visit
		n := 0
		ok := c.guard("Walk", src, len(src), func() {
			defer func() {
				if e := recover(); e != nil {
					if _, is := e.(tooManyVisits); !is {
						panic(e)
					}
				}
			}()
			g.Walk(&recorder{log: &have, n: &n, pruned: pruned, fresh: fresh, limit: len(want) + 10}, root)
		})
		if !ok || !c.compareVisits(src, fmt.Sprintf("Walk from %T with %d pruned", root, len(pruned)), have, want, true) {
			return
		}
		have = nil
		ok = c.guard("Visit", src, len(src), func() {
			g.Visit(root, func(e g.Expr) bool {
				if len(have) > len(want)+10 {
					return false
				}
				have = append(have, visit{e, 0})
				return e != nil && !pruned[e]
			})
		})
		if !ok || !c.compareVisits(src, fmt.Sprintf("Visit from %T with %d pruned", root, len(pruned)), have, want, false) {
			return
		}
		c.add("visits", len(want))
		c.add("pruned", len(pruned))
	}
}

// within walks from the root with a visitor that itself walks, or panics, and
// checks that the outer and the later traversals are what they are without.
func (c *ctx) within(r *rand.Rand, src string, root g.Expr, others []g.Expr) {
	want := expectVisits(root, nil, false)
	if len(want) > 3000 {
		return
	}
	at := map[int]g.Expr{} // visit to traversal started there
	boom := -1
	for k := 1 + r.Intn(3); k > 0; k-- {
		i := r.Intn(len(want))
		switch e := want[i].e; {
		case e != nil && r.Intn(3) == 0:
			at[i] = e
		case r.Intn(3) == 0:
			at[i] = root
		default:
			at[i] = others[r.Intn(len(others))]
		}
	}
	if r.Intn(2) == 0 {
		boom = r.Intn(len(want))
	}
	plain := r.Intn(2) == 0 // whether Walk or Visit does the outer traversal
	var have, inner []visit
	good := true
	sub := func(e g.Expr, byWalk bool) []visit {
		var log []visit
		if n := 0; byWalk {
			g.Walk(&recorder{log: &log, n: &n, limit: 1 << 20}, e)
		} else {
			g.Visit(e, func(e g.Expr) bool { log = append(log, visit{e, 0}); return e != nil })
		}
		return log
	}
	see := func(e g.Expr) bool {
		i := len(have)
		have = append(have, visit{e, 0})
		if i == boom {
			panic(tooManyVisits{})
		}
		if o := at[i]; o != nil && good {
			inner = sub(o, r.Intn(2) == 0)
			good = c.compareVisits(src, fmt.Sprintf("a traversal from %T inside visit %d of one from %T", o, i, root), inner, expectVisits(o, nil, false), false)
			c.count("inside a visit")
		}
		return e != nil && len(have) <= len(want)+10
	}
	c.eval()
	ok := c.guard("Walk", src, len(src), func() {
		defer func() {
			if e := recover(); e != nil {
				if _, is := e.(tooManyVisits); !is {
					panic(e)
				}
				c.count("left by a panic")
			}
		}()
		if plain {
			g.Visit(root, see)
		} else {
			g.Walk(seen(see), root)
		}
	})
	if !ok || !good {
		return
	}
	if boom >= 0 {
		want = want[:min(boom+1, len(want))]
	}
	if !c.compareVisits(src, fmt.Sprintf("a traversal from %T with others inside", root), have, want, false) {
		return
	}
	// what came before must not matter to what comes next
	for k := 0; k < 3; k++ {
		e := others[r.Intn(len(others))]
		if k == 0 {
			e = root
		}
		if r.Intn(2) == 0 {
			k++
			e = others[r.Intn(len(others))]
		}
		var log []visit
		if !c.guard("Walk", src, len(src), func() { log = sub(e, r.Intn(2) == 0) }) ||
			!c.compareVisits(src, fmt.Sprintf("a traversal from %T after another", e), log, expectVisits(e, nil, false), false) {
			return
		}
	}
}

// seen is a visitor that goes on as long as the function says.
type seen func(e g.Expr) bool

func (f seen) Visit(e g.Expr) g.Visitor {
	if f(e) {
		return f
	}
	return nil
}

func (c *ctx) walkText(r *rand.Rand, src string, st g.Statement, roots int) {
	root, is := st.(g.Expr)
	if !is {
		c.fail(src, "the statement %T cannot be walked", st)
		return
	}
	before := convStmt(st).spans()
	c.walked(r, src, root)
	var subs []g.Expr
	for _, v := range expectVisits(root, nil, false) {
		if v.e != nil {
			subs = append(subs, v.e)
			c.count("node " + strings.TrimPrefix(fmt.Sprintf("%T", v.e), "*geoqlparser."))
		}
	}
	for _, k := range pickN(r, len(subs), roots) {
		c.walked(r, src, subs[k])
	}
	if len(subs) < 400 {
		c.within(r, src, root, subs)
		c.within(r, src, subs[r.Intn(len(subs))], subs)
	}
	if after := convStmt(st).spans(); after != before {
		c.fail(src, "walking changed the statement from %s to %s", clip(before), clip(after))
		return
	}
	// the neutral tree has the same nodes
	n := 0
	convStmt(st).each(func(m *node) {
		switch m.k {
		case "when", "count", "interval", "reset":
		default:
			n++
		}
	})
	if n != len(subs) {
		c.fail(src, "the statement has %d nodes, the traversal %d", n, len(subs))
	}
	var shape strings.Builder
	for _, s := range subs {
		fmt.Fprintf(&shape, "%T ", s)
	}
	c.nontrivial(shape.String())
	c.sample(fmt.Sprintf("%d nodes: %s", len(subs), src))
}

// share puts one node in several places of the statement.
func share(r *rand.Rand, t *g.Trigger) (n int) {
	list := func(l []g.Expr) []g.Expr {
		if len(l) == 0 {
			return l
		}
		l = append([]g.Expr(nil), l...)
		e := l[r.Intn(len(l))]
		if r.Intn(2) == 0 {
			l[r.Intn(len(l))] = e
		} else {
			l = append(l, e)
		}
		n++
		return l
	}
	var nodes []g.Expr
	below(t, func(e, parent g.Expr) { nodes = append(nodes, e) })
	for _, e := range nodes {
		if r.Intn(3) == 0 {
			continue
		}
		switch e := e.(type) {
		case *g.Range:
			if _, is := e.Low.(*g.Range); !is {
				e.High = e.Low
				n++
			}
		case *g.BinaryExpr:
			if r.Intn(2) == 0 {
				e.Right = e.Left
			} else {
				e.Left = e.Right
			}
			n++
		case *g.ArrayTyp:
			e.List = list(e.List)
		case *g.Selector:
			e.Props = list(e.Props)
		}
	}
	if k := len(t.Vars); k > 1 && r.Intn(2) == 0 {
		t.Vars[r.Intn(k)].Right = t.Vars[r.Intn(k)].Right
		n++
	}
	return
}

func init() {
	var need []string
	for _, k := range []string{"Trigger", "Assign", "Ident", "BinaryExpr", "ParenExpr", "Selector", "Ref", "Range", "ArrayTyp", "WildcardTyp", "BooleanTyp", "IntTyp", "FloatTyp", "StringTyp",
		"PercentTyp", "SpeedTyp", "DistanceTyp", "DurationTyp", "TemperatureTyp", "PressureTyp", "DateTyp", "TimeTyp", "WeekdayTyp", "MonthTyp",
		"GeometryPointTyp", "GeometryLineTyp", "GeometryPolygonTyp", "GeometryMultiObjectTyp", "GeometryCollectionTyp"} {
		need = append(need, "node "+k)
	}
	each18 := func(c *ctx, src string) {
		if st, err, ok := c.parse(src); ok && err == nil && st != nil {
			c.eval()
			c.walkText(newRand(hash64(src)), src, st, 2)
		}
	}
	register(&property{id: "C18", need: append(need, "visits", "pruned", "edited", "rebuilt", "very large", "shared", "inside a visit", "left by a panic"),
		rule: "statements of all sorts, each walked with Walk and Visit from the statement and from sub-expressions, as parsed, edited and rebuilt from the exported fields, unpruned and with random sets of pruned nodes, with one visitor throughout and with a new one for every node, against the sequence computed from the exported fields; non-trivial: distinct sequences of node types",
		parts: []part{
			{"statements", 100_000, 2_500_000, func(c *ctx, r *rand.Rand, i int) {
				c.formattable(r, i, func(src string, st g.Statement) { c.walkText(r, src, st, 6) })
			}},
			{"all sub-expressions", 8_000, 200_000, func(c *ctx, r *rand.Rand, i int) {
				src, st := c.someStatement(r)
				if st != nil {
					c.walkText(r, src, st, 1<<20)
				}
			}},
			{"large", 60, 600, func(c *ctx, r *rand.Rand, i int) {
				var src string
				n := 100 + r.Intn(850)
				switch i % 4 {
				case 0:
					src = "when " + strings.Repeat("(", n) + "a" + strings.Repeat(")", n)
				case 1:
					src = "when a" + strings.Repeat(" + a", 10*n)
				case 2:
					src = "when a in [" + strings.Repeat("1,", 10*n) + "1]"
				case 3:
					src = "when a:" + strings.Repeat("(b:", n/3) + "1" + strings.Repeat(")", n/3) + "," + strings.Repeat("5km,", n) + "2"
				}
				if st, err, ok := c.parse(src); ok && err == nil && st != nil {
					c.walkText(r, src, st, 2)
					c.count("large")
				}
			}},
			{"very large", 4, 40, func(c *ctx, r *rand.Rand, i int) {
				n := 100_000 + r.Intn(400_000)
				one := []string{" + a", " .. 2", " == \"s\"", " and point[1,2]"}[i%4]
				src := "when a" + strings.Repeat(one, n)
				if i%4 == 1 {
					src = "when a in [1" + strings.Repeat(", 2", n) + "]"
				}
				if st, err, ok := c.parse(src); ok && err == nil && st != nil {
					if e, is := st.(g.Expr); is {
						c.max("operators", n)
						c.walked(r, src, e)
						c.count("very large")
					}
				}
			}},
			{"edited", 30_000, 800_000, func(c *ctx, r *rand.Rand, i int) {
				// nodes in several places, and without positions
				fresh := func() *g.Trigger {
					for k := 0; k < 10; k++ {
						if _, st := c.someStatement(r); st != nil {
							if t, is := st.(*g.Trigger); is && t != nil {
								return t
							}
						}
					}
					st, _, _ := c.parse("when a == 1")
					t, _ := st.(*g.Trigger)
					return t
				}
				t := fresh()
				if t == nil {
					return
				}
				x := &editor{r: r, t: t, fresh: fresh}
				for k := r.Intn(6); k > 0; k-- {
					x.step() // C24 judges it
				}
				how := strings.Join(x.done, ", ")
				c.eval()
				if r.Intn(3) > 0 {
					t = rebuiltAs(t, r.Intn(2) == 0)
					c.count("rebuilt")
					how += " and rebuilt"
				}
				if r.Intn(2) == 0 {
					// a few times over, so that what is shared is shared again
					for k := 1 + r.Intn(2); k > 0; k-- {
						if share(r, t) > 0 {
							c.count("shared")
							how += " with parts shared"
						}
						if _, n := treeDepth(convStmt(t)); n > 3000 {
							break
						}
					}
				}
				text, _ := c.format(how, t)
				c.walkText(r, how+": "+text, t, 4)
				c.count("edited")
			}},
			nestPart(10_000, 300_000, each18),
			wordPart(each18),
			hugePart(90, 900, nil, each18),
			sizedPart(4000, 60000, 3000, nil, each18),
		}})
}
