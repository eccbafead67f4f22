package main

// Monitor of edited and assembled statements: C24.

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"

	g "github.com/mmadfox/go-geoql-parser"
)

// editor changes a statement through its exported fields, in ways that leave
// it writable in the language.
type editor struct {
	r     *rand.Rand
	t     *g.Trigger
	fresh func() *g.Trigger // another statement, to take parts from
	done  []string
	gone  []*g.Assign // variables seen before
}

func below(e g.Expr, f func(e, parent g.Expr)) {
	var rec func(e, parent g.Expr)
	rec = func(e, parent g.Expr) {
		f(e, parent)
		for _, m := range members(e) {
			rec(m, e)
		}
	}
	rec(e, nil)
}

func hasProps(l []g.Expr) (yes bool) {
	for _, e := range l {
		below(e, func(x, _ g.Expr) {
			if s, is := x.(*g.Selector); is && len(s.Props) > 0 {
				yes = true
			}
		})
	}
	return
}

var editNames = []string{"alpha", "b_1", "Gamma", "ж", "zz9", "Every2", "q", "AB", "dev", "i_"}

func (x *editor) name() string {
	return editNames[x.r.Intn(len(editNames))] + fmt.Sprint(x.r.Intn(30))
}

func (x *editor) text() string {
	chars := []rune("abc 01.,;{}[]*éж世/'")
	b := make([]rune, x.r.Intn(12))
	for i := range b {
		b[i] = chars[x.r.Intn(len(chars))]
	}
	return string(b)
}

func (x *editor) positive() float64 {
	switch x.r.Intn(4) {
	case 0:
		return float64(x.r.Intn(100))
	case 1:
		return float64(x.r.Int63n(1<<53)) / 1024
	case 2:
		return float64(x.r.Intn(1000)) * 1e18
	}
	return float64(x.r.Intn(100000)) / 1000
}

func (x *editor) point() [2]float64 {
	p := [2]float64{x.positive(), x.positive()}
	for i := range p {
		if x.r.Intn(2) == 0 {
			p[i] = -p[i]
		}
	}
	return p
}

// shuffle reorders, drops, doubles or appends elements of a list.
func shuffle[T any](r *rand.Rand, l []T, more func() T) []T {
	switch k := r.Intn(4); {
	case k == 0 && len(l) > 1:
		i, j := r.Intn(len(l)), r.Intn(len(l))
		l[i], l[j] = l[j], l[i]
	case k == 1 && len(l) > 1:
		i := r.Intn(len(l))
		l = append(l[:i], l[i+1:]...)
	case k == 2:
		i := r.Intn(len(l) + 1)
		l = append(l[:i:i], append([]T{more()}, l[i:]...)...)
	default:
		l = append(l, more())
	}
	return l
}

// close is a number near v, of the same sign.
func (x *editor) close(v float64) float64 {
	var w float64
	switch x.r.Intn(5) {
	case 0:
		w = math.Nextafter(v, math.Inf(1))
	case 1:
		w = math.Nextafter(v, 0)
	case 2:
		w = v + math.Copysign(1/float64(int(1)<<uint(x.r.Intn(40))), v)
	case 3:
		w = v * (1 + math.Pow(10, -1-float64(x.r.Intn(15))))
	case 4:
		w = v + math.Copysign(1, v)
	}
	if math.IsInf(w, 0) || math.Abs(w) < 1e-300 {
		return v
	}
	return w
}

// nudge changes a value of one node a little, and tells whether it could.
func (x *editor) nudge(e g.Expr) bool {
	r := x.r
	switch n := e.(type) {
	case *g.IntTyp:
		if n.Val < 1 || n.Val >= 1<<40 {
			return false
		}
		n.Val += 1 + r.Intn(2)
	case *g.FloatTyp:
		n.Val = x.close(n.Val)
	case *g.PercentTyp:
		n.Val = x.close(n.Val)
	case *g.SpeedTyp:
		n.Val = x.close(n.Val)
	case *g.DistanceTyp:
		n.Val = x.close(n.Val)
	case *g.PressureTyp:
		n.Val = x.close(n.Val)
	case *g.TemperatureTyp:
		n.Val = x.close(n.Val)
	case *g.DurationTyp:
		if n.Val > 1<<50 {
			return false
		}
		n.Val += time.Duration(math.Pow(10, float64(r.Intn(12))))
	case *g.StringTyp:
		b := []rune(n.Val)
		if len(b) == 0 || strings.Contains(n.Val, "\\") {
			return false
		}
		b[r.Intn(len(b))] = []rune("aZ0 é,")[r.Intn(6)]
		n.Val = string(b)
	case *g.DateTyp:
		n.Day = 1 + n.Day%31
	case *g.TimeTyp:
		n.Minutes = (n.Minutes + 1) % 60
	case *g.WeekdayTyp:
		n.Val = (n.Val + 1) % 7
	case *g.MonthTyp:
		n.Val = 1 + n.Val%12
	case *g.Selector:
		for k := range n.Args {
			if strings.Contains(k, "\\") {
				return false
			}
			if delete(n.Args, k); r.Intn(2) == 0 {
				n.Args[strings.ToUpper(k)] = struct{}{}
			} else {
				n.Args[k+" "] = struct{}{}
			}
			return true
		}
		n.Ident += []string{"a", "_", "0"}[r.Intn(3)]
	case *g.GeometryPointTyp:
		i := r.Intn(2)
		n.Val[i] = x.close(n.Val[i])
	case *g.GeometryLineTyp:
		i, j := r.Intn(len(n.Val)), r.Intn(2)
		n.Val[i][j] = x.close(n.Val[i][j])
	case *g.GeometryPolygonTyp:
		ring := n.Val[r.Intn(len(n.Val))]
		i, j := r.Intn(len(ring)), r.Intn(2)
		ring[i][j] = x.close(ring[i][j])
	default:
		return false
	}
	return true
}

// holds tells whether the place p is somewhere in e, and whether e is large.
func holds(e g.Expr, p *g.Expr) (yes, large bool) {
	n := 0
	var rec func(e g.Expr)
	rec = func(e g.Expr) {
		if n++; n > 2000 || yes {
			return
		}
		switch b := e.(type) {
		case *g.BinaryExpr:
			yes = yes || &b.Left == p || &b.Right == p
		case *g.ParenExpr:
			yes = yes || &b.Expr == p
		}
		for _, m := range members(e) {
			rec(m)
		}
	}
	rec(e)
	return yes, n > 2000
}

// move puts a part of the statement in another place of it.
func (x *editor) move() bool {
	r, t := x.r, x.t
	places := operands(t)
	var parens []*g.Expr
	whole := []g.Expr{t.When}
	below(t.When, func(e, _ g.Expr) {
		switch n := e.(type) {
		case *g.ParenExpr:
			parens = append(parens, &n.Expr)
			whole = append(whole, n.Expr)
		case *g.BinaryExpr:
			whole = append(whole, n)
		}
	})
	put := func(p *g.Expr, val g.Expr) bool {
		if inside, large := holds(val, p); inside || large || val == *p {
			return false
		}
		*p = val
		return true
	}
	val := *places[r.Intn(len(places))]
	if r.Intn(2) == 0 {
		val = whole[r.Intn(len(whole))]
	}
	if len(parens) > 0 && r.Intn(2) == 0 {
		if !put(parens[r.Intn(len(parens))], val) {
			return false
		}
		x.done = append(x.done, "replace what parentheses hold")
		return true
	}
	if _, is := val.(*g.BinaryExpr); is || r.Intn(3) == 0 {
		val = &g.ParenExpr{Expr: val}
	}
	if !put(places[r.Intn(len(places))], val) {
		return false
	}
	x.done = append(x.done, "move a part")
	return true
}

// leaf changes the values of one node, and tells whether it could.
func (x *editor) leaf(e, parent g.Expr) bool {
	r := x.r
	if r.Intn(3) == 0 && x.nudge(e) {
		return true
	}
	switch n := e.(type) {
	case *g.ParenExpr:
		if _, is := parent.(*g.Trigger); is {
			return false
		}
		n.Expr = x.from().When
	case *g.IntTyp:
		n.Val = r.Intn(1 << uint(1+r.Intn(40)))
		if _, is := parent.(*g.Trigger); !is && r.Intn(3) == 0 {
			n.Val = -n.Val
		}
	case *g.FloatTyp:
		if n.Val = x.positive(); r.Intn(3) == 0 {
			n.Val = -n.Val
		}
	case *g.PercentTyp:
		n.Val = x.positive()
	case *g.SpeedTyp:
		n.Val, n.U = x.positive(), []g.Unit{g.Kph, g.Mph}[r.Intn(2)]
	case *g.DistanceTyp:
		n.Val, n.U = x.positive(), []g.Unit{g.Kilometer, g.Meter}[r.Intn(2)]
	case *g.PressureTyp:
		n.Val, n.U = x.positive(), []g.Unit{g.Bar, g.Psi}[r.Intn(2)]
	case *g.TemperatureTyp:
		n.Val, n.U, n.Vec = x.positive(), []g.Unit{g.Celsius, g.Fahrenheit}[r.Intn(2)], []g.Sign{0, g.Plus, g.Minus}[r.Intn(3)]
	case *g.DurationTyp:
		n.Val = time.Duration(r.Int63n(1 << uint(1+r.Intn(50))))
		if r.Intn(2) == 0 {
			n.Val = n.Val / time.Second * time.Second
		}
	case *g.StringTyp:
		n.Val = x.text()
	case *g.BooleanTyp:
		n.Val = !n.Val
	case *g.Ref:
		n.ID = x.name()
	case *g.DateTyp:
		n.Year, n.Month, n.Day = 2022+r.Intn(179), 1+r.Intn(12), 1+r.Intn(31)
	case *g.TimeTyp:
		n.Hours, n.Minutes, n.Seconds = 1+r.Intn(12), r.Intn(60), r.Intn(2)*r.Intn(60)
	case *g.WeekdayTyp:
		n.Val = r.Intn(7)
	case *g.MonthTyp:
		n.Val = 1 + r.Intn(12)
	case *g.Selector:
		switch r.Intn(4) {
		case 0:
			n.Ident = strings.ToLower(x.name())
		case 1:
			if n.Args == nil {
				n.Args = map[string]struct{}{}
				n.Wildcard = r.Intn(2) == 0
			}
			n.Args[x.text()] = struct{}{}
		case 2:
			for k := range n.Args {
				// any one; which one does not matter
				delete(n.Args, k)
				break
			}
			if len(n.Args) == 0 {
				n.Args, n.Wildcard = nil, true
			}
		case 3:
			if len(n.Args) == 0 {
				return false
			}
			n.Wildcard = !n.Wildcard
		}
	case *g.GeometryPointTyp:
		n.Val = x.point()
		switch r.Intn(3) {
		case 0:
			n.Radius = nil
		case 1:
			n.Radius = &g.DistanceTyp{Val: x.positive(), U: g.Meter}
		}
	case *g.GeometryLineTyp:
		n.Val = shuffle(r, n.Val, x.point)
		if r.Intn(3) == 0 {
			n.Margin = nil
		} else if r.Intn(2) == 0 {
			n.Margin = &g.DistanceTyp{Val: x.positive(), U: g.Kilometer}
		}
	case *g.GeometryPolygonTyp:
		if i := r.Intn(len(n.Val)); r.Intn(2) == 0 {
			n.Val[i] = shuffle(r, n.Val[i], x.point)
		} else {
			n.Val = shuffle(r, n.Val, func() [][2]float64 { return [][2]float64{x.point(), x.point(), x.point()} })
		}
	case *g.GeometryMultiObjectTyp:
		n.Val = shuffle(r, n.Val, func() g.Expr { return n.Val[r.Intn(len(n.Val))] })
	case *g.GeometryCollectionTyp:
		n.Objects = shuffle(r, n.Objects, func() g.Expr { return n.Objects[r.Intn(len(n.Objects))] })
	case *g.ArrayTyp:
		if hasProps(n.List) {
			return false
		}
		more := func() g.Expr { return n.List[r.Intn(len(n.List))] }
		n.List = shuffle(r, n.List, more)
		switch n.Kind {
		case g.DATE, g.TIME, g.WEEKDAY, g.MONTH:
			if len(n.List) < 2 { // a list of one is written as that one
				n.List = append(n.List, more())
			}
		}
	case *g.Range:
		if hasProps([]g.Expr{n}) {
			return false
		}
		if _, is := n.High.(*g.Range); is { // as the lower end it needs parentheses
			return false
		}
		n.Low, n.High = n.High, n.Low
	case *g.BinaryExpr:
		var same []g.Token
		for t := range tokName {
			if t.Precedence() == n.Op.Precedence() && n.Op.Precedence() > 0 {
				same = append(same, t)
			}
		}
		if len(same) == 0 {
			return false
		}
		// in a fixed order
		for i := range same {
			for j := i; j > 0 && same[j] < same[j-1]; j-- {
				same[j], same[j-1] = same[j-1], same[j]
			}
		}
		n.Op = same[r.Intn(len(same))]
	default:
		return false
	}
	return true
}

// element puts an element of a list of another statement in a list of the same
// kind.
func (x *editor) element() {
	arrays := func(t *g.Trigger) (l []*g.ArrayTyp) {
		below(t, func(e, _ g.Expr) {
			if a, is := e.(*g.ArrayTyp); is && !hasProps(a.List) {
				l = append(l, a)
			}
		})
		return
	}
	for _, k := range x.r.Perm(4) {
		to, from := arrays(x.t), arrays(x.from())
		if k == 0 || len(to) == 0 || len(from) == 0 {
			continue
		}
		a, b := to[x.r.Intn(len(to))], from[x.r.Intn(len(from))]
		if a.Kind != b.Kind {
			continue
		}
		e := b.List[x.r.Intn(len(b.List))]
		if fmt.Sprintf("%T", e) != fmt.Sprintf("%T", a.List[0]) {
			continue
		}
		a.List[x.r.Intn(len(a.List))] = e
		x.done = append(x.done, "replace an element")
		return
	}
}

// operands are the places of a statement that hold one operand.
func operands(t *g.Trigger) (places []*g.Expr) {
	if _, is := t.When.(*g.BinaryExpr); !is {
		places = append(places, &t.When)
	}
	below(t.When, func(e, _ g.Expr) {
		if b, is := e.(*g.BinaryExpr); is {
			for _, p := range []*g.Expr{&b.Left, &b.Right} {
				if _, is := (*p).(*g.BinaryExpr); !is {
					places = append(places, p)
				}
			}
		}
	})
	return
}

// from gives a statement of its own each time, so that no part comes to hold
// itself.
func (x *editor) from() *g.Trigger { return x.fresh() }

// assignable tells whether e may be the value of a variable.
func assignable(e g.Expr) bool {
	switch n := e.(type) {
	case *g.Ref, *g.BinaryExpr:
		return false
	case *g.ArrayTyp:
		return n.Kind != g.IDENT
	}
	return true
}

// setVar hands a to SetVar; bad describes a wrong answer.
func (x *editor) setVar(a *g.Assign) (bad string) {
	t, name := x.t, a.Left.Val
	taken := false
	for _, v := range t.Vars {
		taken = taken || v.Left.Val == name
	}
	before := append([]*g.Assign(nil), t.Vars...)
	err := t.SetVar(a)
	want := before
	if !taken {
		want = append(want, a)
	}
	switch {
	case (err != nil) != taken:
		return fmt.Sprintf("SetVar(%s) gives %v with variables %s", name, err, names(before))
	case len(t.Vars) != len(want):
		return fmt.Sprintf("SetVar(%s) turns variables %s into %s", name, names(before), names(t.Vars))
	}
	for i := range want {
		if t.Vars[i] != want[i] {
			return fmt.Sprintf("SetVar(%s) turns variables %s into %s", name, names(before), names(t.Vars))
		}
	}
	if taken {
		x.done = append(x.done, "set a variable again")
	} else {
		x.done = append(x.done, "set a variable")
	}
	return
}

// step makes one change; bad describes a wrong answer of SetVar.
func (x *editor) step() (bad string) {
	r, t := x.r, x.t
	note := func(s string) { x.done = append(x.done, s) }
	switch r.Intn(16) {
	case 15:
		for k := 0; k < 5 && !x.move(); k++ {
		}
	case 14:
		x.gone = append(x.gone, t.Vars...)
		if o := x.from(); len(o.Vars) > 0 && r.Intn(2) == 0 {
			x.gone = append(x.gone, o.Vars...)
		}
		if len(x.gone) == 0 {
			return
		}
		return x.setVar(x.gone[r.Intn(len(x.gone))])
	case 12:
		// one operand in two places
		ps := operands(t)
		if len(ps) < 2 {
			return
		}
		i, j := r.Intn(len(ps)), r.Intn(len(ps))
		qs := operands(x.from())
		val := *qs[r.Intn(len(qs))]
		*ps[i], *ps[j] = val, val
		note("share an operand")
	case 0, 1:
		o := x.from()
		ps := operands(o)
		val := *ps[r.Intn(len(ps))]
		if !assignable(val) {
			return
		}
		if k := len(t.Vars); k > 0 && r.Intn(4) == 0 {
			// the value of another variable
			k--
			if r.Intn(2) == 0 {
				k = r.Intn(k + 1)
			}
			val = t.Vars[k].Right
			note("set a variable to the value of another")
		}
		name := x.name()
		if len(t.Vars) > 0 && r.Intn(3) == 0 {
			name = t.Vars[r.Intn(len(t.Vars))].Left.Val
			if r.Intn(3) == 0 {
				name = strings.ToUpper(name)
			}
		}
		return x.setVar(&g.Assign{Left: &g.Ident{Val: name}, Right: val})
	case 2:
		if len(t.Vars) > 1 {
			t.Vars = shuffleOrDrop(r, t.Vars)
			note("move variables")
		}
	case 3:
		if len(t.Vars) > 0 {
			v := t.Vars[r.Intn(len(t.Vars))]
			o := x.from()
			if len(o.Vars) > 0 && r.Intn(2) == 0 {
				v.Right = o.Vars[r.Intn(len(o.Vars))].Right
				note("replace a value")
			} else {
				name := x.name()
				for _, w := range t.Vars {
					if w.Left.Val == name {
						return
					}
				}
				v.Left.Val = name
				note("rename a variable")
			}
		}
	case 4:
		t.When = x.from().When
		note("replace the condition")
	case 5, 6:
		ps := operands(t)
		p := ps[r.Intn(len(ps))]
		o := x.from()
		if r.Intn(3) == 0 {
			*p = &g.ParenExpr{Expr: o.When}
			note("put a condition in parentheses")
		} else {
			qs := operands(o)
			*p = *qs[r.Intn(len(qs))]
			note("replace an operand")
		}
	case 7:
		o := x.from()
		t.RepeatCount, t.RepeatInterval = o.RepeatCount, o.RepeatInterval
		if t.RepeatCount != nil && r.Intn(3) == 0 {
			t.RepeatInterval = nil
		}
		note("replace the repeat clause")
	case 8:
		t.ResetAfter = x.from().ResetAfter
		note("replace the reset clause")
	case 9:
		x.element()
	default:
		type spot struct{ e, parent g.Expr }
		var spots []spot
		below(t, func(e, parent g.Expr) { spots = append(spots, spot{e, parent}) })
		for k := 0; k < 8; k++ {
			s := spots[r.Intn(len(spots))]
			if x.leaf(s.e, s.parent) {
				note("change a " + strings.TrimPrefix(fmt.Sprintf("%T", s.e), "*geoqlparser."))
				return
			}
		}
	}
	return
}

func names(l []*g.Assign) string {
	var s []string
	for _, a := range l {
		s = append(s, a.Left.Val)
	}
	return fmt.Sprint(s)
}

func shuffleOrDrop[T any](r *rand.Rand, l []T) []T {
	i, j := r.Intn(len(l)), r.Intn(len(l))
	if r.Intn(2) == 0 {
		l[i], l[j] = l[j], l[i]
		return l
	}
	return append(l[:i:i], l[i+1:]...)
}

// rebuilt is a copy of e made from its exported fields alone, as a program
// that assembles a statement would make it.
func rebuilt[T g.Expr](e T) T { return rebuiltAs(e, false) }

// rebuiltAs makes lists and maps without elements empty where they were nil
// and the other way round, if so wished.
func rebuiltAs[T g.Expr](e T, swapNil bool) T {
	var copyOf func(v reflect.Value) reflect.Value
	copyOf = func(v reflect.Value) reflect.Value {
		switch v.Kind() {
		case reflect.Interface:
			if v.IsNil() {
				return v
			}
			out := reflect.New(v.Type()).Elem()
			out.Set(copyOf(v.Elem()))
			return out
		case reflect.Pointer:
			if v.IsNil() {
				return v
			}
			out := reflect.New(v.Type().Elem())
			out.Elem().Set(copyOf(v.Elem()))
			return out
		case reflect.Struct:
			out := reflect.New(v.Type()).Elem()
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					out.Field(i).Set(copyOf(v.Field(i)))
				}
			}
			return out
		case reflect.Slice:
			if swapNil && v.Len() == 0 {
				if v.IsNil() {
					return reflect.MakeSlice(v.Type(), 0, 0)
				}
				return reflect.Zero(v.Type())
			}
			if v.IsNil() {
				return v
			}
			out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(copyOf(v.Index(i)))
			}
			return out
		case reflect.Array:
			out := reflect.New(v.Type()).Elem()
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(copyOf(v.Index(i)))
			}
			return out
		case reflect.Map:
			if swapNil && v.Len() == 0 {
				if v.IsNil() {
					return reflect.MakeMap(v.Type())
				}
				return reflect.Zero(v.Type())
			}
			if v.IsNil() {
				return v
			}
			out := reflect.MakeMap(v.Type())
			for _, k := range v.MapKeys() {
				out.SetMapIndex(k, v.MapIndex(k))
			}
			return out
		}
		return v
	}
	out := copyOf(reflect.ValueOf(&e).Elem())
	return out.Interface().(T)
}

// edited is the statement after some edits, and its description by them.
func (c *ctx) observeEdited(r *rand.Rand, src string, t *g.Trigger, dict g.Dictionary) bool {
	tree := convStmt(t)
	if d, n := treeDepth(tree); d > 900 || n > 20000 {
		c.count("skipped: large")
		return false
	}
	text, ok := c.format(src, t)
	if !ok {
		return false
	}
	again, ok := c.format(src, t)
	if !ok {
		return false
	}
	if again != text {
		c.fail(src, "after edits, formatting twice gives %q and %q", clip(text), clip(again))
		return false
	}
	st, err, ok := c.parse(text)
	if !ok {
		return false
	}
	if err != nil {
		c.fail(src, "after edits to %s the formatted text is rejected (%s): %q", clip(tree.String()), errText(err), clip(text))
		return false
	}
	if d := diffTree(convStmt(st), tree, false); d != "" {
		c.fail(src, "after edits the formatted text means something else: %s; text %q", d, clip(text))
		return false
	}
	if same, ok := c.format(text, st); !ok || same != text {
		if ok {
			c.fail(src, "an edited statement is formatted as %q, an equal parsed one as %q", clip(text), clip(same))
		}
		return false
	}
	n := len(c.st.Violations)
	c.typed(src, t, dict)
	var e1, e2 error
	if !c.guard("CheckType", src, len(src), func() { e1, e2 = g.CheckType(t, dict), g.CheckType(st, dict) }) {
		return false
	}
	if !sameError(e1, e2) {
		c.fail(src, "CheckType gives %q for an edited statement and %q for an equal parsed one (%q)", errText(e1), errText(e2), clip(text))
		return false
	}
	// a node may stand in several places, so only the sequence is compared
	var have, want []g.Expr
	if !c.guard("Visit", src, len(src), func() {
		g.Visit(t, func(e g.Expr) bool {
			if e != nil {
				have = append(have, e)
			}
			return true
		})
	}) {
		return false
	}
	below(t, func(e, _ g.Expr) {
		want = append(want, e)
		if p, is := e.(*g.GeometryPolygonTyp); is {
			c.count("polygons")
			if p.HasHoles() != (len(p.Val) > 1) {
				c.fail(src, "HasHoles gives %v for %d rings", p.HasHoles(), len(p.Val))
			}
		}
	})
	if !reflect.DeepEqual(pointers(have), pointers(want)) {
		c.fail(src, "after edits the traversal reaches %d nodes, or in another order, instead of %d; %q", len(have), len(want), clip(text))
		return false
	}
	if now := convStmt(t).String(); now != tree.String() {
		c.fail(src, "formatting, checking or walking changed an edited statement from %s to %s", clip(tree.String()), clip(now))
		return false
	}
	swapNil := r.Intn(2) == 0
	copied := rebuiltAs(t, swapNil)
	if have, ok := c.format(src, copied); !ok || have != text {
		if ok {
			c.fail(src, "a statement rebuilt from its exported fields is formatted as %q instead of %q", clip(have), clip(text))
		}
		return false
	}
	var e3 error
	if !c.guard("CheckType", src, len(src), func() { e3 = g.CheckType(copied, dict) }) {
		return false
	}
	if !sameError(e1, e3) {
		c.fail(src, "CheckType gives %q for a statement and %q for one rebuilt from its exported fields (%q)", errText(e1), errText(e3), clip(text))
		return false
	}
	c.nontrivial(tree.String())
	c.digest(text)
	return len(c.st.Violations) == n
}

func pointers(l []g.Expr) (p []uintptr) {
	for _, e := range l {
		p = append(p, reflect.ValueOf(e).Pointer())
	}
	return
}

func (c *ctx) edits(r *rand.Rand, text func() string) {
	parse := func() *g.Trigger {
		for k := 0; k < 10; k++ {
			src := text()
			if st, err, ok := c.parse(src); ok && err == nil {
				if t, is := st.(*g.Trigger); is && t != nil {
					return t
				}
			}
		}
		st, _, _ := c.parse("when a == 1")
		t, _ := st.(*g.Trigger)
		return t
	}
	var src string
	var t *g.Trigger
	for k := 0; k < 10 && t == nil; k++ {
		src = text()
		if st, err, ok := c.parse(src); ok && err == nil {
			t, _ = st.(*g.Trigger)
		}
	}
	if t == nil {
		c.count("no statement")
		return
	}
	dict := formDict
	if r.Intn(2) == 0 {
		dict = someTypes(r, formDict)
	}
	c.eval()
	if r.Intn(2) == 0 && !c.observeEdited(r, src, t, dict) {
		return
	}
	x := &editor{r: r, t: t, fresh: parse}
	rounds := 1 + r.Intn(3)
	for ; rounds > 0; rounds-- {
		for k := 1 + r.Intn(3); k > 0; k-- {
			if bad := x.step(); bad != "" {
				c.fail(src, "%s", bad)
				return
			}
		}
		if !c.observeEdited(r, strings.Join(x.done, ", ")+" in "+src, t, dict) {
			return
		}
	}
	for _, d := range x.done {
		c.count(d)
	}
	c.sample(strings.Join(x.done, ", ") + " in " + src)
}

func init() {
	need := []string{"polygons", "set a variable to the value of another", "move a part", "replace what parentheses hold", "change a ParenExpr", "long histories", "share an operand", "replace an element", "set a variable", "set a variable again", "move variables", "rename a variable", "replace a value", "replace the condition", "put a condition in parentheses",
		"replace an operand", "replace the repeat clause", "replace the reset clause", "well typed", "ill typed"}
	for _, k := range []string{"IntTyp", "FloatTyp", "PercentTyp", "SpeedTyp", "DistanceTyp", "PressureTyp", "TemperatureTyp", "DurationTyp", "StringTyp", "BooleanTyp", "Ref", "DateTyp", "TimeTyp", "WeekdayTyp", "MonthTyp",
		"Selector", "GeometryPointTyp", "GeometryLineTyp", "GeometryPolygonTyp", "GeometryMultiObjectTyp", "GeometryCollectionTyp", "ArrayTyp", "Range", "BinaryExpr"} {
		need = append(need, "change a "+k)
	}
	register(&property{id: "C24", need: need,
		rule:  "parsed statements changed through their exported fields and SetVar, in one to nine steps with parts of other statements, and formatted, parsed again, checked and walked before and after, themselves and rebuilt from their exported fields; non-trivial: distinct edited statements",
		notes: []string{"edits are limited to those that leave a statement the language can express"},
		parts: []part{
			{"statements", 60_000, 2_000_000, func(c *ctx, r *rand.Rand, i int) {
				c.edits(r, func() string { s, _, _ := statement(r, anyStmt, 0); return s })
			}},
			{"conditions", 60_000, 2_000_000, func(c *ctx, r *rand.Rand, i int) {
				c.edits(r, func() string { return randomCondition(r) })
			}},
			{"long histories", 1500, 50_000, func(c *ctx, r *rand.Rand, i int) {
				// many changes, one by one, to the same statement
				one := func() *g.Trigger {
					for {
						s := randomCondition(r)
						if i%2 == 0 {
							s, _, _ = statement(r, anyStmt, 0)
						}
						if st, err, ok := c.parse(s); ok && err == nil {
							if t, is := st.(*g.Trigger); is && t != nil {
								return t
							}
						} else if !ok {
							return &g.Trigger{When: &g.BooleanTyp{}}
						}
					}
				}
				x := &editor{r: r, t: one(), fresh: one}
				c.eval()
				for k := 0; k < 60; k++ {
					if bad := x.step(); bad != "" {
						c.fail(strings.Join(x.done, ", "), "%s", bad)
						return
					}
					if r.Intn(3) == 0 && !c.observeEdited(r, strings.Join(x.done, ", "), x.t, formDict) {
						return
					}
				}
				c.count("long histories")
			}},
			{"many variables", 400, 4000, func(c *ctx, r *rand.Rand, i int) {
				n := 1 + i%200
				src := fmt.Sprintf("%d variables set in when a", n)
				st, _, _ := c.parse("when a")
				t, is := st.(*g.Trigger)
				if !is {
					return
				}
				c.eval()
				seen := map[string]bool{}
				for k := 0; k < n; k++ {
					name := []string{"v", "V", "ж", "Ж"}[r.Intn(4)] + fmt.Sprint(r.Intn(n))
					var err error
					if !c.guard("SetVar", src, n, func() { err = t.SetVar(&g.Assign{Left: &g.Ident{Val: name}, Right: &g.IntTyp{Val: k}}) }) {
						return
					}
					if (err != nil) != seen[name] {
						c.fail(src, "SetVar(%s) gives %v with variables %s", name, err, names(t.Vars))
						return
					}
					seen[name] = true
					if len(t.Vars) != len(seen) || err == nil && t.Vars[len(seen)-1].Left.Val != name {
						c.fail(src, "after SetVar(%s) the variables are %s", name, names(t.Vars))
						return
					}
				}
				c.count("set many variables")
				c.observeEdited(r, src, t, formDict)
			}},
			{"mixed", 60_000, 2_000_000, func(c *ctx, r *rand.Rand, i int) {
				c.edits(r, func() string {
					switch r.Intn(4) {
					case 0:
						return literalText(r)
					case 1:
						return longText(r)
					case 2:
						return randomCondition(r)
					}
					s, _, _ := statement(r, anyStmt, 0)
					return s
				})
			}},
		}})
}
