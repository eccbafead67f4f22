package main

// Monitor of concurrent use: C21. It runs in a build with the race detector,
// in which the repository's code gives up the thread at random.

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing/iotest"
	"time"

	g "github.com/mmadfox/go-geoql-parser"
)

// shared is what the goroutines of a case have in common; nothing writes it.
type shared struct {
	texts []string
	stmts []g.Statement // of the accepted texts, nil for the others
	twins []g.Statement // equal ones
	ops   []int         // the calls to make; all if nil
	dicts []g.Dictionary
}

// call is one call of the API on the shared things.
type call struct {
	op, text, dict int
}

var opNames = []string{"parse", "format", "walk", "check", "tokenize", "tables", "read", "own"}

// outcome is everything a call returned. It is described only afterwards,
// since fmt's pools would order calls that are otherwise unordered.
type outcome struct {
	st    g.Statement
	err   error
	text  string
	nodes []g.Expr
	toks  []tokenSeen
	same  bool
	panic any
}

type tokenSeen struct {
	tok g.Token
	lit string
	at  g.Pos
}

func (o *outcome) String() string {
	if o.panic != nil {
		return fmt.Sprint("panic: ", o.panic)
	}
	var b strings.Builder
	if o.st != nil {
		b.WriteString(convStmt(o.st).spans())
	}
	b.WriteString(o.text)
	b.WriteString(errText(o.err))
	for _, e := range o.nodes {
		if e == nil {
			b.WriteByte(')')
		} else {
			fmt.Fprintf(&b, "(%T %d ", e, e.Pos())
		}
	}
	for _, t := range o.toks {
		fmt.Fprintf(&b, "%d %q %d\n", t.tok, t.lit, t.at)
	}
	fmt.Fprint(&b, o.same)
	return b.String()
}

// result performs a call.
func (s *shared) result(k call) (out *outcome) {
	out = new(outcome)
	defer func() {
		if r := recover(); r != nil {
			out = &outcome{panic: r}
		}
	}()
	src, st := s.texts[k.text], s.stmts[k.text]
	if st == nil && (k.op == 1 || k.op == 2 || k.op == 3 || k.op == 6) {
		k.op = 0
	}
	switch k.op {
	case 0:
		out.st, out.err = g.Parse(src)
	case 1:
		var b strings.Builder
		out.err = g.Format(&b, st)
		out.text = b.String()
	case 2:
		g.Visit(st.(g.Expr), func(e g.Expr) bool {
			out.nodes = append(out.nodes, e)
			return e != nil
		})
	case 3:
		out.err = g.CheckType(st, s.dicts[k.dict])
	case 4:
		t := g.NewTokenizer(iotest.OneByteReader(strings.NewReader(src)))
		for n := 0; n < len(src)+10; n++ {
			tok, lit := t.Scan()
			out.toks = append(out.toks, tokenSeen{tok, lit, t.Offset()})
			if tok == g.EOF {
				break
			}
		}
		out.err = t.Err()
		out.toks = append(out.toks, tokenSeen{at: g.Pos(t.ErrorCount())})
	case 5:
		var b strings.Builder
		for t := g.Token(0); t < 120; t++ {
			b.WriteString(g.KeywordString(t))
			b.WriteByte(byte('0' + t.Precedence()))
		}
		for u := g.Unit(0); u < 20; u++ {
			b.WriteString(u.String())
		}
		out.text = b.String()
	case 6: // everything the statement holds is read
		out.same = reflect.DeepEqual(st, s.twins[k.text])
		out.nodes = []g.Expr{st.(g.Expr)}
	case 7: // everything on a statement of its own
		n, err := g.Parse(src)
		if err != nil {
			out.err = err
			return
		}
		var b strings.Builder
		out.err = g.Format(&b, n)
		if err := g.CheckType(n, s.dicts[k.dict]); err != nil {
			b.WriteString(err.Error())
		}
		out.text = b.String()
		out.st = n
	}
	return
}

type timed struct {
	start, end time.Duration
	c          call
}

func (c *ctx) concurrently(r *rand.Rand, s *shared, gor, perGor int, one bool) {
	some := func() int {
		if s.ops != nil {
			return s.ops[r.Intn(len(s.ops))]
		}
		return r.Intn(len(opNames))
	}
	plan := make([][]call, gor)
	same := call{some(), r.Intn(len(s.texts)), r.Intn(len(s.dicts))}
	for i := range plan {
		for k := 0; k < perGor; k++ {
			x := call{some(), r.Intn(len(s.texts)), r.Intn(len(s.dicts))}
			if one && r.Intn(4) > 0 {
				x = same
			}
			plan[i] = append(plan[i], x)
		}
	}
	input := strings.Join(s.texts, "\n----\n")
	c.note(input)
	deep := make([]string, len(s.stmts))
	for i, st := range s.stmts {
		if st != nil {
			deep[i] = convStmt(st).spans()
		}
	}
	before := fmt.Sprint(s.dicts)

	results := make([][]*outcome, gor)
	times := make([][]timed, gor)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	begin := time.Now()
	for i := range plan {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-gate
			for _, k := range plan[i] {
				t0 := time.Since(begin) // no synchronisation between calls
				results[i] = append(results[i], s.result(k))
				times[i] = append(times[i], timed{t0, time.Since(begin), k})
			}
		}(i)
	}
	close(gate)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(120 * time.Second):
		c.fail(input, "%d concurrent calls have not returned after two minutes", gor*perGor)
		c.stop = true
		return
	}
	// what the calls return alone
	alone := map[call]string{}
	for i := range plan {
		for j, k := range plan[i] {
			want, ok := alone[k]
			if !ok {
				want = s.result(k).String()
				alone[k] = want
			}
			c.eval()
			c.count("calls " + opNames[k.op])
			if have := results[i][j].String(); have != want {
				c.fail(input, "%s of %q gives %q among other calls, and %q alone", opNames[k.op], clip(s.texts[k.text]), clip(have), clip(want))
				return
			}
		}
	}
	for i, st := range s.stmts {
		if st != nil {
			if now := convStmt(st).spans(); now != deep[i] {
				c.fail(input, "concurrent calls changed a shared statement from %s to %s", clip(deep[i]), clip(now))
				return
			}
		}
		// an equal statement parsed now
		if st != nil {
			if n, err := g.Parse(s.texts[i]); err != nil || !reflect.DeepEqual(n, st) {
				c.fail(input, "after concurrent calls %q is parsed differently", clip(s.texts[i]))
				return
			}
		}
	}
	if now := fmt.Sprint(s.dicts); now != before {
		c.fail(input, "concurrent calls changed a dictionary from %s to %s", clip(before), clip(now))
		return
	}
	for i := range plan {
		for j := range plan[i] {
			c.digest(results[i][j].String())
		}
	}
	c.interleaving(times)
	if c.idx < 3 {
		c.sample(fmt.Sprintf("%d goroutines, %d calls each, on %q", gor, perGor, clip(s.texts[0])))
	}
}

// interleaving counts the pairs of calls that overlapped, and notes the order
// in which calls began and ended.
func (c *ctx) interleaving(times [][]timed) {
	type event struct {
		at  time.Duration
		g   int
		end bool
		c   call
	}
	var ev []event
	for i, l := range times {
		for _, t := range l {
			ev = append(ev, event{t.start, i, false, t.c}, event{t.end, i, true, t.c})
		}
	}
	sort.SliceStable(ev, func(a, b int) bool { return ev[a].at < ev[b].at })
	open := map[int]call{}
	var b strings.Builder
	most := 0
	for _, e := range ev {
		if e.end {
			delete(open, e.g)
		} else {
			for _, o := range open {
				x, y := opNames[o.op], opNames[e.c.op]
				if x > y {
					x, y = y, x
				}
				c.count("overlap " + x + "/" + y)
				c.count("overlapping calls")
				if o.text == e.c.text {
					c.count("overlapping calls on the same text or statement")
				}
			}
			open[e.g] = e.c
			most = max(most, len(open))
		}
		fmt.Fprintf(&b, "%d%v ", e.g, e.end)
	}
	c.max("calls at once", most)
	c.nontrivial(b.String())
}

// cold has texts only, so that the calls on them are the first ones.
func cold(r *rand.Rand, n int, text func() string) *shared {
	s := &shared{stmts: make([]g.Statement, n), twins: make([]g.Statement, n), dicts: []g.Dictionary{formDict, someDict}}
	for i := 0; i < n; i++ {
		s.texts = append(s.texts, text())
	}
	return s
}

func (c *ctx) sharedThings(r *rand.Rand, n int, text func() string) *shared {
	s := &shared{}
	for i := 0; i < n; i++ {
		src := text()
		s.texts = append(s.texts, src)
		st, err := g.Parse(src)
		if err != nil {
			st = nil
		}
		s.stmts = append(s.stmts, st)
		twin, _ := g.Parse(src)
		s.twins = append(s.twins, twin)
	}
	s.dicts = []g.Dictionary{formDict, someTypes(r, formDict), someDict, nil}
	return s
}

// formPair is a condition of one operator.
func formPair(r *rand.Rand) string {
	f := func() string { return forms[r.Intn(len(forms))] }
	return formVars + f() + " " + allOps[r.Intn(len(allOps))] + " " + f()
}

// someWord is a word of the sources, as it is or extended or cut.
func someWord(r *rand.Rand) string {
	w := word(r)
	switch r.Intn(6) {
	case 0:
		w += strings.ToLower(word(r))
	case 1:
		w = recaseASCII(w, []func(string) string{strings.ToUpper, strings.Title}[r.Intn(2)])
	case 2:
		w += string(rune('a'+r.Intn(26))) + string(rune('0'+r.Intn(10)))
	case 3:
		w = w[:r.Intn(len(w)+1)]
	}
	return w
}

// mistakes are conditions with one mistake of each sort.
var mistakes = []string{
	"date", "date[]", "date[2022]", "date[2022-01]", "date[2022-01-01", "date[a]", "date[2021-01-01]", "date[2201-05-06]", "date[2022-13-01]", "date[2022-00-01]", "date[2022-01-32]", "date[2022-02-30]", "date[1..2]", "date[2022-01-01,]",
	"time", "time[]", "time[10]", "time[10:]", "time[25:00]", "time[10:60]", "time[10:30:60]", "time[10:30PM", "time[13:30PM]", "time[10:30 XM]", "time[a]", "time[10:30,]", "time[0:30PM]",
	"weekday", "weekday[]", "weekday[jan]", "weekday[mon,]", "weekday[mon", "month", "month[]", "month[mon]", "month[jan .. ]", "month[1]", "[mon, jan]",
	"-5%", "-5kph", "-2bar", "-1h", "-5km", "101%", "99999999999999999999", "1e400", "5..", ".. 5", "5parsec", "1:2",
	"point", "point[]", "point[1]", "point[1,2,3]", "point[1,a]", "point[1,2]:5", "point[1,2]:-5km", "line[]", "line[[1,2]]", "line[[1,2],[3]]", "line[[1,2],[3,4]", "polygon[]", "polygon[[]]", "polygon[[[1,2],[3,4]]]",
	"polygon[[[1,2],[3,4],[5,6]]]", "multipoint[]", "multipoint[line[[1,2],[3,4]]]", "multiline[point[1,2]]", "multipolygon[1]", "collection[]", "collection[1]", "collection[point[1,2]",
	"[", "[]", "[1,\"a\"]", "[1, 2", "[1 2]", "[1.5:2.5]", "a{", "a{}", "a{1}", "a{\"x\"", "a{\"x\",}", "a:", "a:1,", "@", "@nothing", "@1", "@v{\"x\"}", "(", "()", "(a", "a)", "not", "not not", "a not b", "a +", "+ a *", "* *", "a b", "a == ",
	"\"a", "\"\\q\"", "\"\\x4\"", "'a'", "`a`", "#", "a \x00", "\xff", "/* open", "a repeat", "a repeat x", "a repeat 0", "a repeat 1 every", "a repeat -1 times", "a repeat 1 every 5km", "a reset", "a reset after", "a reset after 5", "a reset after -5s", "a reset after 5s reset after 5s",
}

// mistaken is a text with one mistake of each of several sorts.
func mistaken(r *rand.Rand) string {
	m := mistakes[r.Intn(len(mistakes))]
	switch r.Intn(6) {
	case 0:
		return "trigger set v = " + m + " when a"
	case 1:
		return "trigger set w = 1; v = 2; w = " + m + " when @v"
	case 2:
		return "when a and x in " + m + " or b"
	case 3:
		return "when [" + m + "]"
	}
	return "when " + m
}

// deepText is a statement with one construct nested, chained or repeated n times.
func deepText(r *rand.Rand, n int) string {
	rep := func(s string) string { return strings.Repeat(s, n) }
	switch r.Intn(9) {
	case 0:
		return "trigger when " + rep("(") + "x" + rep(")")
	case 1:
		return "trigger when " + rep("not ") + "x"
	case 2:
		return "trigger when " + rep("x{a: ") + "1" + rep("}")
	case 3:
		return "trigger when x in " + rep("[") + "1" + rep("]")
	case 4:
		return "trigger when x" + rep(" + 1")
	case 5:
		return "trigger when 1" + rep(" .. 2")
	case 6:
		return "trigger when " + rep("-(") + "x" + rep(")")
	case 7:
		return "trigger when x == \"" + rep("s") + "\""
	}
	return "trigger when x in [1" + rep(", 2") + "]"
}

func init() {
	text := func(r *rand.Rand) string {
		switch r.Intn(6) {
		case 5:
			return formPair(r)
		case 0:
			return randomCondition(r)
		case 1:
			return longText(r)
		case 2:
			return nearMiss(r)
		case 3:
			return literalText(r)
		}
		s, _, _ := statement(r, anyStmt, r.Intn(4))
		return s
	}
	need := []string{"overlapping calls", "overlapping calls on the same text or statement"}
	for _, o := range opNames {
		need = append(need, "calls "+o)
	}
	register(&property{id: "C21", need: need, twice: true,
		rule:  "2 to 12 goroutines make random calls on shared texts, statements and dictionaries under the race detector, with random yields inside the repository's code; each result is compared with the same call made alone afterwards, and with another process; non-trivial: distinct orders of call starts and ends",
		notes: []string{"the race detector reports unordered conflicting accesses of the executions observed", "two minutes without a return count as a deadlock; the calls take milliseconds"},
		parts: []part{
			{"first calls", 16, 16, func(c *ctx, r *rand.Rand, i int) {
				c.concurrently(r, cold(r, 3, func() string { return randomCondition(r) }), 8, 6, i%2 == 0)
			}},
			{"mixed", 500, 20_000, func(c *ctx, r *rand.Rand, i int) {
				s := c.sharedThings(r, 1+r.Intn(4), func() string { return text(r) })
				c.concurrently(r, s, 2+r.Intn(11), 4+r.Intn(12), false)
			}},
			{"same call", 500, 20_000, func(c *ctx, r *rand.Rand, i int) {
				s := c.sharedThings(r, 1+r.Intn(2), func() string { return text(r) })
				c.concurrently(r, s, 4+r.Intn(9), 3+r.Intn(6), true)
			}},
			{"each form", len(forms), 8 * len(forms), func(c *ctx, r *rand.Rand, i int) {
				f := forms[i%len(forms)]
				var l []string
				for _, t := range []string{"si in %s", "sf not in %s", "ss in %s", "%s == %s", "%s + %s", "1.5 * %s", "true and %s", "%s < 2", "point[1,2] nearby %s", "%s intersects point[1,2]", "%s in [1,2]", "%s in 1 .. 2"} {
					l = append(l, formVars+strings.ReplaceAll(t, "%s", f))
				}
				k := 0
				s := c.sharedThings(r, len(l), func() string { k++; return l[k-1] })
				for op := 0; op < 4; op++ { // one call only, so that nothing else orders them
					s.ops = []int{op}
					c.concurrently(r, s, 3, 2*len(l), false)
				}
			}},
			{"words", 150, 5000, func(c *ctx, r *rand.Rand, i int) {
				s := cold(r, 6, func() string {
					if r.Intn(3) == 0 {
						return "trigger when " + someWord(r) + " == " + someWord(r) + "{" + someWord(r) + "}"
					}
					var b strings.Builder
					for k := 0; k < 12; k++ {
						b.WriteString(someWord(r) + " ")
					}
					return b.String()
				})
				s.ops = []int{4 * (i % 2)}
				c.concurrently(r, s, 3, 6, false)
			}},
			{"mistakes", 200, 8000, func(c *ctx, r *rand.Rand, i int) {
				// the same mistake in several goroutines
				s := cold(r, 10, func() string {
					switch r.Intn(6) {
					case 0:
						return nestText(r)
					case 1:
						return rowText(r)
					}
					return mistaken(r)
				})
				s.ops = []int{0}
				c.concurrently(r, s, 3, 20, false)
			}},
			{"operand forms", 300, 10_000, func(c *ctx, r *rand.Rand, i int) {
				s := c.sharedThings(r, 6, func() string { return formPair(r) })
				c.concurrently(r, s, 4+r.Intn(5), 6, false)
			}},
			{"deep and long", 120, 5000, func(c *ctx, r *rand.Rand, i int) {
				// each text of its own size, so that something grows in several goroutines
				s := cold(r, 6, func() string { return deepText(r, 2+r.Intn(900)) })
				s.ops = [][]int{{0}, {2}, {4}, nil}[i%4]
				if i%4 == 3 {
					s = c.sharedThings(r, 6, func() string { return deepText(r, 2+r.Intn(900)) })
				}
				c.concurrently(r, s, 3+r.Intn(4), 5, i%2 == 0)
			}},
			{"conditions", 300, 10_000, func(c *ctx, r *rand.Rand, i int) {
				s := c.sharedThings(r, 2, func() string { return randomCondition(r) })
				c.concurrently(r, s, 4+r.Intn(5), 6, true)
			}},
		}})
}
